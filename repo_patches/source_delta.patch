From d18c12f61264a4205bd895840da235a090bf3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 01/50] fix: terminate satellite names of 23 or more characters

---
 src/sat_skymap.c     | 2 ++
 src/sat_visibility.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..d29733f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -707,6 +707,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -916,6 +917,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	  strncpy(sat_name, line2, 23);
+	  sat_name[23] = '\0';
 	  trimend(sat_name);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..4c247ff 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -758,6 +758,7 @@ int main(int argc, char **argv)
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -790,6 +791,7 @@ int main(int argc, char **argv)
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	strncpy(sat_name, line2, 23);
+	sat_name[23] = '\0';
 	trimend(sat_name);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From dc528172803548bfa2fd430cd04e3a5b99925677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 02/50] fix: grow the duplicates buffer before it overflows

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d29733f..f1c2d96 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -748,7 +748,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 7 > cur_bufflen ) {  /* room for "ddddd," and the terminator */
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-- 
2.43.0


From 13884bdce53722113e7d39f33c1076a38aed7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 03/50] fix: do not return another satellite when the requested
 one is filtered out

---
 src/sat_skymap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f1c2d96..1314891 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -722,10 +722,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool single_sat_match = false;
 	 if ( p.single_sat_n ) {
 		int norad_name_n = strtol(norad_name, &endptr, 10);
 		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+			single_sat_match = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, 10, "%s%.2s-%s",
@@ -733,14 +734,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+		  single_sat_match = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( single_sat && !single_sat_match )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
@@ -903,6 +904,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
+	  single_sat_found = single_sat;
 
 	  if ( is_sunlit )
 		n_sunlit_sats++;
-- 
2.43.0


From e571411fad94e3d2a93b2c134c9cff6b475e0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 04/50] fix: match -s against the decoded (Alpha-5 aware) NORAD
 number

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 9 ++-------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1314891..c6dddda 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -724,8 +724,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	 char intl_desig[12] = {"none"};
 	 bool single_sat_match = false;
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_match = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 4c247ff..bfe5131 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -685,7 +685,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], tle_list_file[200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -764,13 +764,8 @@ int main(int argc, char **argv)
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
-/* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From 283ea4c8aacd991e1363ea26d33929885e8129f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 05/50] fix: wrap RA/longitude differences across 0h both ways

---
 src/sat_skymap.c     | 32 +++++++++++++++++++-------------
 src/sat_visibility.c | 20 ++++++++++++++++----
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c6dddda..f00f9f6 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -139,6 +139,21 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 }
 
 
+/*
+  Bring an angle difference (radians) into the range ]-pi, pi]
+*/
+double wrap_pi(double ang)
+{
+  ang = fmod(ang, TWOPI);
+  if ( ang > PI )
+	ang -= TWOPI;
+  else if ( ang <= -PI )
+	ang += TWOPI;
+
+  return ang;
+}
+
+
 /*
   Trim trailing space
 */
@@ -819,21 +834,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = wrap_pi(geo.lon * DEG2RAD - target_lon);
 		d_dec = geo.lat - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = wrap_pi(ra - target_ra);
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = wrap_pi(ra1 - target_ra);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -867,10 +876,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
-	  d_ra *= cos(dec);
+	  d_ra = wrap_pi(ra1 - ra) * cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
 	  if ( posn_ang_of_motion < 0. )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index bfe5131..49ef85a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -289,6 +289,21 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 }
 
 
+/*
+  Bring an angle difference (radians) into the range ]-pi, pi]
+*/
+double wrap_pi(double ang)
+{
+  ang = fmod(ang, TWOPI);
+  if ( ang > PI )
+	ang -= TWOPI;
+  else if ( ang <= -PI )
+	ang += TWOPI;
+
+  return ang;
+}
+
+
 /*
   Trim trailing space
 */
@@ -523,10 +538,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
-	d_ra *= cos(sat.dec);
+	d_ra = wrap_pi(ra1 - sat.ra) * cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
 	if ( sat.parang < 0. )
-- 
2.43.0


From ca51579f5d506809592adf3efde8ac4b602995e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 06/50] fix: use radians for the latitude difference of -E
 regions

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f00f9f6..1a19d12 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -835,7 +835,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
 		d_ra = wrap_pi(geo.lon * DEG2RAD - target_lon);
-		d_dec = geo.lat - target_lat;
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-- 
2.43.0


From 66d62f8e683163811fa9fce3a2c4de1e727678e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 07/50] fix: close the satellites array when a run ends on an
 error

---
 src/sat_skymap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1a19d12..a384450 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -243,6 +243,12 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* Close the "satellites" array, if it was opened */
+void close_sats_json(bool info_only, int n_sats_found) {
+  if ( !info_only && n_sats_found > 0 )
+	printf("],");
+}
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
@@ -710,6 +716,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
@@ -717,6 +724,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -768,6 +776,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    close_sats_json(p.info_only, n_sats_found);
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -798,6 +807,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -941,8 +951,7 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
+  close_sats_json(p.info_only, n_sats_found);
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-- 
2.43.0


From c17807b33a7d4da3df6aef7a51b3b8ec70790ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 08/50] fix: report the run command as given when @list is the
 last argument

---
 src/sat_skymap.c     | 38 ++++++++++++++++----------------------
 src/sat_visibility.c | 34 ++++++++++++++--------------------
 2 files changed, 30 insertions(+), 42 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index a384450..36646bf 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -249,15 +249,9 @@ void close_sats_json(bool info_only, int n_sats_found) {
 	printf("],");
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
@@ -381,7 +375,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
 
@@ -498,7 +492,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -511,13 +505,13 @@ int main(int argc, char **argv)
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
 		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
 		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_region = true;
@@ -542,7 +536,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
 	}  // end switch
@@ -581,10 +575,10 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		sprintf(errmsg, "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
   }
@@ -603,13 +597,13 @@ int main(int argc, char **argv)
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
 	sprintf(errmsg, "Could not allocate required buffer memory");
-  	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
@@ -717,7 +711,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	sprintf(errmsg, "Could not open input file %s", tle_path_file);
 	close_sats_json(p.info_only, n_sats_found);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
@@ -725,7 +719,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
 	close_sats_json(p.info_only, n_sats_found);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
 
@@ -777,7 +771,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
 		    close_sats_json(p.info_only, n_sats_found);
-		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
 		}
@@ -808,7 +802,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
 		close_sats_json(p.info_only, n_sats_found);
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
 
@@ -957,7 +951,7 @@ end_checking:
   if ( single_sat && !single_sat_found )
 	sprintf(errmsg, "Requested satellite not found in TLE file");
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
   return(0);
 }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 49ef85a..aee3f8c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -398,15 +398,9 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
@@ -565,7 +559,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(0);
   }
 
@@ -655,7 +649,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -674,7 +668,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
 	}  // end switch
@@ -710,19 +704,19 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		sprintf(errmsg, "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
   }
 
@@ -759,13 +753,13 @@ int main(int argc, char **argv)
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	sprintf(errmsg, "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 	exit(-2);
     }
 
@@ -812,7 +806,7 @@ int main(int argc, char **argv)
 
   if ( !single_sat_found ) {
 	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
 
@@ -880,7 +874,7 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  sprintf(errmsg, "Satellite altitude out of requested range");
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
     }
@@ -1085,7 +1079,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
   }
 
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found);
 
   return(0);
 }
-- 
2.43.0


From 45e8e128499773f3912893ce09d2e0ccc5e21e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 09/50] fix: escape strings written to the JSON output

---
 src/sat_skymap.c     | 40 +++++++++++++++++++++++++++++++---------
 src/sat_visibility.c | 42 +++++++++++++++++++++++++++++++++---------
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 36646bf..f01f001 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -200,6 +200,18 @@ void Usage() {
 }
 
 
+/* Print a string as the content of a JSON string */
+void print_json_str(const char *str) {
+  for ( ; *str; str++ ) {
+	if ( *str == '"' || *str == '\\' )
+		printf("\\%c", *str);
+	else if ( (unsigned char)*str < 32 )
+		printf("\\u%04x", *str);
+	else
+		putchar(*str);
+  }
+}
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -208,11 +220,15 @@ void open_json() {
 }
 
 void add_params_json(Params p) {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  print_json_str(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -252,10 +268,13 @@ void close_sats_json(bool info_only, int n_sats_found) {
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -900,8 +919,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_str(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_str(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index aee3f8c..7567872 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -344,6 +344,18 @@ void Usage() {
 }
 
 
+/* Print a string as the content of a JSON string */
+void print_json_str(const char *str) {
+  for ( ; *str; str++ ) {
+	if ( *str == '"' || *str == '\\' )
+		printf("\\%c", *str);
+	else if ( (unsigned char)*str < 32 )
+		printf("\\u%04x", *str);
+	else
+		putchar(*str);
+  }
+}
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -352,11 +364,17 @@ void open_json() {
 }
 
 void add_params_json() {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  print_json_str(p.date[0]);
+  printf("\", \"");
+  print_json_str(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -401,10 +419,13 @@ void add_sundata_json(char *label) {
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
   for ( int i = 1; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -958,8 +979,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_str(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_str(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From 92a7a6d100ba6768bb6598f4006e7ab5201f36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 10/50] fix: do not loop or read past argv on incomplete
 options

---
 src/sat_skymap.c     | 19 ++++++++++++-------
 src/sat_visibility.c | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f01f001..73b05a3 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -430,14 +430,25 @@ int main(int argc, char **argv)
   p.alt_max = 1e32;
 
 
+  const char *params_opt = "adDijlnprsSt";  /* options followed by a parameter */
+
 /* Note: no check on validity of input parameters! Could also use getarg. */
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != '\0' && strchr("hEGHITV", opt) != NULL ) {
+		  if ( argv[i][2] != 0 )  /* switches take no value: not recognized */
+		    opt = '\0';
+		} else if ( opt != '\0' && argv[i][2] == 0 && strchr(params_opt, opt) != NULL ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
+		  if ( i + 1 == argc ) {
+		    open_json();
+		    sprintf(errmsg, "Missing parameter of command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    exit(-2);
+		  }
 		  ++i;
 		  par_pos = 0;
 		}
@@ -450,27 +461,21 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
 		break;
 
 	  /* Parameters */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7567872..f8f5ffb 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -598,14 +598,25 @@ int main(int argc, char **argv)
   p.alt_max = 1e32;
 
 
+  const char *params_opt = "adDijlrst";  /* options followed by a parameter */
+
 /* Note: no check on validity of input parameters! Could also use getarg. */
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != '\0' && strchr("hNT", opt) != NULL ) {
+		  if ( argv[i][2] != 0 )  /* switches take no value: not recognized */
+		    opt = '\0';
+		} else if ( opt != '\0' && argv[i][2] == 0 && strchr(params_opt, opt) != NULL ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
+		  if ( i + 1 == argc ) {
+		    open_json();
+		    sprintf(errmsg, "Missing parameter of command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, -2, errmsg, n_sats_found);
+		    exit(-2);
+		  }
 		  ++i;
 		  par_pos = 0;
 		}
@@ -617,11 +628,9 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
 
 	  /* Parameters */
-- 
2.43.0


From b8002c7d5049268efe0925e67714fa27b6a1bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 11/50] fix: do not overflow fixed buffers with long arguments
 or paths

---
 src/sat_skymap.c         | 59 ++++++++++++++++++++--------------------
 src/sat_skymap_def.h     |  6 ++--
 src/sat_visibility.c     | 47 ++++++++++++++++----------------
 src/sat_visibility_def.h |  6 ++--
 4 files changed, 60 insertions(+), 58 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 73b05a3..212331f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -380,8 +380,9 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4400] = {""}, line1[100], line2[100],
+	sat_name[25], tle_path_file[4200], opt, *endptr;
+  const char *tle_path = ".";
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -393,7 +394,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
@@ -423,8 +424,8 @@ int main(int argc, char **argv)
   p.use_deftledir = false;  /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
   p.sunlit_only = false;  /* If only data for illuminated satellites requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.norad_n = 0;
   p.alt_min = 0;
   p.alt_max = 1e32;
@@ -445,7 +446,7 @@ int main(int argc, char **argv)
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  if ( i + 1 == argc ) {
 		    open_json();
-		    sprintf(errmsg, "Missing parameter of command-line option '-%c'", opt);
+		    snprintf(errmsg, sizeof(errmsg), "Missing parameter of command-line option '-%c'", opt);
 		    close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(-2);
 		  }
@@ -490,15 +491,15 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -515,7 +516,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -528,13 +529,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -550,7 +551,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		p.satname = argv[i] + par_pos;
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -559,7 +560,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -570,7 +571,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -585,7 +586,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[200];
+  char *s, row[fname_len], norad_name[7], tle_list_file[4200];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -599,9 +600,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -620,7 +621,7 @@ int main(int argc, char **argv)
   bool single_sat = false, single_sat_found = false, read_tle_list = true;
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
-	sprintf(errmsg, "Could not allocate required buffer memory");
+	snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
   	close_stat_json(argc, argv, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
@@ -712,9 +713,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -728,12 +729,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
 	close_sats_json(p.info_only, n_sats_found);
   	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
@@ -741,7 +742,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_sats_json(p.info_only, n_sats_found);
 	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
@@ -773,10 +774,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_match = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
@@ -793,7 +794,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
 		    close_sats_json(p.info_only, n_sats_found);
 		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
@@ -824,7 +825,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
-		sprintf(errmsg, "Could not decode TLE data");
+		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
 		close_sats_json(p.info_only, n_sats_found);
 		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
@@ -976,7 +977,7 @@ end_checking:
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-	sprintf(errmsg, "Requested satellite not found in TLE file");
+	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
 
   close_stat_json(argc, argv, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..3bfafe0 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -23,9 +23,9 @@ const char *progname = "sat_skymap",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[24],
-		intl_desig[12],
-		satname[24];
+		date[24];
+	const char *intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f8f5ffb..cc0e0cc 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -567,8 +567,9 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[4400] = {""}, line1[100], line2[100],
+	sat_name[25], tle_path_file[4200], opt, *endptr;
+  const char *tle_path = ".";
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -579,7 +580,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(0);
   }
@@ -593,8 +594,8 @@ int main(int argc, char **argv)
   p.single_sat_n = false;      /* If enquire for just 1 satellite using its NORAD number */
   p.use_deftledir = false;     /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.alt_max = 1e32;
 
 
@@ -613,7 +614,7 @@ int main(int argc, char **argv)
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  if ( i + 1 == argc ) {
 		    open_json();
-		    sprintf(errmsg, "Missing parameter of command-line option '-%c'", opt);
+		    snprintf(errmsg, sizeof(errmsg), "Missing parameter of command-line option '-%c'", opt);
 		    close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		    exit(-2);
 		  }
@@ -653,11 +654,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -678,7 +679,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -697,7 +698,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -709,7 +710,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -721,7 +722,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], tle_list_file[200];
+  char row[fname_len], tle_list_file[4200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -734,9 +735,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -745,7 +746,7 @@ int main(int argc, char **argv)
   p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
-	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
+	snprintf(errmsg, sizeof(errmsg), "Need to input a NORAD ID or an international designator.");
   	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
   }
@@ -762,9 +763,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -778,17 +779,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -809,7 +810,7 @@ int main(int argc, char **argv)
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -835,7 +836,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
@@ -903,7 +904,7 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
-	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..53b4b3d 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -23,9 +23,9 @@ const char *progname = "sat_visibility",
 
   typedef struct myParams {
 	  char *tle_file_name,
-		date[2][24],
-		intl_desig[12],
-		satname[24];
+		date[2][24];
+	const char *intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
-- 
2.43.0


From f58cb3444ba54eecaabcba3ab0bb2900f87a7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 12/50] fix: refuse MJDs that cannot be converted to a date

---
 src/mjd2date.c       | 4 ++--
 src/sat_skymap.c     | 6 ++++++
 src/sat_visibility.c | 7 +++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..c799bab 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -22,7 +22,7 @@ static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 /* No fractional seconds */
 char *mjd2date(double mjd)
 { 
-  static char date[20];
+  static char date[32];
   int iy, im, id, h, mm, s;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
@@ -76,7 +76,7 @@ char *mjd2date(double mjd)
 /* With fractional seconds (millisec) */
 char *mjd2datef(double mjd)
 { 
-  static char date[24];
+  static char date[32];
   int iy, im, id, h, mm, s, fs;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 212331f..7074a59 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -507,6 +507,12 @@ int main(int argc, char **argv)
 		break;
           case 'j':
 		p.mjd = atof(argv[i] + par_pos);
+		if ( !isfinite(p.mjd) || mjd2date(p.mjd) == NULL ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index cc0e0cc..2be85ee 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -669,6 +669,13 @@ int main(int argc, char **argv)
 		        exit(0);
 		}
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( !isfinite(p.mjd[0]) || !isfinite(p.mjd[1]) ||
+		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
-- 
2.43.0


From 59f0d6553f58452d893eca98d143db94a808e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 13/50] fix: no division by zero or endless loop on null time
 steps

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 7074a59..3d263bc 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -917,7 +917,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( posn_ang_of_motion < 0. )
 		posn_ang_of_motion += TWOPI;
 //speed = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG * 60 / p.delta_time;  // arcmin / s
-	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time;
+	  speed = p.delta_time != 0 ? skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time : 0.;
 
 /* HEALPix order 8 nested ID */
 	  theta = (PI/2. - dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 2be85ee..e5e3725 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -702,6 +702,12 @@ int main(int argc, char **argv)
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
+		if ( p.delta_time < 1 ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 second. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           default:
 		open_json();
-- 
2.43.0


From f961afda1f6c72d20b44904980eeb6b061b5743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 14/50] fix: refuse non-finite input parameters

---
 src/sat_skymap.c     | 8 ++++++++
 src/sat_visibility.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 3d263bc..f4d3ab7 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -573,6 +573,14 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+  if ( !isfinite(p.lat) || !isfinite(p.lon) || !isfinite(p.ht_in_meters) || !isfinite(p.ra_deg) ||
+       !isfinite(p.de_deg) || !isfinite(p.search_radius) || isnan(p.alt_min) || isnan(p.alt_max) ) {
+	open_json();
+	snprintf(errmsg, sizeof(errmsg), "Input parameters must be finite numbers");
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(-1);
+  }
+
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e5e3725..6539c7e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -718,6 +718,14 @@ int main(int argc, char **argv)
 	}  // end switch
   }  // end if - for
 
+  if ( !isfinite(p.lat) || !isfinite(p.lon) || !isfinite(p.ht_in_meters) ||
+       !isfinite(p.search_radius) || isnan(p.alt_min) || isnan(p.alt_max) ) {
+	open_json();
+	snprintf(errmsg, sizeof(errmsg), "Input parameters must be finite numbers");
+	close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+	exit(-1);
+  }
+
   jd[0] = JD_OFF + p.mjd[0];  // From MJD to JD
   jd[1] = JD_OFF + p.mjd[1];
 
-- 
2.43.0


From ed82d4da601e39e65cd2813ecdbcd1dfb06cb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 15/50] fix: accept TLE list files with CRLF line ends

---
 src/sat_skymap.c     | 6 +++---
 src/sat_visibility.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f4d3ab7..9f62388 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -738,9 +738,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && lastchar[-1] >= 0 && lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6539c7e..b9049ac 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -795,9 +795,9 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && lastchar[-1] >= 0 && lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From c425758f41f3fbea21283db8999300ec710e087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 16/50] fix: close each TLE file of a list, do not close none
 for an empty list

---
 src/sat_visibility.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b9049ac..a0ca40b 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -849,15 +849,15 @@ int main(int argc, char **argv)
       }
     }  // end while fgets(line2 ...
 
+    fclose(ifile);
+
     if ( single_sat_found )
 	break;
 
   }  // end while read_tle_list
 
-  fclose(ifile);
-
   if ( !single_sat_found ) {
-	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", ifile ? tle_path_file : tle_list_file);
 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
-- 
2.43.0


From efa426c5a53632b3b814bd43f1263fe360997439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 17/50] fix: do not truncate international designators with
 multi-letter pieces

---
 src/sat_skymap.c     | 27 +++++++++++++++++----------
 src/sat_visibility.c | 27 +++++++++++++++++----------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9f62388..18c0c7e 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -169,6 +169,20 @@ char *trimend(char *str)
 }
 
 
+/*
+  International designator in the form "1998-067A" from the TLE one ("98067A")
+*/
+void set_intl_desig(const tle_t *tle, char *intl_desig, size_t len)
+{
+  if ( tle->intl_desig[0] != ' ' ) {
+	snprintf(intl_desig, len, "%s%.2s-%s",
+		(atoi(tle->intl_desig) > 57000 ? "19" : "20"),
+		tle->intl_desig, tle->intl_desig + 2);
+	trimend(intl_desig);
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -783,10 +797,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( tle.norad_number == p.norad_n )
 			single_sat_match = true;
 	 } else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_match = true;
@@ -912,12 +923,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	  }
+	  if ( !p.single_sat_i )
+		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 	  d_ra = wrap_pi(ra1 - ra) * cos(dec);
 	  d_dec = dec1 - dec;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a0ca40b..3517484 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -320,6 +320,20 @@ char *trimend(char *str)
 }
 
 
+/*
+  International designator in the form "1998-067A" from the TLE one ("98067A")
+*/
+void set_intl_desig(const tle_t *tle, char *intl_desig, size_t len)
+{
+  if ( tle->intl_desig[0] != ' ' ) {
+	snprintf(intl_desig, len, "%s%.2s-%s",
+		(atoi(tle->intl_desig) > 57000 ? "19" : "20"),
+		tle->intl_desig, tle->intl_desig + 2);
+	trimend(intl_desig);
+  }
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -826,10 +840,7 @@ int main(int argc, char **argv)
 		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
+		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
@@ -997,12 +1008,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF;
 
-	if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	}
+	if ( !p.single_sat_i )
+		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
-- 
2.43.0


From 9faf8c67a5109f80c9c1a6ff5dbb2328856fcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 18/50] fix: do not report satellites whose position cannot be
 computed

---
 src/sat_skymap.c     | 29 ++++++++++++++++++++++++-----
 src/sat_visibility.c | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 18c0c7e..62ebd3b 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -392,6 +392,15 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 }
 
 
+/*
+  Is this SGP4/SDP4 return code an error (no position computed) rather than a warning?
+*/
+bool is_sxpx_error(int rval)
+{
+  return rval != 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH;
+}
+
+
 int main(int argc, char **argv)
 {
   char errmsg[4400] = {""}, line1[100], line2[100],
@@ -830,7 +839,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 
 	int is_deep = select_ephemeris(&tle),
-	    is_sunlit;
+	    is_sunlit, sxpx_err;
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
@@ -841,11 +850,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	if ( is_deep ) {
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_err = SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
+/* No position available (e.g. decayed) */
+	if ( is_sxpx_error(sxpx_err) )
+		continue;
+
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
@@ -879,11 +892,17 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+
+	if ( is_sxpx_error(sxpx_err) )
+		continue;
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
+	if ( isnan(ra1) || isnan(dec1) )
+		continue;
+
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 3517484..ed28c3f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -553,16 +553,30 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
+/*
+  Is this SGP4/SDP4 return code an error (no position computed) rather than a warning?
+*/
+bool is_sxpx_error(int rval)
+{
+  return rval != 0 && rval != SXPX_WARN_ORBIT_WITHIN_EARTH && rval != SXPX_WARN_PERIGEE_WITHIN_EARTH;
+}
+
+
 /* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
 
 void get_sat_PA_and_speed(double t_since) {
 	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+	int sxpx_err;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
+	  sxpx_err = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
+	  sxpx_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+	}
+	if ( is_sxpx_error(sxpx_err) ) {  /* No position available */
+	  sat.parang = sat.speed = 0.;
+	  return;
 	}
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
@@ -881,6 +895,7 @@ int main(int argc, char **argv)
 	pos[3],  /* Satellite position vector */
 	t = jd[0],
 	eray[2];  /* Sun-Earth ray intersection radius */
+  int sxpx_err;
 
   bool is_t_start = true, sunlit_start_found = false, sunlit_end_found = false;
 
@@ -925,10 +940,18 @@ int main(int argc, char **argv)
 
     if ( sat.is_deep ) {
 	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
+	sxpx_err = SDP4(t_since, &tle, sat_params, pos, NULL);
     } else {
 	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
+	sxpx_err = SGP4(t_since, &tle, sat_params, pos, NULL);
+    }
+
+/* No position available (e.g. decayed): not visible at this time */
+    if ( is_sxpx_error(sxpx_err) ) {
+	if ( sunlit_start_found )
+	  break;
+	t += p.delta_time / SEC_IN_DAY;
+	continue;
     }
 
     if ( p.altrng_requested ) {
@@ -946,6 +969,15 @@ int main(int argc, char **argv)
 
     get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
 
+/* For malformed or partial tle this could happen */
+    if ( isnan(sat.ra) || isnan(sat.dec) ) {
+	if ( n_sats_found > 0 )
+	  printf("}, ");
+	snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
+	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
+	exit(1);
+    }
+
     sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
 
 /* Compute initial speed to be used to accelerate visibility search (TODO) */
-- 
2.43.0


From 4728202309d0449e6baaf551ddff10c00ab79c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 19/50] fix: close the satellite object when the altitude
 leaves the range

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ed28c3f..0c29a7c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -409,6 +409,8 @@ void add_geofieldsdesc_json() {
 }
 
 void add_satlatlon_json(char *label) {
+  if ( strcmp(label, "geoloc_start") != 0 )  /* follows another record */
+	printf(", ");
   printf("\"%s\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ",
     label,  geo.lat, geo.lon, geo.alt, geo.theta);
 }
@@ -419,8 +421,6 @@ void add_satdata_json(char *label) {
     label,
     sat.cur_date, sat.cur_mjd, sat.ra * RAD2DEG, sat.dec * RAD2DEG, sat.az, sat.alt,
     sat.d_km, sat.ang_sep, (int)(sat.parang * RAD2DEG), sat.speed);
-    if ( strstr(label,"sat_max") == NULL )
-	printf(", ");
 }
 
 void add_sundata_json(char *label) {
@@ -959,6 +959,8 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
+	  if ( n_sats_found > 0 )
+	    printf("}, ");
 	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
-- 
2.43.0


From f6b88cd0a58613607657dfd80043ea9bf61f8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 20/50] fix: MJD of the mid and max records

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0c29a7c..6f45205 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1119,7 +1119,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	sat.cur_mjd = mjd_sunlit_mid;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1155,7 +1156,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	sat.cur_mjd = t - JD_OFF;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From dea1fa3abcdd04e83ea581d09fee85f45e73ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 21/50] fix: start and end times used for the sunlit duration
 and mid time

---
 src/sat_visibility.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6f45205..a0f49c0 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1023,11 +1023,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;  /* t already moved to the next step */
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
-	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	  sat.cur_mjd = mjd_sunlit_end;
 	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
@@ -1040,7 +1040,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;  /* t already moved to the next step */
 
 	if ( !p.single_sat_i )
 		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
@@ -1060,7 +1060,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
 	add_sundata_json("sun_start");
-	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	sat.cur_mjd = mjd_sunlit_start;
 	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-- 
2.43.0


From 819a6a0ac78cdff2f7dc1a99a6a5f13e6dd750f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 22/50] fix: Sun and satellite data of the end record refer to
 its instant

---
 src/sat_visibility.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a0f49c0..42d38e9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1078,6 +1078,29 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+
+/* Last data refer to other instants (Sun), or have already been moved to J2000 (satellite) */
+	p.lmst = lmst_hr(t, p.lon, &p.gmst);
+	target_ra_rad = p.lmst / RAD2HRS;
+
+	t_since = (t - tle.epoch) * 1440.;
+
+	if ( sat.is_deep ) {
+	  SDP4_init(sat_params, &tle);
+	  SDP4(t_since, &tle, sat_params, pos, NULL);
+	} else {
+	  SGP4_init(sat_params, &tle);
+	  SGP4(t_since, &tle, sat_params, pos, NULL);
+	}
+
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
+
+	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
+
+	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
+
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
+
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


From 571c1f9dd405ffc92910ca01afad21c380e21c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 23/50] fix: accept fractional seconds in the date range

---
 src/sat_visibility.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 42d38e9..0fb1db2 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -677,7 +677,7 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
+		sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
-- 
2.43.0


From d779d7118641c64b0827a839900592974425d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 24/50] fix: GMST in the range [0, 24[ also before 2000

---
 src/lmst_hr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..8161878 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -41,8 +41,10 @@ double lmst_hr(const double jd, double longit, double *gmst)
   *gmst = sid_g + 1.00273790934 * ut;
   sid_g = *gmst + longit/360.;
   *gmst *= 24.;
-  while (*gmst > 24.)
+  while (*gmst >= 24.)
 	*gmst -= 24.;
+  while (*gmst < 0.)
+	*gmst += 24.;
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
-- 
2.43.0


From 1ef2ac070d5fe2c1927095737b631769b870d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 25/50] fix: horizontal coordinates at the poles and on the
 meridian

---
 src/dechalat2alt.c | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..b2ae28b 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -21,7 +21,7 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 
 /* Manage peculiar cases and calculate Azimuth */
-  if ( ha == 0. ) {
+  if ( ha == 0. && fabs(dec - lat) < 1e-6 ) {  /* at the zenith */
 	*az = 0.;
 	cosha = 1.;
 	cosaz = 1.;
@@ -34,32 +34,19 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
 	sinha = sin(ha);
-	if (coslat < 1e-6) {  /* very close to a pole: assume +/- 90 deg */
-	  coslat = 0.;
-	  if (lat < 0.)
-	    sinlat = -1.;
-	  else
-	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
-	  sinlat = sin(lat);
+	sinlat = sin(lat);
 
-          *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
+	*az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
-	  sinaz = sin(*az);
-	  cosaz = cos(*az);
+	sinaz = sin(*az);
+	cosaz = cos(*az);
 
-	  *az *= RAD2DEG;  /* done with taking trig functions of it ... */
-          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
-          if (*az >= 360.) *az -= 360.;
-          if (cosdec != 0.) { /* protect divide by zero ... */
-	    sinp = -1. * sinaz * coslat / cosdec;
-	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
-	  }
+	*az *= RAD2DEG;  /* done with taking trig functions of it ... */
+	if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
+	if (*az >= 360.) *az -= 360.;
+	if (cosdec != 0.) { /* protect divide by zero ... */
+	  sinp = -1. * sinaz * coslat / cosdec;
+	  cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	}
   }
 
@@ -74,8 +61,11 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
-	*alt = 90.;
-  else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+  double sinalt = cosdec*cosha*coslat + sindec*sinlat;
+
+  if ( sinalt > 1. )  /* rounding */
+	sinalt = 1.;
+  else if ( sinalt < -1. )
+	sinalt = -1.;
+  *alt = RAD2DEG * asin(sinalt);
 }
-- 
2.43.0


From d0e22d53592a34af31e6df1cd03f72277df8b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 26/50] fix: keep precessed coordinates in range near the poles

---
 src/observe.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..188888d 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,17 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Across a pole? */
+  if ( *dec > PI / 2. ) {
+	*dec = PI - *dec;
+	*ra += PI;
+  } else if ( *dec < -PI / 2. ) {
+	*dec = -PI - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
 }
-- 
2.43.0


From f9c412f3df7175ea1eaa910b578b60ae9a90ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 27/50] fix: angular separation of opposite directions

---
 src/skysep_h.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index a93a565..a6b2049 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,10 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
+
+  double hav = sin2d + cos(phi1)*cos(phi2)*sin2a;
+  if (hav > 1.) hav = 1.;  /* rounding, for opposite directions */
+  if (hav < 0.) hav = 0.;
+  return (2 * asin( sqrt(hav) ) * RAD2DEG);
 }
 
-- 
2.43.0


From c12c05cf6f3b81ae2921e356e4dd4a665b472f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 28/50] fix: MJD is ignored if a calendar date is given, in any
 order

---
 src/sat_skymap.c     | 4 ++++
 src/sat_visibility.c | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 62ebd3b..45958e1 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -411,6 +411,7 @@ int main(int argc, char **argv)
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
+	date_given = false,  /* if a calendar date is given (then MJD is ignored) */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -516,6 +517,7 @@ int main(int argc, char **argv)
           case 'd':
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		date_given = true;
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
@@ -529,6 +531,8 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
+		if ( date_given )
+		  break;
 		p.mjd = atof(argv[i] + par_pos);
 		if ( !isfinite(p.mjd) || mjd2date(p.mjd) == NULL ) {
 		  open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0fb1db2..9750388 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -602,7 +602,8 @@ int main(int argc, char **argv)
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
-  bool in_geopos = false,  /* make sure Geo location is passed */
+  bool date_given = false,  /* if a calendar date is given (then MJD is ignored) */
+	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -680,6 +681,7 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
+		date_given = true;
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
@@ -696,6 +698,8 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
+		if ( date_given )
+		  break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
 		if ( !isfinite(p.mjd[0]) || !isfinite(p.mjd[1]) ||
 		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL ) {
-- 
2.43.0


From d3f455bd2f2febced00ae471c80f58bcfee20edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 29/50] fix: always use the state vector model for 'H' type
 elements

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 122d4f5eca8b7defa578b038a170a888a3a041e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 30/50] fix: report checksum errors of 'H' type elements

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..89ee3f1 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -334,7 +334,7 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
             state_vect[i]     = get_high_value( line1 + 33 + i * 10);
             state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
             }
-         return( 0);
+         return( checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From 62d2952bbe244e09a853f23366bf5ef6e3af4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 31/50] fix: refuse or bound malformed TLE fields instead of
 aborting

---
 src/get_el.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 89ee3f1..8d83ee5 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -2,7 +2,6 @@
 
 #include <string.h>
 #include <stdint.h>
-#include <assert.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "norad.h"
@@ -21,11 +20,12 @@ converted to radians,  all in one step.    */
 
 static int get_angle( const char *buff)
 {
+   const char *endptr = buff + 8;       /* DDD.DDDD */
    int rval = 0;
 
-   while( *buff == ' ')
+   while( buff < endptr && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < endptr && *buff != ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
@@ -54,7 +54,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
@@ -145,7 +145,6 @@ static double get_high_value( const char *iptr)
 {
    int64_t rval = 0;
 
-   assert( *iptr == '+' || *iptr == '-');
    if( *iptr == '+' || *iptr == '-')
       {
       int i, digit;
@@ -153,7 +152,6 @@ static double get_high_value( const char *iptr)
       for( i = 1; i < 9; i++)
          {
          digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
          rval = rval * (int64_t)36 + (int64_t)digit;
          }
       if( *iptr == '-')
@@ -162,6 +160,24 @@ static double get_high_value( const char *iptr)
    return( (double)rval);
 }
 
+/* Are the three signed base-36 values of an 'H' line well formed? */
+static int check_high_values( const char *line)
+{
+   int i, j;
+
+   for( i = 0; i < 3; i++)
+      {
+      const char *iptr = line + 33 + i * 10;
+
+      if( *iptr != '+' && *iptr != '-')
+         return( -1);
+      for( j = 1; j < 9; j++)
+         if( mutant_dehex( iptr[j]) < 0)
+            return( -1);
+      }
+   return( 0);
+}
+
 /* Traditionally,  NORAD numbers were stored as five digits.  In 2020, new
 detectors threatened to go past 100K objects;  the 'Alpha-5' scheme allows
 the first byte to be replaced by an uppercase letter,  with I and O
@@ -302,6 +318,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          }
       }
 
+   if( !rval && line1[62] == 'H'
+             && (check_high_values( line1) || check_high_values( line2)))
+      rval = -5;
+
    if( !rval)
       {
       char tbuff[13];
-- 
2.43.0


From eea012c957666eab44ffce3c522f469c2bbc8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 32/50] fix: install only completely downloaded TLE files

---
 scripts/tle_retrieve.sh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6ad85f5..47f81ea 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -40,7 +40,14 @@ else
 fi
 
 # Goto destination directory
-cd $OUTDIR
+cd "$OUTDIR" || exit 1
+
+# Retrieve a file into TMPFILE. Fails unless the transfer is complete and the server reports success.
+get_tle() {
+	local code
+	rm -f $TMPFILE
+	code=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1"` && [ "$code" -eq 200 ] && [ -f $TMPFILE ]
+}
 
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
@@ -52,7 +59,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then  # Check for success code
+	if get_tle "$URL$TLE_NAME"; then  # Check for success code
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -79,7 +86,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` -eq 200 ]; then
+	if get_tle "$URLSUPP$TLE_NAME"; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
 		else
@@ -108,7 +115,7 @@ do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
 	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then
+	if get_tle "$URL$TLE_NAME"; then
 		mv $TMPFILE $TLE
 		echo retrieved. | tee -a $LOGFILE
 	else
@@ -121,7 +128,7 @@ done
 # TLE files with different url/extension name (in Communications Satellites section)
   echo -n "===> SPECIAL gpz ..." | tee -a $LOGFILE
 
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz"` -eq 200 ]; then
+  if get_tle "${URLS}gpz"; then
 	mv $TMPFILE gpz.txt
 	echo retrieved. | tee -a $LOGFILE
   else
@@ -129,7 +136,7 @@ done
   fi
 
   echo -n "===> SPECIAL gpz-plus ..." | tee -a $LOGFILE
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then
+  if get_tle "${URLS}gpz-plus"; then
 	mv $TMPFILE gpz-plus.txt
 	echo retrieved. | tee -a $LOGFILE
   else
-- 
2.43.0


From b82f8aaeb9ed77ef25c12a69288c01734b7649e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 33/50] fix: satellite count not affected by an interrupted run
 or a missing directory

---
 scripts/tle_satcount.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 3ac284c..c9706f5 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -27,10 +27,10 @@ else
 fi
 
 # Goto TLE dir
-cd $TLEDIR
+cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
-rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
+rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD ${OUTFILE_NORAD}_tmp
 
 # List of most relevant TLE files, excluding debris
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus )
-- 
2.43.0


From 9a00170d1f2b8c4bc3d4cc99b0020823d141e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 34/50] fix: only a digit in the checksum column can be a right
 checksum

---
 src/get_el.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 8d83ee5..480dd7c 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -80,7 +80,7 @@ want to use TLEs without worrying about the checksum. */
 int DLL_FUNC tle_checksum( const char *buff)
 {
    int rval = 0;
-   int count = 69;
+   int count = 69, digit;
 
    if( (*buff != '1' && *buff != '2') || buff[1] != ' ')
       return( -1);
@@ -94,14 +94,19 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
+   if( *buff < ' ' || *buff > 'z')              /* no checksum column */
+      return( -2);
+   digit = (*buff >= '0' && *buff <= '9');
    rval -= *buff++ - '0';
-   if( *buff > ' ')                 /* line unterminated */
+   if( (unsigned char)*buff > ' ')  /* line unterminated */
       rval = -3;
    else
       {
       rval %= 10;
       if( rval < 0)
          rval += 10;
+      if( !digit && !rval)          /* only a digit can be right */
+         rval = 1;
       }
    return( rval % 10);
 }
-- 
2.43.0


From 56e7c8d43259b32098671daebfe3a1facf8c8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 35/50] fix: names starting with a digit 1 or 2 are names

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 45958e1..c7b7b37 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -998,7 +998,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* not an element line, e.g. "1KUNS-PF" */
 	  strncpy(sat_name, line2, 23);
 	  sat_name[23] = '\0';
 	  trimend(sat_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 9750388..0ff74d5 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -871,7 +871,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* not an element line, e.g. "1KUNS-PF" */
 	strncpy(sat_name, line2, 23);
 	sat_name[23] = '\0';
 	trimend(sat_name);
-- 
2.43.0


From bd0183520ff2f0f5b7e21b8087502875170d4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 36/50] fix: catalogue number depends on its five columns only

---
 src/get_el.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 480dd7c..a4f39df 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -272,7 +272,8 @@ static int get_norad_number( const char *buff)
             + digits[3] * 10 + digits[2] * 100 + (digits[1] - 10) * 1000
             + digits[0] * 24000;
    else        /* last four digits are 0-9;  'standard' NORAD desig */
-      rval = digits[0] * 10000 + atoi( buff + 1);
+      rval = digits[0] * 10000 + digits[1] * 1000 + digits[2] * 100
+            + digits[3] * 10 + digits[4];
    return( rval);
 }
 
-- 
2.43.0


From 5eab95bd4eeb3b29dd3ea57ccc768dda840e1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 37/50] fix: npix2nside64 divides exactly, so that every nside
 below 2^29 is found again

---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..07cd643 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -820,7 +820,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From f015caf3eb1e46e7616b7f4324872c7d4602950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 38/50] fix: nested pixel at the belt corner when the longitude
 rounds to a full turn

---
 HealpixC/chealpix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 07cd643..8206d15 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -241,6 +241,8 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     double temp2 = nside_*(z*0.75);
     int jp = (int)(temp1-temp2); /* index of  ascending edge line */
     int jm = (int)(temp1+temp2); /* index of descending edge line */
+    if ((jp>=5*nside_)||(jm>=5*nside_)) /* phi rounded to a full turn */
+      { jp -= 4*nside_; jm -= 4*nside_; }
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
     face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
@@ -649,6 +651,8 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     double temp2 = nside_*(z*0.75);
     int64_t jp = (int64_t)(temp1-temp2); /* index of  ascending edge line */
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
+    if ((jp>=5*nside_)||(jm>=5*nside_)) /* phi rounded to a full turn */
+      { jp -= 4*nside_; jm -= 4*nside_; }
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
     face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
-- 
2.43.0


From f827433a7e9c6f44b4b650645b40061a3250812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 39/50] fix: ring pixel at the edge of the equatorial belt when
 rounding puts it a ring too far

---
 HealpixC/chealpix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 8206d15..151c116 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -293,6 +293,8 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
 
     /* ring number counted from z=2/3 */
     int ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) { ir=1; ++jp; } /* |z| next to 2/3: rounding of jp and jm */
+    else if (ir>2*nside_+1) { ir=2*nside_+1; ++jm; }
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
@@ -707,6 +709,8 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
 
     /* ring number counted from z=2/3 */
     int64_t ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    if (ir<1) { ir=1; ++jp; } /* |z| next to 2/3: rounding of jp and jm */
+    else if (ir>2*nside_+1) { ir=2*nside_+1; ++jm; }
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int64_t ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
-- 
2.43.0


From abeb5ef5fad4d934ab05bd3ef8b80e3ef8039d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 40/50] fix: report the international designator when both -s
 and -i are given

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index c7b7b37..badae66 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -946,8 +946,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i )
-		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
+	  set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 	  d_ra = wrap_pi(ra1 - ra) * cos(dec);
 	  d_dec = dec1 - dec;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0ff74d5..6e18cda 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1046,8 +1046,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;  /* t already moved to the next step */
 
-	if ( !p.single_sat_i )
-		set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
+	set_intl_desig(&tle, intl_desig, sizeof(intl_desig));
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
-- 
2.43.0


From 70ee5d98e6ff2bbe7996abb499da9524d5d9dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 41/50] fix: bytes that are not UTF-8 made the JSON output
 invalid

---
 src/sat_skymap.c     | 23 ++++++++++++++++++++++-
 src/sat_visibility.c | 23 ++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index badae66..dd897d9 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -214,15 +214,36 @@ void Usage() {
 }
 
 
+/* Length of the UTF-8 character at STR, 0 when it is not one */
+static int utf8_length(const char *str) {
+  const unsigned char *s = (const unsigned char *)str;
+  int n = s[0] < 0xc2 ? 0 : s[0] < 0xe0 ? 2 : s[0] < 0xf0 ? 3 : s[0] < 0xf5 ? 4 : 0;
+
+  for ( int i = 1; i < n; i++ )
+	if ( (s[i] & 0xc0) != 0x80 )
+		return 0;
+  if ( (s[0] == 0xe0 && s[1] < 0xa0) || (s[0] == 0xed && s[1] > 0x9f) ||
+       (s[0] == 0xf0 && s[1] < 0x90) || (s[0] == 0xf4 && s[1] > 0x8f) )
+	return 0;
+  return n;
+}
+
 /* Print a string as the content of a JSON string */
 void print_json_str(const char *str) {
+  int n;
+
   for ( ; *str; str++ ) {
 	if ( *str == '"' || *str == '\\' )
 		printf("\\%c", *str);
 	else if ( (unsigned char)*str < 32 )
 		printf("\\u%04x", *str);
-	else
+	else if ( (unsigned char)*str < 128 )
 		putchar(*str);
+	else if ( (n = utf8_length(str)) > 0 ) {
+		fwrite(str, 1, n, stdout);
+		str += n - 1;
+	} else
+		printf("\\u%04x", (unsigned char)*str);
   }
 }
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6e18cda..632ac7d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -358,15 +358,36 @@ void Usage() {
 }
 
 
+/* Length of the UTF-8 character at STR, 0 when it is not one */
+static int utf8_length(const char *str) {
+  const unsigned char *s = (const unsigned char *)str;
+  int n = s[0] < 0xc2 ? 0 : s[0] < 0xe0 ? 2 : s[0] < 0xf0 ? 3 : s[0] < 0xf5 ? 4 : 0;
+
+  for ( int i = 1; i < n; i++ )
+	if ( (s[i] & 0xc0) != 0x80 )
+		return 0;
+  if ( (s[0] == 0xe0 && s[1] < 0xa0) || (s[0] == 0xed && s[1] > 0x9f) ||
+       (s[0] == 0xf0 && s[1] < 0x90) || (s[0] == 0xf4 && s[1] > 0x8f) )
+	return 0;
+  return n;
+}
+
 /* Print a string as the content of a JSON string */
 void print_json_str(const char *str) {
+  int n;
+
   for ( ; *str; str++ ) {
 	if ( *str == '"' || *str == '\\' )
 		printf("\\%c", *str);
 	else if ( (unsigned char)*str < 32 )
 		printf("\\u%04x", *str);
-	else
+	else if ( (unsigned char)*str < 128 )
 		putchar(*str);
+	else if ( (n = utf8_length(str)) > 0 ) {
+		fwrite(str, 1, n, stdout);
+		str += n - 1;
+	} else
+		printf("\\u%04x", (unsigned char)*str);
   }
 }
 
-- 
2.43.0


From 747d1c16bf6e53de73dbf00b8793396a920a548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 42/50] fix: sat_visibility printed sidereal times and right
 ascension of the zenith as 0

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 632ac7d..1bb3494 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -929,6 +929,9 @@ int main(int argc, char **argv)
   target_dec_rad = p.lat * DEG2RAD;
 
   add_geofieldsdesc_json();
+/* Sidereal times and zenith at the start of the range */
+  p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
+  p.ra_deg = p.lmst * 15.;
 /* Alt, Az, Parang from Dec, HA, Lat */
   dechalat2alt(target_dec_rad, hazenith, p.lat, &p.alt, &p.az, &p.parang);
   add_params_json();
-- 
2.43.0


From fd8ae730f1ab294de8e0f898d9b1bbad49cf4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 43/50] fix: sat_visibility took a blank international
 designator for that of the set before

---
 src/sat_visibility.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 1bb3494..ffda50b 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -330,7 +330,8 @@ void set_intl_desig(const tle_t *tle, char *intl_desig, size_t len)
 		(atoi(tle->intl_desig) > 57000 ? "19" : "20"),
 		tle->intl_desig, tle->intl_desig + 2);
 	trimend(intl_desig);
-  }
+  } else
+	snprintf(intl_desig, len, "none");
 }
 
 
-- 
2.43.0


From f6e369c72d4edce6534e301340f02e0dcf4abe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 44/50] fix: an old gps.txt replaced gps-ops.txt when no gps
 file could be retrieved

---
 scripts/tle_retrieve.sh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 47f81ea..16c170c 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -89,6 +89,8 @@ do
 	if get_tle "$URLSUPP$TLE_NAME"; then
 		if [ $TLE_NAME = iridium ]; then
 			mv $TMPFILE iridium-NEXT.txt
+		elif [ $TLE_NAME = gps ]; then  # gps file name mismatch
+			mv $TMPFILE gps-ops.txt
 		else
 			mv $TMPFILE $TLE
 		fi
@@ -100,12 +102,6 @@ do
 
 done
 
-# Patch for gps file name mismatch
-if [ -f gps.txt ]; then
-	mv gps.txt gps-ops.txt
-fi
-
-
 
 # List of Debris TLE files
 tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )  # 2019-006 replaced with 1982-092
-- 
2.43.0


From 35b94b3c0f4656c03b3264ce8bf63e7e1217bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 45/50] fix: count the satellites of the directory the files
 were retrieved to

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 16c170c..a62a101 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -188,6 +188,6 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 #
 # Produce the updated list of number of sats in the TLE file. Comment out if not needed.
 #
-$BINDIR/tle_satcount.sh
+$BINDIR/tle_satcount.sh "$PWD"
 
 date | tee -a $LOGFILE
-- 
2.43.0


From 585779b6ba26cb0e5d8040828739e4c4d9c978e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 46/50] fix: Gaia, JWT, Euclid and JUICE sets were not found in
 a relative directory

---
 scripts/tle_retrieve.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index a62a101..a1cbcf7 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -149,7 +149,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
-  if [ ! -f $OUTDIR/gaia_2025.txt ]; then
+  if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -158,7 +158,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
-  if [ ! -f $OUTDIR/jwt_2025.txt ]; then
+  if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -167,7 +167,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
-  if [ ! -f $OUTDIR/euclid_2025.txt ]; then
+  if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -176,7 +176,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
-  if [ ! -f $OUTDIR/juice_2024.txt ]; then
+  if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
-- 
2.43.0


From 06c3b4c4fe0eafc2f243497897f3c5e815ee4ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 47/50] fix: an epoch without decimal point put element sets
 millions of years away, and their propagation took minutes

---
 src/get_el.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index a4f39df..83752fd 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -337,7 +337,11 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          year += (line1[18] - '0') * 10;
       if( year < 57)          /* cycle around Y2K */
          year += 100;
-      sat->epoch = get_eight_places( line1 + 20) + J1900
+            /* Without its decimal point,  the day must not run into the */
+            /* columns after it:  it could be millions of years away.    */
+      memcpy( tbuff, line1 + 20, 12);
+      tbuff[3] = tbuff[12] = '\0';
+      sat->epoch = get_eight_places( tbuff) + J1900
              + (double)( year * 365 + (year - 1) / 4);
       sat->norad_number = get_norad_number( line1 + 2);
       memcpy( tbuff, line1 + 64, 4);
-- 
2.43.0


From 51ad406d33fe2dcb4491a5e09cf5b9e7f4e9d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 48/50] fix: -s with a number beyond 32 bits returned another
 satellite (number modulo 2^32)

---
 src/sat_skymap_def.h     | 4 ++--
 src/sat_visibility_def.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index 3bfafe0..8375cd9 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -41,8 +41,8 @@ const char *progname = "sat_skymap",
 		alt_min,
 		alt_max;
 	    int delta_time,
-		max_sats,
-		norad_n;
+		max_sats;
+	    long norad_n;
 	   bool haversine,
 		info_only,
 		sunlit_only,
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 53b4b3d..3015d61 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -40,8 +40,8 @@ const char *progname = "sat_visibility",
 		mjd[2],
 		alt_min,
 		alt_max;
-	    int delta_time,
-		norad_n;
+	    int delta_time;
+	    long norad_n;
 	   bool skip_daytime,
 		single_sat_i,
 		single_sat_n,
-- 
2.43.0


From 80e432eea09e32879a98534343b628462097b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 49/50] fix: Greenwich apparent sidereal time could be 24 h or
 more, or negative

---
 src/zenith_site_ra.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index b95c5c8..2e41e8b 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -67,6 +67,11 @@ void ut2gast(double ut1, double *gast)
 // GAST at this UT (in hours)
   *gast = gmst + eqeq/3600.;
 
+  if ( *gast < 0. )
+	*gast += 24.;
+  else if ( *gast >= 24. )
+	*gast -= 24.;
+
 #ifdef DEBUG
 printf("gmst, eqeq, gast: %lf, %lf, %lf\n", gmst, eqeq/3600., *gast);
 #endif
-- 
2.43.0


From 12aac2733c4d8bcb992f993696f91f7d280fadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 50/50] fix: Greenwich mean sidereal time of the zenith
 functions drifted by 0.2 s per century (constants truncated to float)

---
 src/zenith_site_ra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index 2e41e8b..a5efbd6 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -34,13 +34,13 @@ void ut2gmst(double ut1, double *gmst)
   T0 = (jd0 - JD2000)/36525.0;
 
 /* Greenwich Mean Sidereal Time at 0h UT of date */
-  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063F)*T0
-          + 24110.54841F;
+  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063)*T0
+          + 24110.54841;
 #ifdef DEBUG
 printf("GMST0: %lf\n", *gmst);
 #endif
   msday = (((-(4. * 2.0e-6)*T0 - (3. * 3.e-7))*T0 + (2. * 9.27701e-2))*T0
-          + 8640184.7942063F)/(SEC_IN_DAY*36525.) + 1.0;
+          + 8640184.7942063)/(SEC_IN_DAY*36525.) + 1.0;
 
 /* GMST at this UT (in hours) */
   *gmst += msday*secs;
-- 
2.43.0

