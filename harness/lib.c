/* Conformance driver: executes the library calls it reads on stdin, one per
   line, and prints what each returned.  Doubles in and out are hexadecimal
   floats; text is hexadecimal bytes ("-" when empty). */
#include <ctype.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "norad.h"
#include "observe.h"
#include "chealpix.h"

int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
char *mjd2datef(double mjd);
double skysep_h(const double, const double, const double, const double);
double lmst_hr(const double jd, double lon, double *gmst);
void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, double *parang);
void lpsun_radec(double jd, double *ra, double *dec);
void ut2gmst(double ut1, double *gmst);
void earthtilt(double, double *, double *, double *, double *, double *);
void ut2gast(double ut1, double *gast);
void ut2last(double ut1, double lon, double *last);
int zenith_site_ra(double ut1, double lon, double *radeg);
int zenith_site_ra_last(double ut1, double lon, double *radeg);

static char *tok(void) { char *t = strtok(NULL, " \n"); if (!t) { fprintf(stderr, "driver: missing argument\n"); exit(3); } return t; }
static double num(void) { return strtod(tok(), NULL); }
static int64_t i64(void) { return strtoll(tok(), NULL, 10); }

/* text in an exactly sized heap block, so that any overrun is seen by the sanitizer build */
static char *txt(void) {
  char *h = tok();
  size_t n = !strcmp(h, "-") ? 0 : strlen(h) / 2;
  char *s = malloc(n + 1);
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); s[i] = (char)v; }
  s[n] = 0;
  return s;
}
static void out(double x) { if (isnan(x)) printf(" nan"); else printf(" %a", x); }
static void outtxt(const char *s, size_t n) { putchar(' '); if (!n) putchar('-'); for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }

typedef void (*init_t)(double *, const tle_t *);
typedef int (*prop_t)(const double, const tle_t *, const double *, double *, double *);
static const struct { const char *name; init_t init; prop_t prop; int n; } MODEL[] = {
  {"SGP", SGP_init, SGP, N_SGP_PARAMS}, {"SGP4", SGP4_init, SGP4, N_SGP4_PARAMS}, {"SGP8", SGP8_init, SGP8, N_SGP8_PARAMS},
  {"SDP4", SDP4_init, SDP4, N_SDP4_PARAMS}, {"SDP8", SDP8_init, SDP8, N_SDP8_PARAMS}};

static int model(void) { char *m = tok(); for (int i = 0; i < 5; i++) if (!strcmp(m, MODEL[i].name)) return i; fprintf(stderr, "driver: model %s\n", m); exit(3); }

#define MAXOBJ 64
static tle_t obj[MAXOBJ];
static double *par[MAXOBJ];
static int mod[MAXOBJ];

static void propagate(int k, double t, int vel) {
  double pos[3] = {1e99, 1e99, 1e99}, v[3] = {1e99, 1e99, 1e99};
  int rc = MODEL[mod[k]].prop(t, &obj[k], par[k], pos, vel ? v : NULL);
  printf(" %d", rc);
  for (int i = 0; i < 3; i++) out(pos[i]);
  for (int i = 0; i < 3; i++) out(v[i]);
}

int main(void) {
  static char line[1 << 20];
  while (fgets(line, sizeof line, stdin)) {
    char *c = strtok(line, " \n");
    if (!c) continue;
    if (!strcmp(c, "ck")) { char *s = txt(); printf("%d", tle_checksum(s)); free(s); }
    else if (!strcmp(c, "parse")) {
      char *a = txt(), *b = txt(); tle_t t;
      memset(&t, 0, sizeof t);
      int rc = parse_elements(a, b, &t);
      printf("%d", rc);
      out(t.epoch); out(t.xndt2o); out(t.xndd6o); out(t.bstar); out(t.xincl); out(t.xnodeo); out(t.eo); out(t.omegao); out(t.xmo); out(t.xno);
      printf(" %d %d %d %d %d", t.norad_number, t.bulletin_number, t.revolution_number, (unsigned char)t.classification, (unsigned char)t.ephemeris_type);
      outtxt(t.intl_desig, strnlen(t.intl_desig, sizeof t.intl_desig));
      printf(" %d", rc >= 0 ? select_ephemeris(&t) : -9);
      free(a); free(b);
    }
    else if (!strcmp(c, "load") || !strcmp(c, "over")) {   /* load k MODEL line1 line2: initialise object k; over: in the parameters that the previous object k left */
      int k = (int)i64(), over = *c == 'o', had = over && par[k] ? MODEL[mod[k]].n : 0; mod[k] = model(); char *a = txt(), *b = txt();
      memset(&obj[k], 0, sizeof obj[k]);
      int rc = parse_elements(a, b, &obj[k]);
      free(a); free(b);
      double *fresh = malloc(sizeof(double) * MODEL[mod[k]].n);
      for (int i = 0; i < MODEL[mod[k]].n; i++) fresh[i] = 1e99;
      if (had) memcpy(fresh, par[k], sizeof(double) * (had < MODEL[mod[k]].n ? had : MODEL[mod[k]].n));
      free(par[k]); par[k] = fresh;
      if (rc >= 0) MODEL[mod[k]].init(par[k], &obj[k]);
      printf("%d %d", rc, rc >= 0 ? select_ephemeris(&obj[k]) : -9);
    }
    else if (!strcmp(c, "pick")) {             /* pick type eo xno xincl: choice of model for elements as given */
      tle_t t; memset(&t, 0, sizeof t);
      t.ephemeris_type = (char)i64(); t.eo = num(); t.xno = num(); t.xincl = num();
      printf("%d", select_ephemeris(&t));
    }
    else if (!strcmp(c, "at")) { int k = (int)i64(); double t = num(); int v = (int)i64(); printf("0"); propagate(k, t, v); }
    else if (!strcmp(c, "d2m")) { char *s = txt(); double m = 1e99; int rc = date2mjd_nf(s, &m); printf("%d", rc); out(m); free(s); }
    else if (!strcmp(c, "m2d")) { char *s = mjd2date(num()); if (s) { printf("1"); outtxt(s, strlen(s)); } else printf("0 -"); }
    else if (!strcmp(c, "m2df")) { char *s = mjd2datef(num()); if (s) { printf("1"); outtxt(s, strlen(s)); } else printf("0 -"); }
    else if (!strcmp(c, "lmst")) { double jd = num(), lon = num(), g = 1e99, l = lmst_hr(jd, lon, &g); printf("0"); out(l); out(g); }
    else if (!strcmp(c, "horiz")) { double d = num(), h = num(), l = num(), al = 1e99, az = 1e99, pa = 1e99; dechalat2alt(d, h, l, &al, &az, &pa); printf("0"); out(al); out(az); out(pa); }
    else if (!strcmp(c, "sun")) { double r = 1e99, d = 1e99; lpsun_radec(num(), &r, &d); printf("0"); out(r); out(d); }
    else if (!strcmp(c, "sep")) { double a = num(), b = num(), d = num(), e = num(); printf("0"); out(skysep_h(a, b, d, e)); }
    else if (!strcmp(c, "prec")) { double jd = num(), ra = num(), de = num(); epoch_of_date_to_j2000(jd, &ra, &de); printf("0"); out(ra); out(de); }
    else if (!strcmp(c, "obs")) { double jd = num(), lon = num(), lat = num(), ht = num(), rc = 1e99, rs = 1e99, v[3]; earth_lat_alt_to_parallax(lat, ht, &rc, &rs); observer_cartesian_coords(jd, lon, rc, rs, v); printf("0"); out(rc); out(rs); out(v[0]); out(v[1]); out(v[2]); }
    else if (!strcmp(c, "radec")) { double o[3], s[3], ra = 1e99, de = 1e99, dl = 1e99; for (int i = 0; i < 3; i++) o[i] = num(); for (int i = 0; i < 3; i++) s[i] = num(); get_satellite_ra_dec_delta(o, s, &ra, &de, &dl); printf("0"); out(ra); out(de); out(dl); }
    else if (!strcmp(c, "tilt")) { double v[5]; int k, n = (int)num(); earthtilt(1., v, v + 1, v + 2, v + 3, v + 4); printf("0"); while (n--) { double t = num(); for (k = 0; k < 5; k++) v[k] = 1e99; earthtilt(t, v, v + 1, v + 2, v + 3, v + 4); for (k = 0; k < 5; k++) out(v[k]); } }
    else if (!strcmp(c, "sid")) { double u = num(), lon = num(), g = 1e99, a = 1e99, l = 1e99, z = 1e99, zl = 1e99; ut2gmst(u + 2400000.5, &g); ut2gast(u + 2400000.5, &a); ut2last(u + 2400000.5, lon, &l); int r1 = zenith_site_ra(u, lon, &z), r2 = zenith_site_ra_last(u, lon, &zl); printf("0"); out(g); out(a); out(l); printf(" %d", r1); out(z); printf(" %d", r2); out(zl); }
    else if (!strcmp(c, "dir")) {              /* dir nside theta phi wide nest: pixel of a direction, every function that applies */
      int64_t ns = i64(); double th = num(), ph = num(); int w = (int)i64(), nest = (int)i64();
      double v[3] = {1e99, 1e99, 1e99}; long p = -7; int64_t q = -7;
      ang2vec(th, ph, v); printf("0"); out(v[0]); out(v[1]); out(v[2]);
      double t2 = 1e99, p2 = 1e99; vec2ang(v, &t2, &p2); out(t2); out(p2);
      ang2pix_ring64(ns, th, ph, &q); printf(" %lld", (long long)q);
      q = -7; vec2pix_ring64(ns, v, &q); printf(" %lld", (long long)q);
      if (nest) { q = -7; ang2pix_nest64(ns, th, ph, &q); printf(" %lld", (long long)q); q = -7; vec2pix_nest64(ns, v, &q); printf(" %lld", (long long)q); } else printf(" -9 -9");
      if (!w) { ang2pix_ring(ns, th, ph, &p); printf(" %ld", p); p = -7; vec2pix_ring(ns, v, &p); printf(" %ld", p); } else printf(" -9 -9");
      if (!w && nest) { p = -7; ang2pix_nest(ns, th, ph, &p); printf(" %ld", p); p = -7; vec2pix_nest(ns, v, &p); printf(" %ld", p); } else printf(" -9 -9");
    }
    else if (!strcmp(c, "vec")) {              /* vec nside x y z wide nest */
      int64_t ns = i64(); double v[3]; for (int i = 0; i < 3; i++) v[i] = num(); int w = (int)i64(), nest = (int)i64();
      int64_t q = -7; long p = -7; double th = 1e99, ph = 1e99;
      printf("0"); vec2ang(v, &th, &ph); out(th); out(ph);
      vec2pix_ring64(ns, v, &q); printf(" %lld", (long long)q); q = -7;
      if (nest) { vec2pix_nest64(ns, v, &q); printf(" %lld", (long long)q); } else printf(" -9");
      if (!w) { vec2pix_ring(ns, v, &p); printf(" %ld", p); p = -7; } else printf(" -9");
      if (!w && nest) { vec2pix_nest(ns, v, &p); printf(" %ld", p); } else printf(" -9");
    }
    else if (!strcmp(c, "pix")) {              /* pix nside ipix wide nest: centre and conversions of a pixel number read as ring and as nest */
      int64_t ns = i64(), ip = i64(); int w = (int)i64(), nest = (int)i64();
      double th, ph, v[3]; int64_t q; long p;
      printf("0");
      th = ph = v[0] = v[1] = v[2] = 1e99; pix2ang_ring64(ns, ip, &th, &ph); out(th); out(ph); pix2vec_ring64(ns, ip, v); out(v[0]); out(v[1]); out(v[2]);
      th = ph = v[0] = v[1] = v[2] = 1e99; if (!w) { pix2ang_ring(ns, ip, &th, &ph); pix2vec_ring(ns, ip, v); } out(th); out(ph); out(v[0]); out(v[1]); out(v[2]);
      th = ph = v[0] = v[1] = v[2] = 1e99; if (nest) { pix2ang_nest64(ns, ip, &th, &ph); pix2vec_nest64(ns, ip, v); } out(th); out(ph); out(v[0]); out(v[1]); out(v[2]);
      th = ph = v[0] = v[1] = v[2] = 1e99; if (nest && !w) { pix2ang_nest(ns, ip, &th, &ph); pix2vec_nest(ns, ip, v); } out(th); out(ph); out(v[0]); out(v[1]); out(v[2]);
      q = -7; nest2ring64(ns, ip, &q); printf(" %lld", (long long)q);
      q = -7; ring2nest64(ns, ip, &q); printf(" %lld", (long long)q);
      p = -7; if (!w) nest2ring(ns, ip, &p); printf(" %ld", p);
      p = -7; if (!w) ring2nest(ns, ip, &p); printf(" %ld", p);
    }
    else if (!strcmp(c, "n2n")) { int64_t ns = i64(), np = i64(); int w = (int)i64(); printf("0 %lld %ld", (long long)nside2npix64(ns), npix2nside64(np)); if (!w) printf(" %ld %ld", nside2npix(ns), npix2nside(np)); else printf(" -9 -9"); }
    else { fprintf(stderr, "driver: command %s\n", c); return 3; }
    putchar('\n');
    fflush(stdout);
  }
  return 0;
}
