import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T0="The only existing tests are HEALPix round trips in test_chealpix; "
p("C01","A region search lists exactly the satellites inside the search circle",
"For any catalogue, site, epoch, region centre and radius, a sat_skymap region search lists a decodable catalogue satellite exactly when its topocentric direction at the requested epoch, or deltaT seconds later, lies within the radius of the requested RA/Dec (of the site zenith if no region is given; with -E when the point below it at the epoch lies within the radius of the site), and lists them in catalogue order. Separation is the great-circle angle with -H, and without it the flat sqrt(dRA^2+dDec^2) where dRA is taken the short way round, wherever on the sky the centre is, also across RA 0h and across the antimeridian.",
["inputs","configurations"],"all catalogues, sites, epochs, centres (every RA/Dec), radii, deltaT, with/without -H and -E",
T0+"no test runs sat_skymap at all, and a sample of regions cannot reach the boundary, wrap-around and two-epoch cases for every centre.",
["src/sat_skymap.c","src/observe.c","src/skysep_h.c"],
[("two-epoch selection in main loop","src/sat_skymap.c: ang_sep/ang_sep1"),("topocentric direction","src/observe.c: get_satellite_ra_dec_delta"),("great circle","src/skysep_h.c")],
[("search centre","RA/Dec, zenith or site lon/lat the separations refer to","src/sat_skymap.c main: target_ra/dec/lon/lat")],"stdout of sat_skymap: satellites[]")
p("C02","Single-satellite and name requests return that satellite and no other",
"With -s N or -i D sat_skymap and sat_visibility report at most one satellite: the first catalogue entry whose catalogue number is N (letters-and-digits numbers included) or whose international designator starts with D, wherever it is on the sky and whichever file of a list it is in (sat_skymap passes over entries whose position cannot be computed or that another option given excludes). When there is no such entry, no satellite is reported and the error text says it was not found; it is never replaced by a satellite that does not match. With -S sat_skymap reports exactly the entries whose name starts with the given text, in catalogue order.",
["inputs","histories"],"all catalogues (any position, any order, duplicates, several files), all requested numbers/designators/names, combined with the other options",
T0+"the wrong-satellite case depends on the sequence of catalogue entries and filters met before the match.",
["src/sat_skymap.c","src/sat_visibility.c"],
[("match and stop","src/sat_skymap.c: single_sat_found, satname_filter"),("match and stop","src/sat_visibility.c: single_sat_found")],
[("single_sat_found","whether the requested entry has been met","both mains")],"stdout satellites[]/satellite, n_sats, errmsg")
p("C03","Each satellite is reported once, within MaxSats, and the counters agree",
"Across all files of a catalogue list a satellite number (the five characters as written) is considered once, its first usable entry that passes a name, number or designator request, however large the catalogue is; later entries with that number never add or change a result. A listing stops as soon as MaxSats satellites are reported and n_sats_found, n_sats and n_sunlit_sats equal the number of satellites reported and of those flagged sunlit. With -I the same counters are returned with no satellite list.",
["inputs","histories"],"all catalogues and lists with repeated entries in any position and any size, all limits",
T0+"catalogues longer than the duplicate buffer and duplicates across files are never exercised.",
["src/sat_skymap.c"],
[("duplicate buffer","src/sat_skymap.c: sbuff, use_bufflen, cur_bufflen"),("limit and counters","src/sat_skymap.c: n_sats_found, max_sats, n_sunlit_sats")],
[("seen set","satellite numbers met so far","src/sat_skymap.c: sbuff")],"stdout satellites[], n_sats_found, n_sats, n_sunlit_sats")
p("C04","Altitude and sunlight filters keep exactly the satellites they describe",
"Adding -a A,B to a sat_skymap region or name search keeps exactly those satellites whose geodetic altitude lies between the two bounds, given in either order, and adding -V keeps exactly those whose sunlit flag is 1. The filters change neither the order nor any field of the satellites they keep, and rejected satellites do not count toward MaxSats or the counters.",
["inputs","configurations"],"all catalogues, regions, altitude bounds, filter combinations",
T0+"a filter is right only if it is right for every satellite and every combination with the other options.",
["src/sat_skymap.c"],
[("altitude filter","src/sat_skymap.c: altrng_requested"),("sunlit filter","src/sat_skymap.c: sunlit_only")],None,"stdout satellites[] of filtered and unfiltered runs")
p("C05","Every run prints one well-formed JSON document with a truthful status",
"Whatever the arguments, names and file contents, and wherever a run fails (missing or empty file, missing list, undecodable elements, value out of range), sat_skymap and sat_visibility print exactly one well-formed JSON document, or the usage text for -h or a missing site. Every failure carries a nonzero status, a nonempty error text and, except for the no-argument case, a nonzero exit code; success has status 0 and exit code 0; satellites found before a failure stay listed in the document.",
["inputs","fault_sequences"],"all argument vectors and catalogues, every point of failure while files are opened and read",
T0+"the document is assembled piecewise across about 30 exit paths; tests would have to reach each of them after each prefix of output.",
["src/sat_skymap.c","src/sat_visibility.c"],
[("piecewise printing","src/sat_skymap.c: open_json..close_stat_json"),("piecewise printing","src/sat_visibility.c: open_json..close_stat_json")],
[("document position","which brackets are open when a path ends","implicit in control flow")],"stdout and exit code")
p("C06","Command-line options mean the same in any order and spelling and are echoed",
"sat_skymap and sat_visibility treat an option identically whether its value is attached or the next argument, in whatever order the options come and whether the catalogue is the first or the last argument. The values used (site, region, radius, epoch as MJD and as date, deltaT, MaxSats, documented defaults where omitted) are echoed in input_params, run_command repeats the command line, -D and -T select the catalogue directory for plain file names, and latitude, RA, Dec or option letters that are not valid are refused with status -1 or -2. Documented precedences apart (-s and -i set aside an earlier -a and, in sat_skymap, an earlier -p, a date given earlier makes -j ignored, and of -D and -T the later counts), order does not matter.",
["inputs","configurations"],"all permutations, spellings and subsets of the options with legal and illegal values",
T0+"the number of option orders and spellings is combinatorial and none is tested.",
["src/sat_skymap.c","src/sat_visibility.c","README.md","USAGE"],
[("option loop","src/sat_skymap.c main"),("option loop","src/sat_visibility.c main")],
[("Params","decoded options","src/sat_skymap_def.h, src/sat_visibility_def.h")],"stdout input_params, run_command, errmsg, exit code")
p("C07","Element sets are accepted and decoded exactly as the TLE format says",
"A pair of lines is used as orbital elements only if both carry their line numbers, contain legal characters, end after the checksum column and have right checksums; checksum errors on line 1, line 2 or both are told apart from lines that are not elements at all. For accepted lines every decoded value (catalogue number, designator, classification, epoch with its 1957-2056 century window, mean-motion derivatives, drag term with sign and exponent, the six orbital elements, revolution and set numbers) equals the value its columns denote.",
["inputs"],"all pairs of text lines",
T0+"TLE decoding is not tested and each column has its own sign, blank and exponent conventions.",
["src/get_el.c"],
[("column decoding","src/get_el.c: parse_elements"),("checksum","src/get_el.c: tle_checksum"),("scientific fields","src/get_el.c: sci, get_angle, get_eight_places")],None,"return code and decoded structure of the library's element parser; satellites reported by the tools")
p("C08","Catalogue numbers decode uniquely over the whole extended range",
"Five-character catalogue numbers decode to one integer each: plain digits to 0-99999, a letter (I and O unused) followed by four digits to 100000-339999, and the further letter positions to 340000-45435423 in the documented order, so that no two valid texts share a number and every number in the range is reached. Blanks count as zeros and texts with other characters decode to 0.",
["inputs"],"all 5-character texts",
T0+"catalogue-number decoding is untested; uniqueness is a statement about all 34^5 texts.",
["src/get_el.c"],[("number decoding","src/get_el.c: get_norad_number, base34_to_int")],None,"decoded catalogue number; norad_n in the tools' output")
p("C09","Dates and Modified Julian Dates convert consistently",
"For every Gregorian date from 1858 to 9999 the date-to-MJD conversion gives the right day and the time of day to 1e-5 day, and MJD-to-date prints the calendar date and time nearest (to the second, or truncated to the millisecond in the fractional form) with all fields in range, monotonically in MJD, so that an epoch given as date or as MJD is the same epoch. Text that is not a date is reported as an error and values outside the supported range give no date; mjdnow prints the MJD of the system clock.",
["inputs"],"all dates and MJD values in range, especially day, month, leap-year, century and rounding boundaries",
T0+"nothing tests the calendar code, and its errors sit at isolated boundaries.",
["src/date2mjd_nf.c","src/mjd2date.c","src/mjdnow.c"],
[("date to MJD","src/date2mjd_nf.c"),("MJD to date","src/mjd2date.c"),("clock","src/mjdnow.c")],None,"library results, mjdnow stdout, mjd and epoch_UTC of the tools")
p("C10","The visibility window starts, ends and peaks where the satellite's does",
"Stepping from the start of the requested range by deltaT, sat_visibility reports as start the first step at which the satellite is sunlit and within the radius of the zenith, as end the step at which that first stops being true or the range ends, as mid the middle of the two and as max the sunlit step of the window closest to the zenith; with no such step it reports no satellite. The reported duration is the time from the reported start to the reported end, and with -N steps taken while the Sun is up at the start of the range are skipped. With -a given after -s or -i the run fails at the first step scanned at which the satellite's altitude is outside the range, and only then.",
["inputs","histories"],"all element sets, sites, time ranges, steps, radii, with and without -N",
T0+"sat_visibility is never run by the tests; the window depends on the whole history of steps.",
["src/sat_visibility.c"],
[("time loop","src/sat_visibility.c main: sunlit_start_found, sunlit_end_found"),("closest approach","src/sat_visibility.c: min_ang_sep, t_min_ang_dist")],
[("window phase","before start / inside / ended","sunlit_start_found, sunlit_end_found")],"stdout satellite.sat_start/sat_end/sat_mid/sat_max, sunlit_duration_minutes")
p("C11","Each visibility record describes the satellite and Sun at its own instant",
"In sat_visibility output the date and MJD of each of the start, end, mid and max records are the same instant, and the satellite's right ascension, declination, azimuth, altitude, distance and zenith separation, its ground point and the Sun's position in that record are those of that instant as seen from the site. The altitude and the zenith separation of a record agree.",
["inputs"],"all runs that find a window",
T0+"records share mutable global state, so one can silently show values of another instant; no test looks.",
["src/sat_visibility.c"],
[("shared globals","src/sat_visibility_def.h: p, sat, sun, geo"),("record printing","src/sat_visibility.c: add_satdata_json")],
[("sat, sun, geo","values printed by the next record","src/sat_visibility_def.h")],"stdout sat_*, geoloc_*, sun_* objects")
p("C12","Propagated positions follow the SGP4/SDP4 models for every element set",
"For every element set the position and velocity at a given time since epoch equal those of the SGP4 (near-earth) and SDP4 (deep-space, including the synchronous and half-day resonances and lunisolar terms) models of Spacetrack Report 3 as documented in the library, to within rounding. The outcome code says when the orbit has decayed, is nearly parabolic, passes inside the Earth or does not converge.",
["inputs"],"all element sets in every model branch, all times before and after epoch",
T0+"no test propagates an orbit; the models have many branches (perigee, eccentricity, inclination, resonance) each on its own element range.",
["src/sgp4.c","src/sdp4.c","src/deep.c","src/common.c"],
[("SGP4","src/sgp4.c"),("SDP4","src/sdp4.c"),("deep-space terms","src/deep.c"),("Kepler solution and short-period terms","src/common.c: sxpx_posn_vel")],None,"library propagation results; positions reported by the tools")
p("C13","Model choice and propagation do not depend on the history of calls",
"The deep-space model is used exactly for element sets whose period is at least 225 minutes (or that are marked for it), the near-earth model for shorter ones, and invalid elements are reported as such. Propagating one initialised element set to a sequence of times, in any order and with any repetitions, gives at each time the position a fresh initialisation would give, except for the documented reuse of lunisolar terms within 30 minutes and restarted resonance integration, and different element sets never influence each other.",
["histories","inputs"],"all sequences of propagation calls, interleaved over several element sets",
T0+"the deep-space code caches integrator state between calls, so correctness is about sequences, not single calls.",
["src/basics.c","src/deep.c","src/sdp4.c"],
[("model choice","src/basics.c: select_ephemeris"),("integrator restart","src/deep.c: Deep_dpsec"),("perturbation reuse","src/deep.c: Deep_dpper"),("cached Moon and Sun","src/sdp4.c: cached_lunar_solar_position")],
[("atime, xni, xli","resonance integrator position","src/norad_in.h deep_arg_t"),("savtsn, pe..ph","lunisolar terms in use","src/norad_in.h deep_arg_t")],"library propagation results over call sequences")
p("C14","Reported position, distance, motion and sky pixel are those of the satellite",
"For every listed satellite sat_skymap reports its J2000 topocentric right ascension and declination at the two epochs, its distance, its separation from the search centre, the position angle and speed (arcminutes per second) of its motion between the epochs, and the HEALPix order-8 nested pixel containing its first position. They are mutually consistent and do not depend on which other satellites are in the catalogue.",
["inputs"],"all listed satellites of all runs",
T0+"the numbers reported to the user are never compared with anything.",
["src/sat_skymap.c","src/observe.c","src/skysep_h.c"],
[("topocentric position","src/observe.c"),("motion","src/sat_skymap.c: posn_ang_of_motion, speed"),("sky pixel","src/sat_skymap.c: ang2pix_nest")],None,"stdout satellites[].data")
p("C15","Ground point, altitude and sunlit flag match the satellite's position",
"The reported geodetic latitude, longitude and altitude are those of the point of the reference ellipsoid below the satellite at the epoch, with latitude in [-90,90], longitude in [-180,180] and theta = longitude + GMST (mod 360). A satellite is flagged not sunlit exactly when the straight line from it toward the Sun meets the spherical Earth.",
["inputs"],"all satellite positions and Sun directions, including poles, antimeridian and the shadow edge",
T0+"geodetic and shadow computations are never exercised by tests.",
["src/sat_skymap.c","src/sat_visibility.c"],
[("geodetic iteration","src/sat_skymap.c: sat_geoLocation"),("shadow test","src/sat_skymap.c: intersect_satsun_sphere")],None,"stdout geoloc and sunlit fields")
p("C16","Sidereal time, Sun, horizon coordinates and separations are right everywhere",
"For every date and site the reported sidereal times lie in [0,24) hours and equal the mean sidereal time of the IAU 1982 expression (the apparent ones of the library add the equation of the equinoxes of the IAU 1980 theory of nutation), the Sun's RA, Dec, ground longitude and separation equal those of the Almanac low-precision formula, and azimuth in [0,360), altitude in [-90,90] and parallactic angle are those of the given direction, at every latitude including the poles and at the zenith. Angular separation is symmetric, zero only for equal directions, and the same under rotation by full turns.",
["inputs"],"all dates before and after 2000, all sites and directions",
T0+"none of these functions is called by a test; errors hide at poles, zenith, wrap-around and early dates.",
["src/lmst_hr.c","src/dechalat2alt.c","src/lpsun_radec.c","src/skysep_h.c","src/observe.c","src/zenith_site_ra.c","src/earthtilt.c"],
[("sidereal time","src/lmst_hr.c; src/observe.c ThetaG"),("horizon coordinates","src/dechalat2alt.c"),("Sun","src/lpsun_radec.c"),("separation","src/skysep_h.c")],None,"library results; lmst, gmst, region and sun objects of the tools")
p("C17","HEALPix indices partition the sphere consistently in every scheme and width",
"At every supported resolution each direction belongs to exactly one pixel, the pixel returned contains the direction, pixel centres map back to their own pixel, and ring and nested numbering are bijections of 0..12*nside^2-1 that convert into each other exactly. Angle and vector, ring and nested, 32- and 64-bit functions agree, including on poles, cap boundaries, the equatorial belt edges and angles outside [0,2pi); nside and pixel-count conversions are inverse and reject counts that are not 12*nside^2.",
["inputs"],"all resolutions, pixels and directions",
T0+"they sample pixel centres and random round trips, not edges, corners, non-centre points, cross-width agreement or containment.",
["HealpixC/chealpix.c"],
[("index arithmetic","HealpixC/chealpix.c: xyf2nest, xyf2ring, ring2xyf"),("direction to pixel","HealpixC/chealpix.c: ang2pix_*_z_phi")],None,"library results")
p("C18","FITS sky maps read back exactly as written",
"A map written at any resolution, ordering and coordinate system and read back gives the same values bit for bit, the same resolution, ordering and coordinate system, and the size query agrees with the file. Values FITS treats as undefined (NaN, infinities) read back as the HEALPix null value -1.6375e30 and subnormal numbers and negative zero as zero; an existing file is never overwritten unless asked. A missing or non-map file is reported as such and never yields data.",
["inputs","fault_sequences"],"all resolutions, orderings, coordinate systems and pixel values; missing or damaged files",
"The existing test round-trips one 12-pixel map in one ordering.",
["HealpixC/chealpix.c"],[("map I/O","HealpixC/chealpix.c: write_healpix_map, read_healpix_map, get_fits_size")],None,"library results and files written")
p("C19","A failed download never damages the local TLE repository",
"Whatever each transfer does (success, HTTP error, connection failure, time-out or cut after any part of the body), the retrieval script leaves every previously good TLE file either complete and old or complete and new, installs every complete download under its documented name, and touches nothing outside the chosen directory, its log and temporary file. One failed transfer does not affect the files of the others. special.txt is always rebuilt from the files then present: the space observatories of science.txt, the station of stations.txt, CHEOPS and TESS of active.txt and the present day's Gaia, James Webb, Euclid and JUICE sets, however the directory was named on the command line. Without a destination directory the script fails and changes nothing.",
["fault_sequences"],"all outcomes of every transfer in any combination; missing destination directory",
T0+"the script is not tested and its faults are network failures at chosen points.",
["scripts/tle_retrieve.sh"],[("download and replace","scripts/tle_retrieve.sh: curl ... mv")],
[("repository files","content of each TLE file","destination directory")],"files in the destination directory and log after the run")
p("C20","The repository counts equal the distinct satellites in the files",
"The counting script reports for every present group file the number of element sets it holds, lists each catalogue number of the non-debris groups once, and publishes totals equal to the number of distinct non-debris satellites without and with the debris sets added. Missing or empty group files count as zero and results of an earlier run do not leak into the next.",
["inputs","histories"],"all repository contents, overlaps between groups, repeated runs",
T0+"the script is not tested; the totals depend on overlaps between files.",
["scripts/tle_satcount.sh"],[("counting","scripts/tle_satcount.sh")],None,"cur_norad_ids.lis, cur_tlesat_count.php and logs after the run")
p("C21","Any command line and catalogue end safely, the same way every time",
"For every argument vector and every catalogue content (overlong arguments, names, file names and lines, missing values, truncated or binary files, carriage returns, huge catalogues, degenerate orbits) sat_skymap and sat_visibility terminate, without crash, memory error or use of indeterminate data. The same arguments and files always give the same output, and no satellite whose position could not be computed is reported.",
["inputs","fault_sequences"],"all argument vectors and file contents",
T0+"hostile and degenerate inputs are never run.",
["src/sat_skymap.c","src/sat_visibility.c","src/get_el.c"],
[("fixed-size buffers","src/sat_skymap.c, src/sat_visibility.c: tle_path, tle_path_file, errmsg, sat_name, Params"),("propagation codes","SGP4/SDP4 return values")],None,"exit status, signals, sanitizer reports and stdout of repeated runs")
p("C22","High-orbit state-vector sets are integrated from the stored state",
"Element sets of type H decode to the six stored base-36 state-vector numbers; at their epoch the propagated position and velocity are exactly the stored ones, and away from it they follow Earth, Moon and Sun gravity by the documented integration in steps of at most one day, forwards and backwards, so that the tools report such spacecraft like any other satellite.",
["inputs","histories"],"all H-type sets, all times before and after epoch",
T0+"state-vector sets are shipped for four missions but never propagated by tests.",
["src/sdp4.c","src/get_el.c","src/basics.c"],
[("state decoding","src/get_el.c: get_high_value"),("integration","src/sdp4.c: high_ephemeris")],None,"library results; tool output on state-vector catalogues")
p("C23","The legacy SGP, SGP8 and SDP8 models follow their published definitions",
"For every element set the SGP, SGP8 and SDP8 propagators of the library return the position and velocity their Spacetrack Report 3 definitions give at the requested time, to within rounding, whether or not velocity is asked for, and repeated calls with one initialisation are independent of each other's order apart from the documented deep-space reuse.",
["inputs","histories"],"all element sets and times",
T0+"these exported propagators are not called by any test.",
["src/sgp.c","src/sgp8.c","src/sdp8.c"],[("models","src/sgp.c, src/sgp8.c, src/sdp8.c")],None,"library propagation results")
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import subprocess
