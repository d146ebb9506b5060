/* Conformance driver for the FITS map functions.
   write PATH nside nest coord v0 v1 ... (values as 32-bit hexadecimal words; "*k word" repeats)
   read PATH            -> nside ordering coordsys and every value
   size PATH            -> npix nside ordering */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "chealpix.h"
static char line[1 << 26];
int main(void) {
  while (fgets(line, sizeof line, stdin)) {
    char *c = strtok(line, " \n");
    if (!c) continue;
    if (!strcmp(c, "write")) {
      char *path = strtok(NULL, " \n"); long ns = atol(strtok(NULL, " \n")); int nest = atoi(strtok(NULL, " \n")); char *co = strtok(NULL, " \n");
      long np = 12 * ns * ns; float *m = malloc(np * sizeof(float));
      for (long i = 0; i < np; i++) { char *t = strtok(NULL, " \n"); uint32_t w = t ? (uint32_t)strtoul(t, NULL, 16) : 0; memcpy(m + i, &w, 4); }
      write_healpix_map(m, ns, path, (char)nest, co);
      free(m); printf("0");
    } else if (!strcmp(c, "read")) {
      char *path = strtok(NULL, " \n"), co[32], od[32]; long ns = -7;
      memset(co, 0, sizeof co); memset(od, 0, sizeof od);
      float *m = read_healpix_map(path, &ns, co, od);
      if (!m) printf("null");
      else { printf("map %ld %s %s", ns, od, co); long np = 12 * ns * ns; for (long i = 0; i < np; i++) { uint32_t w; memcpy(&w, m + i, 4); printf(" %08x", w); } free(m); }
    } else if (!strcmp(c, "size")) {
      char *path = strtok(NULL, " \n"), od[32]; long ns = -7; memset(od, 0, sizeof od);
      long np = get_fits_size(path, &ns, od); printf("%ld %ld %s", np, ns, od[0] ? od : "-");
    } else return 3;
    putchar('\n'); fflush(stdout);
  }
  return 0;
}
