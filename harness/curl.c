/* Stand-in for curl(1): there is no network, every transfer goes as VPC_PLAN says, and the
   content of the directory VPC_DIR is written down (VPC_LOG) at its beginning, in its middle
   and at its end.
     plan: lines "kind name code exit bytes moved file"; code: of the server's answer; bytes:
     how many of the body (the file) get through, -1: all, -2: no answer; exit: 28 for a time-out
     (only with a time limit: without one the transfer hangs) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>

static char kind[64], name[128];

static void note(const char *what, const char *rest)
{
  static char buf[1 << 20];
  size_t n = (size_t) sprintf(buf, "%s %s %s %s\n", what, kind, name, rest);
  const char *dir = getenv("VPC_DIR");
  DIR *d = dir ? opendir(dir) : NULL;
  struct dirent *e;
  while (d && (e = readdir(d))) {
    char p[4096];
    struct stat st;
    unsigned long long h = 1469598103934665603ULL;
    int fd, c, i;
    unsigned char b[65536];
    snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    if (lstat(p, &st) || !S_ISREG(st.st_mode) || (fd = open(p, O_RDONLY)) < 0) continue;
    while ((c = (int) read(fd, b, sizeof b)) > 0) for (i = 0; i < c; i++) h = (h ^ b[i]) * 1099511628211ULL;
    close(fd);
    if (n + 400 < sizeof buf) n += (size_t) sprintf(buf + n, "F %016llx %s\n", h, e->d_name);
  }
  if (d) closedir(d);
  int fd = open(getenv("VPC_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0666);
  if (fd >= 0) { if (write(fd, buf, n) < 0) exit(99); close(fd); }
}

static void param(const char *url, const char *key, char *to)
{
  const char *p = url;
  while ((p = strstr(p, key))) {
    if (p > url && (p[-1] == '?' || p[-1] == '&')) {
      size_t k = strcspn(p + strlen(key), "&#");
      snprintf(to, 128, "%.*s", (int) k, p + strlen(key));
      return;
    }
    p++;
  }
}

int main(int argc, char **argv)
{
  const char *out = NULL, *fmt = NULL, *url = NULL;
  int follow = 0, fail = 0, limit = 0, i;
  for (i = 1; i < argc; i++) {
    char *a = argv[i];
    static const char *with[] = { "--output", "--write-out", "--max-time", "--connect-timeout", "--retry", "--retry-delay", "--retry-max-time", "--user-agent", "--header", "--url", "--speed-limit", "--speed-time", "--max-redirs", "--request", "--referer", "--output-dir", NULL };
    if (!strncmp(a, "--", 2)) {
      int k, w = 0;
      for (k = 0; with[k]; k++) w |= !strcmp(a, with[k]);
      const char *v = w && i + 1 < argc ? argv[++i] : "";
      if (!strcmp(a, "--output")) out = v;
      else if (!strcmp(a, "--write-out")) fmt = v;
      else if (!strcmp(a, "--max-time")) limit = atof(v) > 0;
      else if (!strcmp(a, "--url")) url = v;
      else if (!strcmp(a, "--location")) follow = 1;
      else if (!strcmp(a, "--fail")) fail = 1;
    } else if (a[0] == '-' && a[1]) {
      char *c;
      for (c = a + 1; *c; c++) {
        if (strchr("owmAHeXyYuxbcd", *c)) {
          const char *v = c[1] ? c + 1 : i + 1 < argc ? argv[++i] : "";
          if (*c == 'o') out = v;
          else if (*c == 'w') fmt = v;
          else if (*c == 'm') limit = atof(v) > 0;
          break;
        }
        if (*c == 'L') follow = 1;
        if (*c == 'f') fail = 1;
      }
    } else url = a;
  }
  if (!url) return 2;
  strcpy(kind, "none"); strcpy(name, "none");
  { char v[128] = ""; const char *k[] = { "GROUP", "SPECIAL", "FILE", NULL };
    for (i = 0; k[i]; i++) { char key[16]; sprintf(key, "%s=", k[i]); v[0] = 0; param(url, key, v); if (v[0] && !strpbrk(v, " \n")) { strcpy(kind, k[i]); strcpy(name, v); } } }

  int code = 404, rc = 0, moved = 0;
  long bytes = -1;
  char file[1024] = "", line[2048];
  FILE *p = fopen(getenv("VPC_PLAN"), "r");
  while (p && fgets(line, sizeof line, p)) {
    char k[64], n[128], f[1024];
    int c, x, m;
    long b;
    if (sscanf(line, "%63s %127s %d %d %ld %d %1023s", k, n, &c, &x, &b, &m, f) == 7 && !strcmp(k, kind) && !strcmp(n, name)) { code = c; rc = x; bytes = b; moved = m; strcpy(file, f); break; }
  }
  if (p) fclose(p);
  note("S", "");
  static char body[1 << 22];
  long len = 0;
  if (moved && !follow) { strcpy(body, "<html><head><title>301 Moved Permanently</title></head></html>\n"); len = (long) strlen(body); code = 301; rc = 0; bytes = -1; }
  else {
    FILE *f = file[0] ? fopen(file, "rb") : NULL;
    if (f) { len = (long) fread(body, 1, sizeof body, f); fclose(f); }
    else { strcpy(body, "not found\n"); len = (long) strlen(body); }
  }
  if (bytes >= 0 && bytes < len) len = bytes;
  if (fail && code >= 400) { rc = 22; bytes = -2; }
  if (bytes != -2) {
    int fd = out && strcmp(out, "-") ? open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666) : 1;
    if (fd < 0) { rc = 23; }
    else {
      if (write(fd, body, (size_t) (len / 2)) < 0) rc = 23;
      note("M", "");
      if (write(fd, body + len / 2, (size_t) (len - len / 2)) < 0) rc = 23;
      if (fd != 1) close(fd);
    }
  }
  if (rc == 28 && !limit) { note("H", ""); sleep(20); }
  if (fmt) {
    const char *s;
    for (s = fmt; *s; s++) {
      if (!strncmp(s, "%{http_code}", 12)) { printf("%03d", code); s += 11; }
      else if (!strncmp(s, "%{response_code}", 16)) { printf("%03d", code); s += 15; }
      else if (!strncmp(s, "%{exitcode}", 11)) { printf("%d", rc); s += 10; }
      else if (!strncmp(s, "%{size_download}", 16)) { printf("%ld", bytes == -2 ? 0 : len); s += 15; }
      else if (s[0] == '\\' && s[1] == 'n') { putchar('\n'); s++; }
      else putchar(*s);
    }
    fflush(stdout);
  }
  sprintf(line, "%d %d %ld", code, rc, bytes == -2 ? -2L : len);
  note("E", line);
  return rc;
}
