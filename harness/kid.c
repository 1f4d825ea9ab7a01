// Stand-in program: records arguments and directory, writes to both streams,
// ends as told.  KID_OUT record file, KID_DO "exit N" | "sig N", KID_MS delay,
// KID_TOUCH colon-separated files to create.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
int main(int argc, char **argv) {
  char cwd[4096]; const char *o = getenv("KID_OUT"), *d = getenv("KID_DO"), *ms = getenv("KID_MS"), *t = getenv("KID_TOUCH");
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (o) {
    FILE *f = fopen(o, "a");
    fprintf(f, "run");
    for (int i = 0; i < argc; ++i) { fprintf(f, " "); if (!*argv[i]) fprintf(f, "-"); for (char *p = argv[i]; *p; ++p) fprintf(f, "%02x", (unsigned char)*p); }
    fprintf(f, " @ "); if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?"); for (char *p = cwd; *p; ++p) fprintf(f, "%02x", (unsigned char)*p);
    fprintf(f, "\n"); fclose(f);
  }
  (void)!write(1, "OUT;", 4); (void)!write(2, "ERR;", 4); (void)!write(1, "END\n", 4);
  if (ms) usleep(1000 * atoi(ms));
  if (t) { char *c = strdup(t); for (char *p = strtok(c, ":"); p; p = strtok(0, ":")) { FILE *f = fopen(p, "w"); if (f) { fputs("x", f); fclose(f); } } }
  if (d && !strncmp(d, "sig ", 4)) { signal(atoi(d + 4), SIG_DFL); kill(getpid(), atoi(d + 4)); usleep(2000000); }
  return d ? atoi(d + 5) : 0;
}
