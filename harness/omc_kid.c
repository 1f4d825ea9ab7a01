// Stand-in compiler and container engine (by the name it is started under).
// Records what it was asked (KID_REC) and behaves as told by the environment.
// A container is simulated: the command runs under a shell with a made-up
// working directory, and paths are looked up through the mounts only.
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
static const char *env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }
static FILE *rec(void) { return fopen(env("KID_REC", "/dev/null"), "a"); }
static void hex(FILE *f, const char *s) { fputc(' ', f); if (!*s) fputc('-', f); for (; *s; ++s) fprintf(f, "%02x", (unsigned char)*s); }
static int ends(const char *s, const char *e) { size_t a = strlen(s), b = strlen(e); return a >= b && !strcmp(s + a - b, e); }
// lexical normal form of an absolute path
static void norm(const char *p, char *o) {
  char buf[8192]; snprintf(buf, sizeof buf, "%s", p); char *parts[512]; int n = 0;
  for (char *t = strtok(buf, "/"); t; t = strtok(0, "/")) { if (!strcmp(t, ".")) continue; if (!strcmp(t, "..")) { if (n) --n; continue; } parts[n++] = t; }
  *o = 0; for (int i = 0; i < n; ++i) { strcat(o, "/"); strcat(o, parts[i]); } if (!n) strcpy(o, "/");
}
// the caller's name of what the compiler calls p; empty when it cannot be seen
static void look(const char *p, char *o) {
  char a[8192], n[8192]; const char *m = getenv("KID_MOUNTS"); char cwd[4096];
  if (!m) { if (*p == '/') snprintf(a, sizeof a, "%s", p); else { if (!getcwd(cwd, sizeof cwd)) exit(99); snprintf(a, sizeof a, "%s/%s", cwd, p); } norm(a, o); return; }
  if (*p == '/') snprintf(a, sizeof a, "%s", p); else snprintf(a, sizeof a, "%s/%s", env("KID_WORK", "/"), p);
  norm(a, n); *o = 0;
  char mm[8192]; snprintf(mm, sizeof mm, "%s", m); size_t best = 0; char *save;
  for (char *t = strtok_r(mm, "\n", &save); t; t = strtok_r(0, "\n", &save)) {
    char *c = strchr(t, ':'); if (!c) continue; *c++ = 0; char *e = strchr(c, ':'); int ro = 0; if (e) { *e++ = 0; ro = strstr(e, "ro") != 0; }
    char d[8192]; norm(c, d); size_t k = strlen(d); if (!strcmp(d, "/")) k = 0;
    if (!strncmp(n, d, k) && (n[k] == '/' || !n[k]) && k >= best) {
      best = k; const char *pre = env("KID_PREFIX", ""); size_t pl = strlen(pre);
      char s[8192]; if (pl) { if (strncmp(t, pre, pl) || t[pl] != '/') { *o = 0; continue; } norm(t + pl, s); } else norm(t, s);
      snprintf(o, 8192, "%s%s", strcmp(s, "/") ? s : "", n + k); (void)ro;
    }
  }
}
static int compiler(int argc, char **argv) {
  FILE *f = rec(); fprintf(f, "cc %s", getenv("KID_MOUNTS") ? "c" : "n"); for (int i = 1; i < argc; ++i) hex(f, argv[i]); fprintf(f, "\n"); fclose(f);
  if (argc == 2 && !strcmp(argv[1], "--version")) return atoi(env("KID_VERSION", "0"));
  (void)!write(1, "OUT;", 4); (void)!write(2, "ERR;", 4);
  const char *o = "", *in = 0, *suf = ".so"; int nin = 0, mlir = 0;
  for (int i = 1; i < argc; ++i) {
    char *a = argv[i];
    if (!strcmp(a, "-o") && i + 1 < argc) o = argv[++i];
    else if (!strncmp(a, "-o=", 3)) o = a + 3;
    else if (!strncmp(a, "-Emit", 5) || !strncmp(a, "--Emit", 6)) { char *t = strstr(a, "Emit") + 4; mlir = 0; suf = !strcmp(t, "Lib") ? ".so" : !strcmp(t, "Obj") ? ".o" : !strcmp(t, "JNI") ? ".jar" : (mlir = 1, ".onnx.mlir"); }
    else if (*a != '-') { in = a; ++nin; }
  }
  if (nin != 1) return 1;
  char p[8192], base[8192], out[8300]; look(in, p);
  f = rec(); fprintf(f, "in"); hex(f, p); fprintf(f, "\n"); fclose(f);
  if (!*p || access(p, R_OK)) return 3;
  const char *d = env("KID_DO", "exit 0"); int code = atoi(strchr(d, ' ') + 1), sig = !strncmp(d, "sig", 3);
  if ((!code && !sig) || getenv("KID_PARTIAL")) {
    snprintf(base, sizeof base, "%s", *o ? o : in);
    if (!*o) { char *q = strrchr(base, '.'); if (q) *q = 0; }
    if (!getenv("KID_NOOUT")) {
      snprintf(out, sizeof out, "%s%s", base, suf); look(out, p); f = rec(); fprintf(f, "out"); hex(f, p); fprintf(f, "\n"); fclose(f);
      if (*p) { FILE *g = fopen(p, "w"); if (!g) return 4; fputs("x", g); fclose(g); }
    }
    if (getenv("KID_CONST") && !mlir) {
      snprintf(out, sizeof out, "%s.constants.bin", base); look(out, p);
      if (*p) { FILE *g = fopen(p, "w"); if (!g) return 4; fputs("x", g); fclose(g); f = rec(); fprintf(f, "out"); hex(f, p); fprintf(f, "\n"); fclose(f); }
    }
  }
  if (sig) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); signal(code, SIG_DFL); kill(getpid(), code); usleep(2000000); }
  return code;
}
// images present: lines "ENGINE IMAGE" of KID_IMAGES
static int have(const char *e, const char *im) {
  char l[512], w[512]; snprintf(w, sizeof w, "%s %s\n", e, im); FILE *f = fopen(env("KID_IMAGES", "/dev/null"), "r"); int r = 0;
  while (f && fgets(l, sizeof l, f)) r |= !strcmp(l, w); if (f) fclose(f); return r;
}
static int engine(const char *me, int argc, char **argv) {
  FILE *f = rec(); fprintf(f, "eng"); hex(f, me); for (int i = 1; i < argc; ++i) hex(f, argv[i]); fprintf(f, "\n"); fclose(f);
  if (argc < 2) return 1;
  char k[64]; snprintf(k, sizeof k, "KID_BAD_%s", me);
  if (getenv(k)) { if (!strcmp(getenv(k), "sig")) { signal(SIGTERM, SIG_DFL); kill(getpid(), SIGTERM); } return 1; }
  if (!strcmp(argv[1], "--version") || !strcmp(argv[1], "version") || !strcmp(argv[1], "info")) return 0;
  if (!strcmp(argv[1], "images")) { for (int i = 2; i < argc; ++i) if (have(me, argv[i])) printf("0123456789ab\n"); return 0; }
  if ((!strcmp(argv[1], "image") && argc > 3 && (!strcmp(argv[2], "inspect") || !strcmp(argv[2], "exists"))) || (!strcmp(argv[1], "inspect") && argc > 2)) return have(me, argv[argc - 1]) ? 0 : 1;
  if (!strcmp(argv[1], "pull")) {
    if (atoi(env("KID_PULL", "0"))) return atoi(env("KID_PULL", "0"));
    if (!have(me, argv[argc - 1])) { FILE *g = fopen(env("KID_IMAGES", "/dev/null"), "a"); fprintf(g, "%s %s\n", me, argv[argc - 1]); fclose(g); }
    return 0;
  }
  if (strcmp(argv[1], "run")) return 125;
  char mounts[16384] = ""; const char *ent = "", *work = "/workdir"; int i = 2;
  for (; i < argc && argv[i][0] == '-'; ++i) {
    if (!strcmp(argv[i], "-v") || !strcmp(argv[i], "--volume")) { strcat(mounts, argv[++i]); strcat(mounts, "\n"); }
    else if (!strcmp(argv[i], "-w") || !strcmp(argv[i], "--workdir")) work = argv[++i];
    else if (!strcmp(argv[i], "--entrypoint")) ent = argv[++i];
    else if (!strcmp(argv[i], "-u") || !strcmp(argv[i], "--user") || !strcmp(argv[i], "-e") || !strcmp(argv[i], "--env") || !strcmp(argv[i], "--name")) ++i;
  }
  if (i >= argc || !have(me, argv[i])) return 125;
  if (atoi(env("KID_RUN", "0")) > 0) return atoi(getenv("KID_RUN"));
  if (atoi(env("KID_RUN", "0")) < 0) { int s = -atoi(getenv("KID_RUN")); signal(s, SIG_DFL); kill(getpid(), s); usleep(2000000); }
  ++i; setenv("KID_MOUNTS", mounts, 1); setenv("KID_WORK", work, 1);
  const char *b = strrchr(ent, '/'); b = b ? b + 1 : ent;
  if ((!strcmp(b, "sh") || !strcmp(b, "bash")) && i + 1 < argc && !strcmp(argv[i], "-c")) {
    // the compilers of the images, under the names they have in there
    char *cmd = malloc(strlen(argv[i + 1]) + 8192);
    sprintf(cmd, "onnx-mlir() { '%s' \"$@\"; }\n/workdir/onnx-mlir/build/Debug/bin/onnx-mlir() { '%s' \"$@\"; }\n/opt/cc/bin/om() { '%s' \"$@\"; }\n%s", getenv("KID_SELF"), getenv("KID_SELF"), getenv("KID_SELF"), argv[i + 1]);
    execl("/bin/bash", "bash", "-c", cmd, argv[i + 2 < argc ? i + 2 : argc], (char *)0); return 127;
  }
  if (*ent) argv[--i] = (char *)ent;
  if (i >= argc) return 125;
  if (strcmp(argv[i], "onnx-mlir") && strcmp(argv[i], "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir") && strcmp(argv[i], "/opt/cc/bin/om")) return 127;
  return compiler(argc - i, argv + i);
}
int main(int argc, char **argv) {
  const char *b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
  if (!strcmp(b, "docker") || !strcmp(b, "podman")) return engine(b, argc, argv);
  return compiler(argc, argv);
}
