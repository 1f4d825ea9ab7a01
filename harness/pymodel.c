/* Stand-in for a compiled model: notes what it is given and returns what it
   was told to. */
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "OnnxMlirRuntime.h"
void trk_name(void *);
enum { ECHO, ALIGNED, CONST, ALIAS, DUP, OFF, VAL, STR, FP8, BF16, NULLT, BEHIND, VALAL };
static int nout, kind[16], arg[16], fail;
static char seen[1 << 20];
static size_t nseen, cseen = sizeof seen;
static char sig[4096];
static void say(const char *f, ...) {
  va_list a;
  va_start(a, f);
  nseen += vsnprintf(seen + nseen, cseen - nseen, f, a);
  va_end(a);
  if (nseen + 4096 > cseen) { fprintf(stderr, "record full\n"); exit(3); }
}
void ctl(int n, const int *k, const int *a, int f) { nout = n; fail = f; memcpy(kind, k, n * sizeof(int)); memcpy(arg, a, n * sizeof(int)); nseen = 0; *seen = 0; }
const char *ctl_seen(void) { return seen; }
void ctl_sig(const char *s) { strcpy(sig, s); }
static int64_t numel(OMTensor *t) { int64_t n = 1; for (int64_t i = 0; i < omTensorGetRank(t); i++) n *= omTensorGetShape(t)[i]; return n; }
static const char *elem(OMTensor *t, int64_t i) {
  int64_t off = 0;
  for (int64_t d = omTensorGetRank(t) - 1; d >= 0; d--) { off += i % omTensorGetShape(t)[d] * omTensorGetStrides(t)[d]; i /= omTensorGetShape(t)[d]; }
  return (const char *)omTensorGetDataPtr(t) + off * getDataTypeSize(omTensorGetDataType(t));
}
static void note(OMTensor *t) {
  size_t sz = getDataTypeSize(omTensorGetDataType(t));
  say("{\"dt\":%d,\"shape\":[", (int)omTensorGetDataType(t));
  for (int64_t i = 0; i < omTensorGetRank(t); i++) say("%s%ld", i ? "," : "", (long)omTensorGetShape(t)[i]);
  say("],\"raw\":[");
  for (int64_t i = 0, n = numel(t); i < n; i++) {
    const char *e = elem(t, i);
    size_t len = sz;
    if (omTensorGetDataType(t) == ONNX_TYPE_STRING) { memcpy(&e, e, sizeof e); len = strlen(e); }
    say("%s\"", i ? "," : "");
    for (size_t k = 0; k < len; k++) say("%02x", (unsigned char)e[k]);
    say("\"");
  }
  say("]}");
}
static OMTensor *echo(OMTensor *t, int al) {
  int64_t n = numel(t);
  size_t sz = getDataTypeSize(omTensorGetDataType(t)), tot = n * sz;
  OM_DATA_TYPE dt = omTensorGetDataType(t);
  if (dt == ONNX_TYPE_STRING) for (int64_t i = 0; i < n; i++) { char *e; memcpy(&e, elem(t, i), sizeof e); tot += strlen(e) + 1; }
  char *b = malloc(tot + 128), *d = b + (al ? 48 : 0), *s = d + n * sz;
  trk_name(b);
  for (int64_t i = 0; i < n; i++)
    if (dt == ONNX_TYPE_STRING) { char *e; memcpy(&e, elem(t, i), sizeof e); memcpy(d + i * sz, &s, sizeof s); strcpy(s, e); s += strlen(e) + 1; }
    else memcpy(d + i * sz, elem(t, i), sz);
  OMTensor *o = omTensorCreateWithOwnership(b, omTensorGetShape(t), omTensorGetRank(t), dt, 0);
  omTensorSetDataPtr(o, 1, b, d);
  return o;
}
static int64_t cst[16][3];
static char stat[64];
OMTensorList *run_main_graph(OMTensorList *in) {
  OMTensor *o[16];
  int64_t three[1] = {3}, two[1] = {2};
  say("[");
  for (int64_t i = 0; i < omTensorListGetSize(in); i++) { if (i) say(","); note(omTensorListGetOmtByIndex(in, i)); }
  say("]");
  if (fail == 1) { errno = ENOMEM; return NULL; }
  if (fail == 2) raise(SIGSEGV);
  if (fail == 3) abort();
  for (int k = 0; k < nout; k++) {
    OMTensor *x = NULL;
    switch (kind[k]) {
    case ECHO: case ALIGNED: x = echo(omTensorListGetOmtByIndex(in, arg[k]), kind[k] == ALIGNED); break;
    case CONST: for (int i = 0; i < 3; i++) cst[k][i] = arg[k] + 1000 * i; x = omTensorCreateWithOwnership(cst[k], three, 1, ONNX_TYPE_INT64, 0); break;
    case ALIAS: { OMTensor *t = omTensorListGetOmtByIndex(in, arg[k]); x = omTensorCreateWithOwnership(omTensorGetDataPtr(t), omTensorGetShape(t), omTensorGetRank(t), omTensorGetDataType(t), 0); break; }
    case DUP: case OFF: {
      OMTensor *t = o[arg[k]];
      int w = kind[k] == OFF;
      x = omTensorCreateWithOwnership(omTensorGetDataPtr(t), w ? two : omTensorGetShape(t), w ? 1 : omTensorGetRank(t), omTensorGetDataType(t), 0);
      omTensorSetDataPtr(x, 1, omTensorGetAllocatedPtr(t), (char *)omTensorGetDataPtr(t) + (w ? 8 : 0));
      break;
    }
    case VAL: case VALAL: {
      char *b = malloc(24 + 64);
      int64_t *d = (int64_t *)(b + (kind[k] == VALAL ? 40 : 0));
      trk_name(b);
      for (int i = 0; i < 3; i++) d[i] = arg[k] + 1000 * i;
      x = omTensorCreateWithOwnership(b, three, 1, ONNX_TYPE_INT64, 0);
      omTensorSetDataPtr(x, 1, b, d);
      break;
    }
    case STR: {
      char *b = malloc(3 * 8 + 64), *s = b + 24;
      trk_name(b);
      for (int i = 0; i < 3; i++) { memcpy(b + 8 * i, &s, 8); s += sprintf(s, "%d", arg[k] + 1000 * i) + 1; }
      x = omTensorCreateWithOwnership(b, three, 1, ONNX_TYPE_STRING, 1);
      break;
    }
    case FP8: case BF16: { char *b = malloc(8); trk_name(b); x = omTensorCreateWithOwnership(b, three, 1, kind[k] == FP8 ? ONNX_TYPE_FLOAT8E5M2 : ONNX_TYPE_BFLOAT16, 1); break; }
    case NULLT: x = NULL; break;
    case BEHIND: x = omTensorCreateWithOwnership(stat, three, 1, ONNX_TYPE_INT64, 0); omTensorSetDataPtr(x, 0, stat + 32, stat); break;
    }
    o[k] = x;
  }
  return omTensorListCreate(o, nout);
}
static const char *const entries[] = {"run_main_graph", NULL};
const char *const *omQueryEntryPoints(int64_t *n) { if (n) *n = 1; return entries; }
const char *omInputSignature(const char *e) { return sig; }
const char *omOutputSignature(const char *e) { return "[]"; }
