/* Allocation tracker behind -Wl,--wrap=malloc,free,calloc,realloc: every block
   gets red zones, freed blocks are poisoned and kept until reset. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAX 4096
#define RZ 64
static struct { char *p; size_t n; int live, named; } t[MAX];
static int nt, bad;
static int find(void *p) {
  for (int i = nt - 1; i >= 0; i--)
    if (t[i].p == (char *)p) return i;
  return -1;
}
void *__wrap_malloc(size_t n) {
  char *q = malloc(n + 2 * RZ);
  if (!q) return 0;
  memset(q, 0xA5, n + 2 * RZ);
  if (nt == MAX) { /* drop the oldest dead half */
    int k = 0;
    for (int i = 0; i < nt; i++)
      if (t[i].live) t[k++] = t[i];
      else free(t[i].p - RZ);
    nt = k;
    if (nt == MAX) { fprintf(stderr, "tracker full\n"); exit(3); }
  }
  t[nt].p = q + RZ; t[nt].n = n; t[nt].live = 1; t[nt].named = 0; nt++;
  return q + RZ;
}
static int intact(int i) {
  for (int k = 0; k < RZ; k++)
    if ((unsigned char)t[i].p[-1 - k] != 0xA5 || (unsigned char)t[i].p[t[i].n + k] != 0xA5) return 0;
  return 1;
}
void __wrap_free(void *p) {
  if (!p) return;
  int i = find(p);
  if (i < 0) {
    for (i = 0; i < nt; i++)
      if ((char *)p > t[i].p - RZ && (char *)p < t[i].p + t[i].n + RZ) { bad++; return; } /* inside of a block */
    free(p);
    return;
  }
  if (!t[i].live) { bad++; return; }
  if (!intact(i)) bad++;
  memset(t[i].p, 0xDD, t[i].n);
  t[i].live = 0;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  int i = p ? find(p) : -1;
  if (p && i < 0) return realloc(p, n);
  void *q = __wrap_malloc(n);
  if (q && p) { memcpy(q, p, t[i].n < n ? t[i].n : n); __wrap_free(p); }
  return q;
}
void trk_name(void *p) { int i = find(p); if (i >= 0) t[i].named = 1; }
int trk_named(void) { int c = 0; for (int i = 0; i < nt; i++) c += t[i].live && t[i].named; return c; }
int trk_anon(void) { int c = 0; for (int i = 0; i < nt; i++) c += t[i].live && !t[i].named; return c; }
int trk_bad(void) {
  int b = bad;
  for (int i = 0; i < nt; i++) if (t[i].live && !intact(i)) b++;
  return b;
}
/* a clean start; live blocks are given up */
void trk_reset(void) {
  for (int i = 0; i < nt; i++) if (!t[i].live) free(t[i].p - RZ);
  nt = bad = 0;
}
