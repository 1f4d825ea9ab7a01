// An allocator that puts every block between two inaccessible pages, for code
// that was not compiled with a sanitizer (models).  While guard::on, blocks end
// (guard::left: begin) at the page, are filled with ones, and become
// inaccessible when freed; freeing anything else, or twice, stops the process.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace guard {
static const size_t kPage = 4096, kPages = 1 << 20;
static bool on = false, left = false;
static char *area = nullptr;
static size_t next = 1;
static void **blockOf = nullptr; // start of the block living on this page
static size_t *sizeOf = nullptr;
static long live = 0;

inline void *reserve(size_t n, int prot) {
  void *p = mmap(nullptr, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? nullptr : p;
}
inline void init() {
  area = (char *)reserve(kPages * kPage, PROT_NONE);
  blockOf = (void **)reserve(kPages * sizeof(void *), PROT_READ | PROT_WRITE);
  sizeOf = (size_t *)reserve(kPages * sizeof(size_t), PROT_READ | PROT_WRITE);
  if (!area || !blockOf || !sizeOf)
    abort();
}
inline void say(const char *m) {
  ssize_t r = write(2, m, strlen(m));
  (void)r;
}
inline bool mine(const void *p) {
  return area && (const char *)p >= area && (const char *)p < area + kPages * kPage;
}
inline void *get(size_t n, size_t align) {
  if (!n)
    n = 1;
  if (align < 16)
    align = 16;
  size_t pages = (n + (align > kPage ? align : 0) + kPage - 1) / kPage;
  if (!pages)
    pages = 1;
  if (next + pages + 1 >= kPages) {
    errno = ENOMEM;
    return nullptr;
  }
  char *base = area + next * kPage;
  size_t first = next;
  next += pages + 1;
  if (mprotect(base, pages * kPage, PROT_READ | PROT_WRITE))
    return nullptr;
  memset(base, 0xFF, pages * kPage);
  uintptr_t a = left ? ((uintptr_t)base + align - 1) / align * align
                     : ((uintptr_t)base + pages * kPage - n) / align * align;
  size_t idx = (a - (uintptr_t)area) / kPage;
  for (size_t i = first; i < first + pages; i++)
    blockOf[i] = (void *)a;
  (void)idx;
  sizeOf[first] = n;
  live++;
  return (void *)a;
}
inline void put(void *p) {
  size_t i = ((char *)p - area) / kPage;
  if (blockOf[i] != p) {
    say("ERROR: free of something that was not allocated, or twice\n");
    abort();
  }
  while (i > 0 && blockOf[i - 1] == p)
    i--;
  size_t k = i;
  while (blockOf[k] == p)
    blockOf[k++] = nullptr;
  mprotect(area + i * kPage, (k - i) * kPage, PROT_NONE);
  live--;
}
inline size_t size(void *p) {
  size_t i = ((char *)p - area) / kPage;
  while (i > 0 && blockOf[i - 1] == p)
    i--;
  return sizeOf[i];
}
} // namespace guard

extern "C" {
void *malloc(size_t n) { return guard::on ? guard::get(n, 16) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
  if (!guard::on)
    return __libc_calloc(a, b);
  void *p = guard::get(a * b, 16);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void *memalign(size_t al, size_t n) { return guard::on ? guard::get(n, al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) {
  *p = memalign(al, n);
  return *p ? 0 : ENOMEM;
}
void free(void *p) {
  if (!p)
    return;
  if (guard::mine(p))
    guard::put(p);
  else
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (!p)
    return malloc(n);
  if (!guard::mine(p) && !guard::on)
    return __libc_realloc(p, n);
  void *q = malloc(n);
  if (q) {
    size_t old = guard::mine(p) ? guard::size(p) : n;
    memcpy(q, p, old < n ? old : n);
    free(p);
  }
  return q;
}
}
