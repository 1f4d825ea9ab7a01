// Shared by the harnesses: line protocol, heap observation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <cstddef>
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" int __asan_address_is_poisoned(void const volatile *addr);

namespace hx {
// ---- heap: allocations made while `track` is on, and frees of any pointer
static const int N = 1 << 16;
static const void *tab[N];
static bool track = false;
static long liveTracked = 0;
static const void *watch[64];
static int freed[64];
static int nwatch = 0;
inline unsigned hs(const void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % N; }
static const void *TOMB = (const void *)1;
inline void onMalloc(const volatile void *p, size_t) {
  if (!track || !p) return;
  unsigned i = hs((const void *)p);
  while (tab[i] && tab[i] != TOMB) i = (i + 1) % N;
  tab[i] = (const void *)p;
  ++liveTracked;
}
inline void onFree(const volatile void *p) {
  if (!p) return;
  for (int k = 0; k < nwatch; ++k)
    if (watch[k] == (const void *)p) freed[k]++;
  unsigned i = hs((const void *)p);
  while (tab[i]) {
    if (tab[i] == (const void *)p) { tab[i] = TOMB; --liveTracked; return; }
    i = (i + 1) % N;
  }
}
inline void installHeap() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }
inline void heapReset() { memset(tab, 0, sizeof tab); liveTracked = 0; }
struct Track { Track() { track = true; } ~Track() { track = false; } };

// ---- words of a command line
inline std::vector<std::string> words(const std::string &l) {
  std::istringstream is(l); std::vector<std::string> v; std::string w;
  while (is >> w) v.push_back(w);
  return v;
}
inline std::vector<int64_t> ints(const std::string &s) { // "1,2,3" or "-"
  std::vector<int64_t> v;
  if (s == "-" || s.empty()) return v;
  std::istringstream is(s); std::string w;
  while (std::getline(is, w, ',')) v.push_back(strtoll(w.c_str(), 0, 10));
  return v;
}
inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
template <class T> std::string jarr(const T &v) {
  std::string o = "["; bool f = true;
  for (auto x : v) { if (!f) o += ","; f = false; o += std::to_string(x); }
  return o + "]";
}
inline std::string unhex(const std::string &h) {
  if (h == "-") return "";
  std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  return o;
}
static FILE *replyFile = nullptr;
inline void reply(const std::string &j) {
  FILE *f = replyFile ? replyFile : stdout;
  fputc('@', f); fputs(j.c_str(), f); fputc('\n', f); fflush(f);
}
inline void loop(const std::function<void(const std::vector<std::string> &, const std::string &)> &f) {
  std::string l;
  while (std::getline(std::cin, l)) { if (l.empty()) continue; f(words(l), l); }
}
// hex of a 64-bit word etc.
inline std::string hexs(const void *p, size_t n) {
  std::string o; char b[4];
  for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]); o += b; }
  return o;
}
} // namespace hx
