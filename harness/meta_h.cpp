// Drives one tensor through metadata, addressing and printing calls.
#include "hx.hpp"
#include <complex>
#include <unistd.h>
#include "onnx-mlir/Runtime/OMTensor.h"
#include "src/Support/SmallFPConversion.h"
#ifndef LIFE_C
#include "src/Runtime/OMTensorHelper.hpp"
#endif
#ifdef LIFE_C
extern "C" {
#endif
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#ifdef LIFE_C
}
#endif
static OMTensor *t;
static std::vector<char> mem;
static std::vector<std::string> strs;
static std::string capture(const std::function<void()> &f) {
  fflush(stdout);
  char name[] = "capXXXXXX"; int fd = mkstemp(name); unlink(name);
  int old = dup(1); dup2(fd, 1);
  f();
  fflush(stdout); dup2(old, 1); close(old);
  std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd);
  return s;
}
static std::string meta() {
  if (!t) return "{\"null\":1}";
  int64_t r = omTensorGetRank(t);
  std::vector<int64_t> sh(omTensorGetShape(t), omTensorGetShape(t) + r), st(omTensorGetStrides(t), omTensorGetStrides(t) + r);
  std::ostringstream o;
  o << "{\"null\":0,\"rank\":" << r << ",\"shape\":" << hx::jarr(sh) << ",\"strides\":" << hx::jarr(st) << ",\"dt\":" << (int)omTensorGetDataType(t)
    << ",\"size\":" << omTensorGetBufferSize(t) << ",\"own\":" << omTensorGetOwning(t) << ",\"hasdata\":" << (omTensorGetDataPtr(t) ? 1 : 0) << "}";
  return o.str();
}
static size_t esz(int dt) { static const int s[] = {0,4,1,1,2,2,4,8,8,1,2,8,4,8,8,16,2,1,1,1,1,1}; return s[dt]; }
// binary16 encoding of v/4, exact for |v| < 2048
static uint16_t half(int64_t v) {
  if (!v) return 0;
  uint16_t s = v < 0 ? 0x8000 : 0; uint64_t m = v < 0 ? -v : v; int e = 0;
  while (m < 1024) { m <<= 1; --e; }
  return s | (uint16_t)((e + 10 - 2 + 15) << 10) | (uint16_t)(m & 1023);
}
static void fill(int dt, const std::vector<int64_t> &v, char *p) {
  strs.clear(); strs.reserve(v.size() + 1);
  for (size_t i = 0; i < v.size(); ++i) {
    switch (dt) {
    case 9: ((uint8_t *)p)[i] = (uint8_t)(v[i] != 0); break;
    case 2: case 3: ((int8_t *)p)[i] = (int8_t)v[i]; break;
    case 4: case 5: ((int16_t *)p)[i] = (int16_t)v[i]; break;
    case 6: case 12: ((int32_t *)p)[i] = (int32_t)v[i]; break;
    case 7: case 13: ((int64_t *)p)[i] = v[i]; break;
    case 1: ((float *)p)[i] = v[i] / 4.0f; break;
    case 11: ((double *)p)[i] = v[i] / 4.0; break;
    case 10: { uint16_t h = half(v[i]); memcpy(p + 2 * i, &h, 2); } break;
    case 8: strs.push_back("s" + std::to_string(v[i])); ((const char **)p)[i] = strs.back().c_str(); break;
    }
  }
}
#ifndef LIFE_C
template <class T> static OMTensor *mk(const std::vector<int64_t> &s) { return omTensorCreateWithShape<T>(s); }
static OMTensor *typed(int dt, const std::vector<int64_t> &s) {
  switch (dt) {
  case 9: return mk<bool>(s); case 3: return mk<int8_t>(s); case 2: return mk<uint8_t>(s); case 5: return mk<int16_t>(s);
  case 4: return mk<uint16_t>(s); case 6: return mk<int32_t>(s); case 12: return mk<uint32_t>(s); case 7: return mk<int64_t>(s);
  case 13: return mk<uint64_t>(s); case 1: return mk<float>(s); case 11: return mk<double>(s);
  }
  return nullptr;
}
template <class T> static int closeT(const std::vector<int64_t> &sa, const std::vector<int64_t> &sb, int dt, const std::vector<int64_t> &a, const std::vector<int64_t> &b, float rt, float at) {
  OMTensor *x = omTensorCreateWithShape<T>(sa), *y = omTensorCreateWithShape<T>(sb);
  fill(dt, a, (char *)omTensorGetDataPtr(x)); fill(dt, b, (char *)omTensorGetDataPtr(y));
  int r = omTensorAreTwoOmtsClose<T>(x, y, rt, at);
  omTensorDestroy(x); omTensorDestroy(y);
  return r;
}
template <class T> static std::string elemT(const std::vector<int64_t> &ix, int64_t off, bool byoff) {
  T &e = omTensorGetElem<T>(t, ix);
  std::ostringstream o;
  o << "{\"off\":" << (int64_t)((&e - (T *)omTensorGetDataPtr(t))) << ",\"coff\":" << omTensorComputeElemOffset(t, ix);
  o << "}";
  (void)off; (void)byoff;
  return o.str();
}
#endif
int main(int argc, char **argv) {
  hx::replyFile = fdopen(dup(1), "w");
  std::cerr.setstate(std::ios::failbit);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0];
    if (op == "RESET") { if (t) omTensorDestroy(t); t = 0; hx::reply("{}"); return; }
    if (op == "create") { // how dtype shape
      auto sh = hx::ints(w[3]); int dt = atoi(w[2].c_str());
      if (t) omTensorDestroy(t);
      t = 0;
      // exact-size shape array, released at once: the tensor must copy it
      int64_t *a = (int64_t *)malloc(sh.size() * 8); memcpy(a, sh.data(), sh.size() * 8);
      mem.assign(1 << 16, 0);
      if (w[1] == "c") t = omTensorCreate(mem.data(), a, sh.size(), (OM_DATA_TYPE)dt);
      else if (w[1] == "own0") t = omTensorCreateWithOwnership(mem.data(), a, sh.size(), (OM_DATA_TYPE)dt, 0);
      else if (w[1] == "empty") t = omTensorCreateEmpty(a, sh.size(), (OM_DATA_TYPE)dt);
#ifndef LIFE_C
      else if (w[1] == "typed") t = typed(dt, sh);
#endif
      else { fprintf(stderr, "bad how\n"); exit(3); }
      free(a);
      if (t && (w[1] == "empty" || w[1] == "typed")) { // the buffer must be at least as large as reported
        int64_t n = 1; for (auto d : sh) n *= d;
        memset(omTensorGetDataPtr(t), 7, n * esz(dt));
        omTensorSetDataPtr(t, 0, mem.data(), mem.data());
      }
      hx::reply(meta());
    } else if (op == "setshape") { auto s = hx::ints(w[1]); omTensorSetShape(t, s.data()); hx::reply(meta()); }
    else if (op == "setstrides") { auto s = hx::ints(w[1]); omTensorSetStrides(t, s.data()); hx::reply(meta()); }
    else if (op == "setpy") { auto s = hx::ints(w[1]); omTensorSetStridesWithPyArrayStrides(t, s.data()); hx::reply(meta()); }
    else if (op == "setdt") { omTensorSetDataType(t, (OM_DATA_TYPE)atoi(w[1].c_str())); hx::reply(meta()); }
    else if (op == "meta") hx::reply(meta());
    else if (op == "numelems") hx::reply("{\"n\":" + std::to_string(omTensorGetNumElems(t)) + "}");
    else if (op == "fill") { fill(omTensorGetDataType(t), hx::ints(w[1]), (char *)omTensorGetDataPtr(t)); hx::reply("{}"); }
    else if (op == "print") { // hex message
      std::string m = hx::unhex(w[1]);
      std::string out = capture([&] { omTensorPrint(m.c_str(), t); });
      hx::reply("{\"out\":" + hx::jstr(out) + "}");
    }
#ifndef LIFE_C
    else if (op == "elem") { // multi-index; offset computed twice
      auto ix = hx::ints(w[1]);
      switch (omTensorGetDataType(t)) {
      case 9: hx::reply(elemT<bool>(ix, 0, false)); break;
      case 6: hx::reply(elemT<int32_t>(ix, 0, false)); break;
      case 7: hx::reply(elemT<int64_t>(ix, 0, false)); break;
      case 1: hx::reply(elemT<float>(ix, 0, false)); break;
      case 11: hx::reply(elemT<double>(ix, 0, false)); break;
      default: { int64_t o = omTensorComputeElemOffset(t, ix); hx::reply("{\"off\":" + std::to_string(o) + ",\"coff\":" + std::to_string(o) + "}"); }
      }
    } else if (op == "byoff") {
      int64_t o = atoll(w[1].c_str()); int64_t g = -1;
      char *p = (char *)omTensorGetDataPtr(t);
      switch (omTensorGetDataType(t)) {
      case 6: g = &omTensorGetElemByOffset<int32_t>(t, o) - (int32_t *)p; break;
      case 7: g = &omTensorGetElemByOffset<int64_t>(t, o) - (int64_t *)p; break;
      case 1: g = &omTensorGetElemByOffset<float>(t, o) - (float *)p; break;
      case 11: g = &omTensorGetElemByOffset<double>(t, o) - (double *)p; break;
      default: g = o;
      }
      hx::reply("{\"off\":" + std::to_string(g) + "}");
    } else if (op == "indexset") {
      auto s = omTensorComputeIndexSet(t);
      std::string o = "{\"set\":["; bool f = true;
      for (auto &v : s) { if (!f) o += ","; f = false; o += hx::jarr(v); }
      hx::reply(o + "]}");
    } else if (op == "cstrides") hx::reply("{\"strides\":" + hx::jarr(omTensorComputeStridesFromShape(t)) + "}");
    else if (op == "close") { // dt sa sb a b rt at (quarters)
      int dt = atoi(w[1].c_str()); auto sa = hx::ints(w[2]), sb = hx::ints(w[3]), a = hx::ints(w[4]), b = hx::ints(w[5]);
      float rt = atoi(w[6].c_str()) / 4.0f, at = atoi(w[7].c_str()) / 4.0f; int r = -1;
      switch (dt) {
      case 6: r = closeT<int32_t>(sa, sb, dt, a, b, rt, at); break;
      case 7: r = closeT<int64_t>(sa, sb, dt, a, b, rt, at); break;
      case 1: r = closeT<float>(sa, sb, dt, a, b, rt, at); break;
      case 11: r = closeT<double>(sa, sb, dt, a, b, rt, at); break;
      }
      hx::reply("{\"close\":" + std::to_string(r) + "}");
    }
#endif
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
  });
}
