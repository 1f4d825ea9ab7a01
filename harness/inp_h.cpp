// Input lists made from signatures.
#include "hx.hpp"
#include <cmath>
#include "src/Runtime/OMTensorListHelper.hpp"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Support/SmallFPConversion.h"
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p);
typedef __int128 I;
static std::string limbs(I x) {
  I b = 100000000, off = 5;
  for (int i = 0; i < 3; ++i) off *= b;
  x += off;
  long l[4];
  for (int i = 3; i >= 0; --i) { l[i] = (long)(x % b); x /= b; }
  return "[" + std::to_string(l[0]) + "," + std::to_string(l[1]) + "," + std::to_string(l[2]) + "," + std::to_string(l[3]) + "]";
}
static int64_t count(OMTensor *t) { int64_t n = 1; for (int64_t i = 0; i < omTensorGetRank(t); ++i) n *= omTensorGetShape(t)[i]; return n; }
// element as fixed point, rounded down and up; one: is exactly 1, zero: exactly 0
struct El { I fl, ce; bool one, zero; };
static El num(I v) { return {v * 65536, v * 65536, v == 1, v == 0}; }
static El real(double v) { return {(I)floor(v * 65536.0), (I)ceil(v * 65536.0), v == 1.0, v == 0.0 && !std::signbit(v)}; }
static std::string tensor(OMTensor *t, unsigned long &dig) {
  auto ty = omTensorGetDataType(t);
  int64_t n = count(t), r = omTensorGetRank(t);
  const void *p = omTensorGetDataPtr(t);
  bool wf = true;
  int64_t es = ty == ONNX_TYPE_STRING ? 8 : getDataTypeSize(ty);
  size_t sz = __sanitizer_get_allocated_size(p);
  if ((int64_t)sz < n * es) wf = false;
  for (int64_t i = r - 1, s = 1; i >= 0; --i) { if (omTensorGetStrides(t)[i] != s) wf = false; s *= omTensorGetShape(t)[i]; }
  if (!omTensorGetOwning(t)) wf = false;
  std::vector<El> el;
  for (int64_t i = 0; wf && i < n; ++i) {
    switch (ty) {
    case ONNX_TYPE_BOOL: { unsigned b = ((uint8_t *)p)[i]; if (b > 1) wf = false; el.push_back(num(b)); } break;
    case ONNX_TYPE_INT8: el.push_back(num(((int8_t *)p)[i])); break;
    case ONNX_TYPE_UINT8: el.push_back(num(((uint8_t *)p)[i])); break;
    case ONNX_TYPE_INT16: el.push_back(num(((int16_t *)p)[i])); break;
    case ONNX_TYPE_UINT16: el.push_back(num(((uint16_t *)p)[i])); break;
    case ONNX_TYPE_INT32: el.push_back(num(((int32_t *)p)[i])); break;
    case ONNX_TYPE_UINT32: el.push_back(num(((uint32_t *)p)[i])); break;
    case ONNX_TYPE_INT64: el.push_back(num(((int64_t *)p)[i])); break;
    case ONNX_TYPE_UINT64: el.push_back(num(((uint64_t *)p)[i])); break;
    case ONNX_TYPE_FLOAT: el.push_back(real(((float *)p)[i])); break;
    case ONNX_TYPE_DOUBLE: el.push_back(real(((double *)p)[i])); break;
    case ONNX_TYPE_FLOAT16: el.push_back(real(om_f16_to_f32(((uint16_t *)p)[i]))); break;
    case ONNX_TYPE_STRING: {
      const char *s = ((const char **)p)[i];
      if (s < (const char *)p + n * 8 || s >= (const char *)p + sz) { wf = false; break; }
      size_t m = strnlen(s, (const char *)p + sz - s);
      if (s + m >= (const char *)p + sz) { wf = false; break; }
      long v = atol(s);
      if (std::to_string(v) != s) wf = false;
      el.push_back(num(v));
      for (const char *q = s; *q; ++q) dig = dig * 1099511628211ul + *q;
      dig = dig * 31 + 7;
    } break;
    default: wf = false;
    }
  }
  if (ty != ONNX_TYPE_STRING && wf) for (int64_t i = 0; i < n * es; ++i) dig = (dig ^ ((uint8_t *)p)[i]) * 1099511628211ul;
  I mn = 0, mx = 0;
  for (size_t i = 0; i < el.size(); ++i) { if (!i || el[i].fl < mn) mn = el[i].fl; if (!i || el[i].ce > mx) mx = el[i].ce; }
  std::vector<int64_t> rows;
  if (wf && r >= 1 && ty != ONNX_TYPE_STRING && n <= 4096) {
    int64_t in = omTensorGetShape(t)[r - 1];
    for (int64_t b = 0; in && b < n; b += in) {
      int64_t k = 0;
      while (k < in && el[b + k].one) ++k;
      bool z = true;
      for (int64_t j = k; j < in; ++j) z = z && el[b + j].zero;
      rows.push_back(z ? k : -1);
    }
  }
  std::vector<int64_t> dims(omTensorGetShape(t), omTensorGetShape(t) + r);
  return "{\"om\":" + std::to_string((int)ty) + ",\"dims\":" + hx::jarr(dims) + ",\"n\":" + std::to_string(n) + ",\"wf\":" + (wf ? "1" : "0") +
         ",\"min\":" + limbs(mn) + ",\"max\":" + limbs(mx) + ",\"rows\":" + hx::jarr(rows) + "}";
}
int main() {
  hx::installHeap();
  if (!freopen("/dev/null", "w", stderr)) return 2;
  fprintf(stderr, "-");
  printf("-\n");
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    if (w[0] == "seed") { unsigned s = strtoul(w[1].c_str(), 0, 10); hx::reply("{\"seed\":" + std::to_string(omDefineSeed(s, 1)) + "}"); return; }
    if (w[0] == "strs") {
      std::vector<std::string> v;
      for (size_t i = 1; i < w.size(); ++i) v.push_back(hx::unhex(w[i]));
      hx::heapReset();
      void *b;
      { hx::Track t; b = omTensorBuildStringBuffer(v); }
      const char *base = (const char *)b, *e = base + __sanitizer_get_allocated_size(b), *next = base + v.size() * 8;
      bool lay = true;
      std::string back = "[";
      for (size_t i = 0; lay && i < v.size(); ++i) {
        const char *s = ((const char **)b)[i];
        if (s != next || s >= e) { lay = false; break; }
        size_t m = strnlen(s, e - s);
        next = s + m + 1;
        if (next > e) { lay = false; break; }
        back += (i ? "," : "") + std::string("\"") + (m ? hx::hexs(s, m) : "-") + "\"";
      }
      free(b);
      hx::reply("{\"back\":" + back + "],\"layout\":" + (lay ? "1" : "0") + ",\"live\":" + std::to_string(hx::liveTracked) + "}");
      return;
    }
    std::string a[5]; const char *p[5];
    for (int i = 0; i < 5; ++i) { a[i] = w[i + 1] == "null" ? "" : hx::unhex(w[i + 1]); p[i] = w[i + 1] == "null" ? nullptr : a[i].c_str(); }
    hx::heapReset();
    OMTensorList *l;
    { hx::Track t; l = omTensorListCreateFromInputSignature(p[0], p[1], p[2], p[3], p[4], w[6] == "1"); }
    unsigned long dig = 14695981039346656037ul;
    std::string o = "[";
    if (l) for (int64_t i = 0; i < omTensorListGetSize(l); ++i) o += (i ? "," : "") + tensor(omTensorListGetOmtByIndex(l, i), dig);
    if (l) omTensorListDestroy(l);
    char d[32]; snprintf(d, 32, "%016lx", dig);
    hx::reply("{\"list\":" + std::string(l ? "1" : "0") + ",\"t\":" + o + "],\"dig\":\"" + d + "\",\"live\":" + std::to_string(hx::liveTracked) + "}");
  });
}
