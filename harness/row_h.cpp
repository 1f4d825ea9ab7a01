// Runtime sort / TopK / Unique on raw data.
#include "hx.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
extern "C" {
typedef int(compareFunctionType(const void *, const void *, void *));
compareFunctionType *getCompareFunction(uint64_t ascending, OM_DATA_TYPE dataType);
void quick_sort_custom(void *base, size_t n, size_t sz, compareFunctionType f, void *data);
void omTensorSort(OMTensor *, const OMTensor *, uint64_t, uint64_t);
void omTensorTopK(OMTensor *, const OMTensor *, uint64_t, uint64_t, uint64_t, uint64_t);
void omTensorUnique(OMTensor *, OMTensor *, OMTensor *, OMTensor *, OMTensor *, const OMTensor *, int64_t, uint64_t);
void omTensorUniqueCount(OMTensor *, const OMTensor *, int64_t, uint64_t);
}
struct Buf { // exact-size heap copy
  char *p; size_t n;
  Buf(const std::string &s) : p((char *)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
  Buf(size_t k, int c) : p((char *)malloc(k)), n(k) { memset(p, c, k); }
  ~Buf() { free(p); }
};
int main() {
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0];
    auto I = [&](int i) { return atoll(w[i].c_str()); };
    if (op == "RESET") { hx::reply("{}"); return; }
    int dt = I(1); auto sh = hx::ints(w[2]); std::string raw = hx::unhex(w[3]);
    Buf in(raw);
    OMTensor *x = omTensorCreate(in.p, sh.data(), sh.size(), (OM_DATA_TYPE)dt);
    int64_t tot = 1; for (auto d : sh) tot *= d;
    if (op == "sort" || op == "topk" || op == "qsortc") {
      int64_t n = sh.back(), rows = n ? tot / n : 0;
      Buf ob(8 * tot, 0); uint64_t *o = (uint64_t *)ob.p;
      for (int64_t i = 0; i < tot; ++i) o[i] = i % n;
      OMTensor *ord = omTensorCreate(o, sh.data(), sh.size(), ONNX_TYPE_INT64);
      int64_t k = n;
      if (op == "sort") omTensorSort(ord, x, sh.size() - 1, I(4));
      else if (op == "qsortc") {
        size_t es = raw.size() / (tot ? tot : 1);
        for (int64_t r = 0; r < rows; ++r) quick_sort_custom(o + r * n, n, 8, getCompareFunction(I(4), (OM_DATA_TYPE)dt), in.p + r * n * es);
      } else { k = I(5); omTensorTopK(ord, x, sh.size() - 1, I(4), k, I(6)); }
      std::string s = "{\"rows\":[";
      for (int64_t r = 0; r < rows; ++r) {
        s += r ? ",[" : "[";
        for (int64_t i = 0; i < k; ++i) { if (i) s += ","; s += std::to_string((long long)(o[r * n + i] > 1000000 ? 1000000 : o[r * n + i])); }
        s += "]";
      }
      s += "],\"same\":" + std::to_string(memcmp(in.p, raw.data(), raw.size()) == 0) + "}";
      omTensorDestroy(ord);
      hx::reply(s);
    } else if (op == "unique") { // axis sorted my mi mv mc
      int64_t axis = I(4), sorted = I(5); int m[4] = {(int)I(6), (int)I(7), (int)I(8), (int)I(9)};
      int64_t one = 1, total = -1, conly = -1; size_t es = tot ? raw.size() / tot : 8;
      OMTensor *T = omTensorCreate(&conly, nullptr, 0, ONNX_TYPE_INT64);
      omTensorUniqueCount(T, x, axis, sorted);
      omTensorDestroy(T);
      (void)one;
      int64_t c = conly, n = axis < 0 ? tot : sh[axis];
      if (c < 0 || c > n) { hx::reply("{\"total\":-1,\"countonly\":" + std::to_string(c) + "}"); return; }
      std::vector<int64_t> ysh = sh; int64_t yn = c;
      if (axis < 0) ysh = {c}; else { ysh[axis] = c; yn = 1; for (auto d : ysh) yn *= d; }
      Buf y(yn * es, 0xAB), ix(8 * c, 0xAB), iv(8 * n, 0xAB), ct(8 * c, 0xAB);
      OMTensor *Y = m[0] ? omTensorCreate(y.p, ysh.data(), ysh.size(), (OM_DATA_TYPE)dt) : nullptr;
      OMTensor *IX = m[1] ? omTensorCreate(ix.p, &c, 1, ONNX_TYPE_INT64) : nullptr;
      OMTensor *IV = m[2] ? omTensorCreate(iv.p, &n, 1, ONNX_TYPE_INT64) : nullptr;
      OMTensor *CT = m[3] ? omTensorCreate(ct.p, &c, 1, ONNX_TYPE_INT64) : nullptr;
      T = omTensorCreate(&total, nullptr, 0, ONNX_TYPE_INT64);
      omTensorUnique(T, Y, IX, IV, CT, x, axis, sorted);
      auto L = [&](Buf &b, int64_t k) { std::vector<int64_t> v; for (int64_t i = 0; i < k; ++i) { int64_t q = ((int64_t *)b.p)[i]; v.push_back(q > 1000000 || q < -1000000 ? -1000000 : q); } return hx::jarr(v); };
      std::string s = "{\"total\":" + std::to_string(total) + ",\"countonly\":" + std::to_string(conly);
      if (m[0]) s += ",\"yhex\":\"" + hx::hexs(y.p, yn * es) + "\"";
      if (m[1]) s += ",\"idx\":" + L(ix, c);
      if (m[2]) s += ",\"inv\":" + L(iv, n);
      if (m[3]) s += ",\"cnt\":" + L(ct, c);
      s += ",\"same\":" + std::to_string(memcmp(in.p, raw.data(), raw.size()) == 0) + "}";
      for (OMTensor *t : {Y, IX, IV, CT, T}) omTensorDestroy(t);
      hx::reply(s);
    } else { fprintf(stderr, "unknown op\n"); exit(3); }
    omTensorDestroy(x);
  });
}
