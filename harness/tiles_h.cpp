// The zdnnx runtime (tensors in tiles) over a stand-in accelerator that does
// integer arithmetic on the 16-bit cells. The stand-in refuses what exceeds the
// accelerator's dimensions, and knows no tiles.
#include "hx.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <sys/mman.h>
#define VERIF_ZDNN_FUNCTIONS
#include "zdnn.h"
extern "C" {
#include "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h"
#include "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops.h"
}
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
// live allocations of a page or more
#include <atomic>
static std::atomic<long> live{0};
static void onM(const volatile void *, size_t n) { if (n >= 8192) ++live; }
static void onF(const volatile void *p) { if (p && __sanitizer_get_allocated_size(p) >= 8192) --live; }
static const std::map<std::string, zdnn_data_layouts> LAY = {{"1D", ZDNN_1D}, {"2D", ZDNN_2D}, {"2DS", ZDNN_2DS}, {"3D", ZDNN_3D},
    {"3DS", ZDNN_3DS}, {"4D", ZDNN_4D}, {"NHWC", ZDNN_NHWC}, {"NCHW", ZDNN_NCHW}};
static uint32_t lim[4]; static uint64_t limSize; static std::mutex mu; static int calls, over;
static int envi(const char *n, int d) { const char *s = getenv(n); return s ? atoi(s) : d; }
using D4 = std::array<uint32_t, 4>;
static D4 dims(ZIN t) { auto *d = t->transformed_desc; return {d->dim4, d->dim3, d->dim2, d->dim1}; }
static uint32_t up(uint32_t a, uint32_t b) { return (a + b - 1) / b; }
static size_t at(const D4 &q, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
  return (((((size_t)a * up(q[3], 64) + d / 64) * q[1] + b) * up(q[2], 32) + c / 32) * 32 + c % 32) * 64 + d % 64;
}
static uint16_t &cell(ZIN t, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { return ((uint16_t *)t->buffer)[at(dims(t), a, b, c, d)]; }
static bool fits(ZIN t) {
  D4 q = dims(t); bool ok = t->is_transformed && t->buffer && ((uintptr_t)t->buffer & 4095) == 0;
  for (int i = 0; i < 4; ++i) ok = ok && q[i] && q[i] <= lim[i];
  ok = ok && zdnn_getsize_ztensor(t->transformed_desc) <= t->buffer_size;
  std::lock_guard<std::mutex> g(mu); ++calls; if (!ok) ++over;
  return ok;
}
template <class F> static void each(const D4 &q, F f) {
  for (uint32_t a = 0; a < q[0]; ++a) for (uint32_t b = 0; b < q[1]; ++b) for (uint32_t c = 0; c < q[2]; ++c) for (uint32_t d = 0; d < q[3]; ++d) f(a, b, c, d);
}
template <class F> static zdnn_status un(ZIN x, zdnn_ztensor *y, F f) {
  if (!fits(x) || !fits(y)) return ZDNN_EXCEEDS_MDIS;
  if (dims(x) != dims(y)) return ZDNN_INVALID_SHAPE;
  each(dims(x), [&](auto... i) { cell(y, i...) = f((int)cell(x, i...)); });
  return ZDNN_OK;
}
template <class F> static zdnn_status bin(ZIN p, ZIN q, zdnn_ztensor *y, F f) {
  if (!fits(p) || !fits(q) || !fits(y)) return ZDNN_EXCEEDS_MDIS;
  if (dims(p) != dims(q) || dims(p) != dims(y)) return ZDNN_INVALID_SHAPE;
  each(dims(p), [&](auto... i) { cell(y, i...) = f((int)cell(p, i...), (int)cell(q, i...)); });
  return ZDNN_OK;
}
static zdnn_status mm(ZIN A, ZIN B, ZIN C, bool ta, bool tb, int op, zdnn_ztensor *y) {
  if (!fits(A) || !fits(B) || !fits(C) || !fits(y)) return ZDNN_EXCEEDS_MDIS;
  D4 a = dims(A), b = dims(B), c = dims(C), q = dims(y);
  uint32_t K = ta ? a[2] : a[3];
  auto batch = [&](uint32_t n) { return n == q[0] || n == 1; };
  if ((ta ? a[3] : a[2]) != q[2] || (tb ? b[2] : b[3]) != q[3] || (tb ? b[3] : b[2]) != K || c[3] != q[3] || !batch(a[0]) || !batch(b[0]) || c[0] != b[0])
    return ZDNN_INVALID_SHAPE;
  each(q, [&](uint32_t s, uint32_t z, uint32_t m, uint32_t n) {
    long v = (op + 1) * (long)cell(C, c[0] == 1 ? 0 : s, 0, 0, n);
    uint32_t sa = a[0] == 1 ? 0 : s, sb = b[0] == 1 ? 0 : s;
    for (uint32_t k = 0; k < K; ++k) v += (long)(ta ? cell(A, sa, 0, k, m) : cell(A, sa, 0, m, k)) * (tb ? cell(B, sb, 0, n, k) : cell(B, sb, 0, k, n));
    cell(y, s, z, m, n) = v % 30011;
  });
  return ZDNN_OK;
}
#define UN(name, e) zdnn_status name(ZIN x, zdnn_ztensor *y) { return un(x, y, [](int v) { return 3 * v + e; }); }
#define BIN(name, e) zdnn_status name(ZIN p, ZIN q, zdnn_ztensor *y) { return bin(p, q, y, [](int a, int b) { return e; }); }
extern "C" {
void zdnn_init(void) {}
bool zdnn_is_nnpa_installed(void) { return true; }
bool zdnn_is_nnpa_parmblk_fmt_installed(int, ...) { return !envi("T_OLD", 0); }
uint32_t zdnn_get_nnpa_max_dim_idx_size(void) { return envi("T_OLD", 0) ? lim[0] : 1; }
uint32_t zdnn_get_max_for_dim(uint8_t d) { return envi("T_OLD", 0) ? 1 : lim[4 - d]; }
uint64_t zdnn_get_nnpa_max_tensor_size(void) { return limSize; }
const char *zdnn_get_status_message(zdnn_status) { return "status"; }
static D4 plain(const zdnn_tensor_desc *p) {
  switch (p->layout) {
  case ZDNN_1D: return {1, 1, 1, p->dim1};
  case ZDNN_2D: return {1, 1, p->dim2, p->dim1};
  case ZDNN_2DS: return {p->dim2, 1, 1, p->dim1};
  case ZDNN_3D: return {1, p->dim3, p->dim2, p->dim1};
  case ZDNN_3DS: return {p->dim3, 1, p->dim2, p->dim1};
  case ZDNN_NCHW: return {p->dim4, p->dim2, p->dim1, p->dim3};
  default: return {p->dim4, p->dim3, p->dim2, p->dim1};
  }
}
zdnn_status zdnn_generate_transformed_desc(const zdnn_tensor_desc *p, zdnn_tensor_desc *t) {
  D4 q = plain(p);
  *t = {ZDNN_NHWC, ZDNN_FORMAT_4DFEATURE, ZDNN_DLFLOAT16, q[0], q[1], q[2], q[3]};
  return ZDNN_OK;
}
zdnn_status zdnn_generate_quantized_transformed_desc(const zdnn_tensor_desc *p, zdnn_quantized_transform_types, zdnn_tensor_desc *t) { return zdnn_generate_transformed_desc(p, t); }
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *t) { return (uint64_t)t->dim4 * t->dim3 * up(t->dim2, 32) * up(t->dim1, 64) * 4096; }
zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *z) { if (!z->buffer) return ZDNN_INVALID_BUFFER; free(((void **)z->buffer)[-1]); return ZDNN_OK; }
BIN(zdnn_add, a + b) BIN(zdnn_sub, a - b + 2000) BIN(zdnn_mul, (a * b) % 4001) BIN(zdnn_div, 2 * a + b)
BIN(zdnn_max, a > b ? a : b) BIN(zdnn_min, a < b ? a : b)
UN(zdnn_exp, 1) UN(zdnn_log, 2) UN(zdnn_gelu, 3) UN(zdnn_sqrt, 4) UN(zdnn_tanh, 5) UN(zdnn_sigmoid, 6)
zdnn_status zdnn_relu(ZIN x, const void *c, zdnn_ztensor *y) { int k = c ? (int)*(const float *)c : 0; return un(x, y, [&](int v) { return 3 * v + 7 + k; }); }
zdnn_status zdnn_invsqrt(ZIN x, float e, zdnn_ztensor *y) { int k = (int)e; return un(x, y, [&](int v) { return 3 * v + 8 + k; }); }
zdnn_status zdnn_leaky_relu(ZIN x, const void *, float e, zdnn_ztensor *y) { int k = (int)e; return un(x, y, [&](int v) { return 3 * v + 9 + k; }); }
zdnn_status zdnn_reduce(ZIN, void *, zdnn_reduce_ops, zdnn_ztensor *) { return ZDNN_UNAVAILABLE_FUNCTION; }
zdnn_status zdnn_softmax(ZIN x, void *, zdnn_softmax_act act, zdnn_ztensor *y) {
  if (!fits(x) || !fits(y)) return ZDNN_EXCEEDS_MDIS;
  D4 q = dims(x);
  if (q != dims(y)) return ZDNN_INVALID_SHAPE;
  each(D4{q[0], q[1], q[2], 1}, [&](uint32_t a, uint32_t b, uint32_t c, uint32_t) {
    long s = 0;
    for (uint32_t d = 0; d < q[3]; ++d) s += cell(x, a, b, c, d);
    for (uint32_t d = 0; d < q[3]; ++d) cell(y, a, b, c, d) = (2 * cell(x, a, b, c, d) + s + act) % 30011;
  });
  return ZDNN_OK;
}
zdnn_status zdnn_matmul_op(ZIN a, ZIN b, ZIN c, zdnn_matmul_ops o, zdnn_ztensor *y) { return mm(a, b, c, false, false, o, y); }
zdnn_status zdnn_matmul_bcast_op(ZIN a, ZIN b, ZIN c, zdnn_matmul_bcast_ops o, zdnn_ztensor *y) { return mm(a, b, c, false, false, o, y); }
zdnn_status zdnn_matmul_transpose_op(ZIN a, ZIN b, ZIN c, bool ta, bool tb, zdnn_matmul_ops o, zdnn_ztensor *y) { return mm(a, b, c, ta, tb, o, y); }
zdnn_status zdnn_quantized_matmul_op(ZIN, ZIN, ZIN, zdnn_matmul_ops, int8_t, int8_t, bool, bool, bool, void *, zdnn_ztensor *) { return ZDNN_UNAVAILABLE_FUNCTION; }
}
// a whole tensor: descriptors and a buffer between inaccessible pages
struct Whole {
  zdnn_ztensor z; zdnn_tensor_desc pre, tf, pre0, tf0; char *all; size_t len; std::string was;
  Whole(zdnn_data_layouts lay, const std::vector<int64_t> &sh, int A, int B) {
    memset(&z, 0, sizeof z); memset(&pre, 0, sizeof pre); memset(&tf, 0, sizeof tf);
    uint32_t s[4] = {1, 1, 1, 1};
    for (size_t i = 0; i < sh.size(); ++i) s[4 - sh.size() + i] = sh[i];
    pre.layout = lay; pre.type = FP32; pre.dim4 = s[0]; pre.dim3 = s[1]; pre.dim2 = s[2]; pre.dim1 = s[3];
    zdnn_generate_transformed_desc(&pre, &tf);
    z.pre_transformed_desc = &pre; z.transformed_desc = &tf; z.is_transformed = true;
    z.buffer_size = zdnn_getsize_ztensor(&tf); len = z.buffer_size + 8192;
    all = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(all, 4096, PROT_NONE); mprotect(all + len - 4096, 4096, PROT_NONE);
    z.buffer = all + 4096;
    memset(z.buffer, 0x77, z.buffer_size);
    if (A) { long x = 0; each(dims(&z), [&](auto... i) { cell(&z, i...) = (x++ * A + B) % 1009; }); }
    pre0 = pre; tf0 = tf; was.assign((char *)z.buffer, z.buffer_size);
  }
  ~Whole() { munmap(all, len); }
  bool descs() { return !memcmp(&pre, &pre0, sizeof pre) && !memcmp(&tf, &tf0, sizeof tf) && z.buffer == all + 4096 && z.pre_transformed_desc == &pre && z.transformed_desc == &tf; }
  bool kept() { return descs() && !memcmp(z.buffer, was.data(), was.size()); }
  std::vector<int> all_(ZIN t = nullptr) { std::vector<int> v; if (!t) t = &z; each(dims(t), [&](auto... i) { v.push_back(cell(t, i...)); }); return v; }
};
static std::string list(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::string list(const uint32_t *v) { return list(std::vector<int>{(int)v[0], (int)v[1], (int)v[2], (int)v[3]}); }
int main() {
  lim[0] = envi("T_E4", 4); lim[1] = envi("T_E3", 4); lim[2] = envi("T_E2", 64); lim[3] = envi("T_E1", 128);
  limSize = (uint64_t)envi("T_SIZE", 1 << 24) * 2;
  zdnnx_init();
  __sanitizer_install_malloc_and_free_hooks(onM, onF);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    if (w[0] == "split") { // lay shape request order external
      Whole F(LAY.at(w[1]), hx::ints(w[2]), 37, 5);
      auto rq = hx::ints(w[3]);
      zdnnx_split_info si; memset(&si, 0x5a, sizeof si);
      bool ok = zdnnx_prepare_split_info(&si, &F.z, rq[0], rq[1], rq[2], rq[3], "x");
      uint32_t n[4]; const zdnnx_axis ax[4] = {E4, E3, E2, E1};
      for (int i = 0; i < 4; ++i) n[i] = zdnnx_get_num_tiles(&si, ax[i]);
      std::vector<D4> order; each(D4{n[0], n[1], n[2], n[3]}, [&](uint32_t a, uint32_t b, uint32_t c, uint32_t d) { order.push_back({a, b, c, d}); });
      if (w[4] == "back") std::reverse(order.begin(), order.end());
      void *ext = w[5] == "own" && zdnnx_has_no_buffer_reuse(&si) ? zdnnx_alloc_buffer(&si) : nullptr;
      if (w[5] == "own" && zdnnx_has_no_buffer_reuse(&si) && !ext) ok = false;
      std::string ts; bool inside = true;
      for (auto &o : order) {
        zdnnx_tile t; memset(&t, 0x5b, sizeof t);
        zdnnx_set_tile(&si, &t, (char *)ext, o[0], o[1], o[2], o[3]);
        zdnnx_copy_data_to_tile(&t);
        D4 q = dims(&t.data);
        inside = inside && t.data.buffer_size == zdnn_getsize_ztensor(t.data.transformed_desc) && t.data.is_transformed;
        zdnn_tensor_desc *p = t.data.pre_transformed_desc;
        inside = inside && p->layout == F.pre.layout && plain(p) == q;
        ts += (ts.empty() ? "" : ",") + std::string("{\"i\":") + list(o.data()) + ",\"d\":" + list(q.data()) + ",\"v\":" + list(F.all_(&t.data)) + "}";
        each(q, [&](auto... i) { cell(&t.data, i...) += 2000; });
        zdnnx_copy_data_to_full(&t);
        zdnnx_free_tile_buffer(&t);
      }
      if (ext) zdnnx_free_buffer(ext);
      hx::reply("{\"ok\":" + std::to_string(ok) + ",\"n\":" + list(n) + ",\"one\":" + std::to_string(zdnnx_has_one_tile(&si)) + ",\"whole\":" + std::to_string(inside && F.descs()) +
                ",\"t\":[" + ts + "],\"y\":" + list(F.all_()) + "}");
      return;
    }
    if (w[0] == "per") { // shape4 n: tile sizes for n tiles per axis
      Whole F(ZDNN_4D, hx::ints(w[1]), 0, 0); int n = atoi(w[2].c_str());
      uint32_t r[4] = {zdnnx_get_transformed_dim_per_tile(&F.z, n, E4), zdnnx_get_transformed_dim_per_tile(&F.z, n, E3), zdnnx_get_transformed_dim_per_tile(&F.z, n, E2), zdnnx_get_transformed_dim_per_tile(&F.z, n, E1)};
      hx::reply("{\"r\":" + list(r) + "}"); return;
    }
    // an operation: run twice; memory is compared after the first time
    std::vector<std::unique_ptr<Whole>> in; std::unique_ptr<Whole> y, warm; std::function<zdnn_status(zdnn_ztensor *)> go;
    std::vector<int64_t> sample;
    static const int A[3] = {37, 101, 53}, B[3] = {5, 11, 7};
    auto make = [&](int k, const char *lay, std::vector<int64_t> sh) { in.emplace_back(new Whole(LAY.at(lay), sh, A[k], B[k])); return &in.back()->z; };
    float par = 0; bool big = false;
    if (w[0] == "ew") { // name lay shape param sample
      auto sh = hx::ints(w[3]); par = atoi(w[4].c_str()); sample = hx::ints(w[5]); big = !sample.empty();
      ZIN a = make(0, w[2].c_str(), sh), b = make(1, w[2].c_str(), sh);
      std::string f = w[1];
      y.reset(new Whole(LAY.at(w[2]), sh, 0, 0)); warm.reset(new Whole(LAY.at(w[2]), sh, 0, 0));
      go = [=, &par](zdnn_ztensor *o) -> zdnn_status {
        if (f == "add") return zdnnx_add(a, b, o); if (f == "sub") return zdnnx_sub(a, b, o); if (f == "mul") return zdnnx_mul(a, b, o);
        if (f == "div") return zdnnx_div(a, b, o); if (f == "max") return zdnnx_max(a, b, o); if (f == "min") return zdnnx_min(a, b, o);
        if (f == "exp") return zdnnx_exp(a, o); if (f == "log") return zdnnx_log(a, o); if (f == "gelu") return zdnnx_gelu(a, o);
        if (f == "sqrt") return zdnnx_sqrt(a, o); if (f == "tanh") return zdnnx_tanh(a, o); if (f == "sigmoid") return zdnnx_sigmoid(a, o);
        if (f == "relu") return zdnnx_relu(a, &par, o); if (f == "invsqrt") return zdnnx_invsqrt(a, par, o);
        if (f == "softmax") return zdnnx_softmax(a, nullptr, (zdnn_softmax_act)(int)par, o);
        return ZDNN_INVALID_TYPE;
      };
    } else { // mm kind S,M,K,N ta tb op
      auto d = hx::ints(w[2]); int64_t S = d[0], M = d[1], K = d[2], N = d[3]; bool ta = w[3] == "1", tb = w[4] == "1"; int op = atoi(w[5].c_str());
      std::string k = w[1];
      bool sa = k == "stacked" || k == "bcast23", sb = k == "stacked" || k == "bcast1", sy = sa || sb;
      auto two = [&](bool s, int64_t r, int64_t c) { return s ? std::vector<int64_t>{S, r, c} : std::vector<int64_t>{r, c}; };
      ZIN a = make(0, sa ? "3DS" : "2D", ta ? two(sa, K, M) : two(sa, M, K)), b = make(1, sb ? "3DS" : "2D", tb ? two(sb, N, K) : two(sb, K, N));
      ZIN c = make(2, sb ? "2DS" : "1D", sb ? std::vector<int64_t>{S, N} : std::vector<int64_t>{N});
      y.reset(new Whole(LAY.at(sy ? "3DS" : "2D"), two(sy, M, N), 0, 0)); warm.reset(new Whole(LAY.at(sy ? "3DS" : "2D"), two(sy, M, N), 0, 0));
      go = [=](zdnn_ztensor *o) {
        if (ta || tb) return zdnnx_matmul_transpose_op(a, b, c, ta, tb, op, o);
        return sa != sb ? zdnnx_matmul_bcast_op(a, b, c, op, o) : zdnnx_matmul_op(a, b, c, op, o);
      };
    }
    calls = over = 0;
    zdnn_status s = go(&warm->z);
    for (auto &x : in) { x->pre = x->pre0; x->tf = x->tf0; }
    long before = live;
    zdnn_status s2 = go(&y->z);
    long after = live;
    if (s != s2) s = ZDNN_INVALID_STATE;
    bool same = true;
    for (auto &x : in) { if (big) { x->pre = x->pre0; x->tf = x->tf0; } same = same && x->kept(); }
    if (big) { y->pre = y->pre0; y->tf = y->tf0; }
    same = same && y->descs();
    std::vector<int> v = y->all_();
    if (big) { std::vector<int> p; for (auto i : sample) p.push_back(v[i]); v = p; }
    hx::reply("{\"st\":" + std::to_string(s == ZDNN_OK ? 0 : s == ZDNN_EXCEEDS_MDIS ? 1 : 2) + ",\"over\":" + std::to_string(over) + ",\"same\":" + std::to_string(same) + ",\"left\":" +
              std::to_string((long)after - (long)before) + ",\"y\":" + list(v) + "}");
  });
}
