// Constants in the accelerator's layout: descriptors, buffers, stickification,
// DLFLOAT16 conversion. Reports what was written where, and knows no layout.
#include "hx.hpp"
#include "src/Accelerators/NNPA/Support/Stickify/Convert.hpp"
#include "src/Accelerators/NNPA/Support/Stickify/Stickify.hpp"
#include <cmath>
#include <memory>
#include <sys/mman.h>
static const char *st(zdnn_status s) {
  switch (s) {
  case ZDNN_OK: return "OK";
  case ZDNN_INVALID_SHAPE: return "INVALID_SHAPE";
  case ZDNN_INVALID_LAYOUT: return "INVALID_LAYOUT";
  case ZDNN_INVALID_TYPE: return "INVALID_TYPE";
  case ZDNN_INVALID_FORMAT: return "INVALID_FORMAT";
  case ZDNN_INVALID_CONCAT_INFO: return "INVALID_CONCAT_INFO";
  case ZDNN_INVALID_TRANSFORM_TYPE: return "INVALID_TRANSFORM_TYPE";
  case ZDNN_INVALID_BUFFER: return "INVALID_BUFFER";
  case ZDNN_INVALID_STATE: return "INVALID_STATE";
  case ZDNN_CONVERT_FAILURE: return "CONVERT_FAILURE";
  case ZDNN_ALLOCATION_FAILURE: return "ALLOCATION_FAILURE";
  default: return "other";
  }
}
static const std::map<std::string, zdnn_data_layouts> LAY = {{"1D", ZDNN_1D}, {"2D", ZDNN_2D}, {"2DS", ZDNN_2DS}, {"3D", ZDNN_3D},
    {"3DS", ZDNN_3DS}, {"4D", ZDNN_4D}, {"NHWC", ZDNN_NHWC}, {"NCHW", ZDNN_NCHW}, {"HWCK", ZDNN_HWCK}, {"FICO", ZDNN_FICO},
    {"ZRH", ZDNN_ZRH}, {"BIDIR_FICO", ZDNN_BIDIR_FICO}, {"BIDIR_ZRH", ZDNN_BIDIR_ZRH}};
static const std::map<std::string, zdnn_data_types> TY = {{"FP32", FP32}, {"FP16", FP16}, {"BFLOAT", BFLOAT}, {"INT8", INT8}, {"INT32", INT32}};
static std::string layName(zdnn_data_layouts x) { for (auto &p : LAY) if (p.second == x && p.first != "4D") return p.first; return "?"; }
static std::string fmtName(zdnn_data_formats f) { return f == ZDNN_FORMAT_4DFEATURE ? "FEATURE" : f == ZDNN_FORMAT_4DKERNEL ? "KERNEL" : f == ZDNN_FORMAT_4DWEIGHTS ? "WEIGHTS" : "?"; }
static std::string tyName(zdnn_data_types t) { return t == ZDNN_DLFLOAT16 ? "DLF" : t == ZDNN_BINARY_INT8 ? "INT8" : t == ZDNN_BINARY_INT32 ? "INT32" : "?"; }
// size bytes between two inaccessible pages
struct Area {
  char *all = nullptr; size_t len = 0, size = 0; char *p = nullptr;
  void make(size_t n) {
    drop();
    size = n; len = (n + 4095) / 4096 * 4096 + 8192;
    all = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(all, 4096, PROT_NONE); mprotect(all + len - 4096, 4096, PROT_NONE);
    p = all + 4096;
  }
  void drop() { if (all) munmap(all, len); all = p = nullptr; size = 0; }
};
int main() {
  zdnn_tensor_desc pre, tf; zdnn_ztensor zt; Area area; size_t need = 0; std::string how;
  auto call = [&](const std::vector<const void *> &g) {
    return g.size() == 4 ? stickify(&zt, g[0], g[1], g[2], g[3]) : g.size() == 3 ? stickify(&zt, g[0], g[1], g[2]) : stickify(&zt, g[0]);
  };
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { area.drop(); hx::reply("{}"); return; }
    if (w[0] == "desc") { // lay ty shape use rnn prev
      auto sh = hx::ints(w[3]);
      memset(&pre, 0x11, sizeof pre); memset(&tf, 0x22, sizeof tf); memset(&zt, 0x33, sizeof zt);
      set_info_pre_transformed_desc(&pre, LAY.at(w[1]), TY.at(w[2]), sh);
      zdnn_status s;
      if (w[4] == "plain") s = generate_transformed_desc(&pre, &tf);
      else if (w[4][0] == 'q') s = generate_quantized_transformed_desc(&pre, w[4] == "qw" ? QUANTIZED_WEIGHTS_INT8 : w[4] == "qint" ? QUANTIZED_INT8 : QUANTIZED_DLFLOAT16, &tf);
      else {
        zdnn_concat_info i = (w[5] == "lstm" ? RNN_TYPE_LSTM : RNN_TYPE_GRU) | (w[6] == "bidir" ? PREV_LAYER_BIDIR : PREV_LAYER_UNI) |
            (w[4] == "w" ? USAGE_WEIGHTS : w[4] == "hw" ? USAGE_HIDDEN_WEIGHTS : w[4] == "b" ? USAGE_BIASES : USAGE_HIDDEN_BIASES);
        s = generate_transformed_desc_concatenated(&pre, i, &tf);
      }
      std::string r = std::string("{\"st\":\"") + st(s) + "\"";
      if (s == ZDNN_OK) {
        init_ztensor(&pre, &tf, &zt);
        zt.buffer = nullptr; zt.buffer_size = 0;
        r += ",\"dims\":[" + std::to_string(tf.dim4) + "," + std::to_string(tf.dim3) + "," + std::to_string(tf.dim2) + "," + std::to_string(tf.dim1) +
             "],\"lay\":\"" + layName(tf.layout) + "\",\"fmt\":\"" + fmtName(tf.format) + "\",\"ty\":\"" + tyName(tf.type) + "\"";
      }
      hx::reply(r + "}");
      return;
    }
    if (w[0] == "alloc") { // obtains a buffer, uses all of it, and returns it
      zdnn_ztensor t = zt;
      zdnn_status s = allochelper_ztensor_alloc(&t);
      need = 0; int al = 0, left = 0;
      if (s == ZDNN_OK) {
        need = t.buffer_size; al = ((uintptr_t)t.buffer & 4095) == 0;
        memset(t.buffer, 0x5a, t.buffer_size);
        allochelper_ztensor_free(&t);
        left = t.buffer != nullptr || t.buffer_size != 0;
      }
      hx::reply(std::string("{\"st\":\"") + st(s) + "\",\"aligned\":" + std::to_string(al) + ",\"size\":" + std::to_string(need) + ",\"left\":" + std::to_string(left) + "}");
      return;
    }
    if (w[0] == "buf") { // right null odd small
      how = w[1];
      area.make(need + (how == "odd" ? 4096 : 0));
      zt.buffer = how == "null" ? nullptr : area.p + (how == "odd" ? 8 : 0);
      zt.buffer_size = how == "small" ? need - 1 : need;
      zt.is_transformed = false;
      hx::reply("{}");
      return;
    }
    if (w[0] == "stick" || w[0] == "weights") { // gates: quarters or bytes
      bool wt = w[0] == "weights";
      size_t es = wt ? 1 : 4;
      std::vector<std::unique_ptr<Area>> in; std::vector<const void *> g; std::vector<std::string> was;
      for (size_t i = 1; i < w.size(); ++i) {
        auto v = hx::ints(w[i]);
        size_t n = v.size() * es;
        in.emplace_back(new Area); in.back()->make(n);
        char *p = in.back()->p + (n + 4095) / 4096 * 4096 - n;
        for (size_t k = 0; k < v.size(); ++k) { if (wt) ((int8_t *)p)[k] = v[k]; else { float f = v[k] / 4.f; memcpy(p + 4 * k, &f, 4); } }
        g.push_back(p); was.emplace_back(p, n);
      }
      std::string before(area.p, area.size), a, b; bool d0 = zt.is_transformed; zdnn_status s, s2;
      auto go = [&] { return wt ? quantized_stickify(&zt, g[0]) : call(g); };
      bool kept;
      if (!wt && (d0 || how != "right")) { s = go(); kept = before == std::string(area.p, area.size); a = b = before; }
      else {
        memset(area.p, 0x00, area.size); s2 = go(); a = std::string(area.p, area.size);
        zt.is_transformed = d0;
        memset(area.p, 0x7d, area.size); s = go(); b = std::string(area.p, area.size);
        if (s != s2) s = ZDNN_UNSUPPORTED_AIU_EXCEPTION;
        kept = b == std::string(area.size, 0x7d);
      }
      bool same = true;
      for (size_t i = 0; i < g.size(); ++i) same = same && !memcmp(g[i], was[i].data(), was[i].size());
      std::string r = std::string("{\"st\":\"") + st(s) + "\",\"same\":" + std::to_string(same) + ",\"done\":" + std::to_string((int)zt.is_transformed) +
                      ",\"kept\":" + std::to_string(kept) + ",\"alike\":" + std::to_string(a == b) + ",\"cells\":[";
      bool first = true;
      if (s == ZDNN_OK)
        for (size_t o = 0; o + 1 < b.size() + wt; o += wt ? 1 : 2) {
          uint16_t v; int x;
          if (wt) { if (a[o] != b[o]) continue; x = (int8_t)b[o]; }
          else { memcpy(&v, &b[o], 2); if (!v) continue; x = v; }
          r += (first ? "[" : ",[") + std::to_string(o) + "," + std::to_string(x) + "]"; first = false;
        }
      hx::reply(r + "]}");
      for (auto &x : in) x->drop();
      return;
    }
    if (w[0] == "conv") {
      size_t n = w.size() - 1;
      float *f = (float *)malloc(4 * n); uint16_t *o = (uint16_t *)malloc(2 * n);
      for (size_t i = 0; i < n; ++i) { uint32_t u = strtoul(w[i + 1].c_str(), 0, 16); memcpy(f + i, &u, 4); }
      uint64_t k = fp32_to_dlf16(f, o, n);
      std::string r = "{\"n\":" + std::to_string(k) + ",\"p\":[";
      for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string(o[i]);
      hx::reply(r + "]}"); free(f); free(o);
      return;
    }
    if (w[0] == "back") {
      size_t a = strtoul(w[1].c_str(), 0, 10), n = strtoul(w[2].c_str(), 0, 10);
      uint16_t *p = (uint16_t *)malloc(2 * n); float *f = (float *)malloc(4 * n);
      for (size_t i = 0; i < n; ++i) p[i] = a + i;
      dlf16_to_fp32(p, f, n);
      std::string r = "{\"v\":[";
      for (size_t i = 0; i < n; ++i) {
        uint32_t u; memcpy(&u, f + i, 4);
        r += i ? "," : "";
        r += std::isnan(f[i]) ? "[\"nan\"]" : "[" + std::to_string(u >> 31) + "," + std::to_string((u >> 23) & 255) + "," + std::to_string(u & 0x7fffff) + "]";
      }
      hx::reply(r + "]}"); free(p); free(f);
    }
  });
}
