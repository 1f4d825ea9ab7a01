// Runtime random generators.
#include "hx.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
extern "C" {
void get_random_normal_value_f64(double *result, long long size, double mean, double scale, double seed);
void get_random_normal_value_f32(float *result, long long size, float mean, float scale, float seed);
OMTensor *run_uniform_random(OMTensor *output_tensor, float low, float high, float seed);
}
int main() {
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    if (w[0] == "burn") { for (int i = atoi(w[1].c_str()); i > 0; --i) (void)rand(); hx::reply("{}"); return; }
    // normal|uniform dt n a b seed shape
    int dt = atoi(w[2].c_str()); auto sh = hx::ints(w[3]);
    long long n = 1; for (auto d : sh) n *= d;
    double a = strtod(w[4].c_str(), 0), b = strtod(w[5].c_str(), 0), seed = strtod(w[6].c_str(), 0);
    size_t es = dt == 1 ? 4 : dt == 11 ? 8 : dt == 10 ? 2 : 4;
    // one guard element on each side of an exact-size buffer part
    std::vector<char> buf((n + 2) * es, 0x5A);
    char *p = buf.data() + es; int ret = 1;
    if (w[1] == "normal") {
      if (dt == 1) get_random_normal_value_f32((float *)p, n, a, b, seed);
      else get_random_normal_value_f64((double *)p, n, a, b, seed);
    } else {
      OMTensor *t = omTensorCreate(p, sh.data(), sh.size(), (OM_DATA_TYPE)dt);
      ret = run_uniform_random(t, a, b, seed) == t ? 1 : 0;
      omTensorDestroy(t);
    }
    bool guard = true;
    for (size_t i = 0; i < es; ++i) guard = guard && buf[i] == 0x5A && buf[buf.size() - 1 - i] == 0x5A;
    hx::reply("{\"ret\":" + std::to_string(ret) + ",\"guard\":" + (guard ? "1" : "0") + ",\"hex\":\"" + hx::hexs(p, n * es) + "\"}");
  });
}
