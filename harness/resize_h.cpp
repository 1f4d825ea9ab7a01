// Runtime Resize on rank-4 float tensors.
#include "hx.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
extern "C" {
void Resize_Scales(OMTensor *output, OMTensor *data, OMTensor *scales, char *mode_str, char *nearest_mode);
void Resize_Size(OMTensor *output, OMTensor *data, OMTensor *size, char *mode_str, char *nearest_mode);
}
int main() {
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    // scales|size mode inshape outshape num/den,... data
    auto in = hx::ints(w[2]), out = hx::ints(w[3]), num = hx::ints(w[4]), den = hx::ints(w[5]), d = hx::ints(w[6]);
    int64_t ni = d.size(), no = 1; for (auto x : out) no *= x;
    float *x = (float *)malloc(4 * ni), *y = (float *)malloc(4 * no);
    for (int64_t i = 0; i < ni; ++i) x[i] = d[i];
    for (int64_t i = 0; i < no; ++i) y[i] = 12345.f;
    float sc[4]; int64_t sz[4]; int64_t four = 4;
    for (int i = 0; i < 4; ++i) { sc[i] = (float)num[i] / (float)den[i]; sz[i] = out[i]; }
    OMTensor *X = omTensorCreate(x, in.data(), 4, ONNX_TYPE_FLOAT), *Y = omTensorCreate(y, out.data(), 4, ONNX_TYPE_FLOAT);
    std::string mode = w[1], nm = "round_prefer_floor";
    if (w[0] == "scales") {
      OMTensor *S = omTensorCreate(sc, &four, 1, ONNX_TYPE_FLOAT);
      Resize_Scales(Y, X, S, &mode[0], &nm[0]); omTensorDestroy(S);
    } else {
      OMTensor *S = omTensorCreate(sz, &four, 1, ONNX_TYPE_INT64);
      Resize_Size(Y, X, S, &mode[0], &nm[0]); omTensorDestroy(S);
    }
    bool same = true;
    for (int64_t i = 0; i < ni; ++i) same = same && x[i] == (float)d[i];
    std::string s = "{\"same\":" + std::to_string(same) + ",\"y\":[";
    for (int64_t i = 0; i < no; ++i) { char b[40]; snprintf(b, 40, "%s%.17g", i ? "," : "", (double)y[i]); s += strchr(b, 'n') ? (i ? ",1e30" : "1e30") : b; }
    hx::reply(s + "]}");
    omTensorDestroy(X); omTensorDestroy(Y); free(x); free(y);
  });
}
