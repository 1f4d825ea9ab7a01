// Small floating-point conversions: C functions and the float classes.
#include "hx.hpp"
#include "src/Support/SmallFP.hpp"
using namespace onnx_mlir;
using llvm::APFloat;
static std::string num(double d) { // exact: every f32 and small float is a double
  if (d != d) return "[\"nan\",0,0,0]";
  int s = std::signbit(d);
  if (std::isinf(d)) return "[\"inf\"," + std::to_string(s) + ",0,0]";
  if (d == 0) return "[\"fin\"," + std::to_string(s) + ",0,0]";
  int e; double m = std::frexp(std::fabs(d), &e); long long M = (long long)std::ldexp(m, 53); e -= 53;
  while (M % 2 == 0) { M /= 2; ++e; }
  if (M >= (1 << 30)) return "[\"big\",0,0,0]";
  return "[\"fin\"," + std::to_string(s) + "," + std::to_string(M) + "," + std::to_string(e) + "]";
}
static double exactD(APFloat a) { bool ig; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &ig); return a.convertToDouble(); }
static float bitsF(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double bitsD(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
template <class FP> struct C { static constexpr bool has = false; static float to(uint16_t) { return 0; } static uint16_t from(float) { return 0; } };
template <> struct C<float_16> { static constexpr bool has = true; static float to(uint16_t u) { return om_f16_to_f32(u); } static uint16_t from(float f) { return om_f32_to_f16(f); } };
template <> struct C<bfloat_16> { static constexpr bool has = true; static float to(uint16_t u) { return om_bf16_to_f32(u); } static uint16_t from(float f) { return om_f32_to_bf16(f); } };
template <class FP> static std::string go(const std::vector<std::string> &w) {
  using U = typename FP::bitcasttype;
  std::string o = "{\"rows\":[";
  if (w[0] == "widen") {
    int first = atoi(w[2].c_str()), n = atoi(w[3].c_str());
    for (int i = 0; i < n; ++i) {
      FP x = FP::bitcastFromUInt((U)(first + i)); float f = x.toFloat();
      std::string to = num(f) + "," + num(exactD(x.toAPFloat())) + "," + num(static_cast<double>(x)) + "," + num(static_cast<float>(x));
      std::string back = std::to_string(FP::fromFloat(f).bitcastToUInt()) + "," + std::to_string(FP::fromAPFloat(x.toAPFloat()).bitcastToUInt()) +
        "," + std::to_string(FP::fromAPFloat(APFloat((double)f)).bitcastToUInt()) + "," + std::to_string(FP(f).bitcastToUInt());
      if (C<FP>::has) { to += "," + num(C<FP>::to(first + i)); back += "," + std::to_string(C<FP>::from(C<FP>::to(first + i))); }
      o += std::string(i ? "," : "") + "{\"to\":[" + to + "],\"nan\":" + std::to_string(x.isNaN()) + ",\"back\":[" + back + "]}";
    }
  } else if (w[0] == "narrow") {
    bool dbl = w[2] == "d";
    for (size_t i = 3; i < w.size(); ++i) {
      std::string r;
      uint64_t u = strtoull(w[i].c_str(), 0, 16);
      if (dbl) r = std::to_string(FP::fromAPFloat(APFloat(bitsD(u))).bitcastToUInt());
      else {
        float f = bitsF((uint32_t)u);
        r = std::to_string(FP::fromFloat(f).bitcastToUInt()) + "," + std::to_string(FP::fromAPFloat(APFloat(f)).bitcastToUInt()) + "," +
            std::to_string(FP(f).bitcastToUInt()) + "," + std::to_string(FP((double)f).bitcastToUInt());
        if (C<FP>::has) r += "," + std::to_string(C<FP>::from(f));
        if (std::fabs(f) < 1e9 && f == std::floor(f) && !(f == 0 && std::signbit(f))) r += "," + std::to_string(FP((int64_t)f).bitcastToUInt());
      }
      o += std::string(i > 3 ? "," : "") + "[" + r + "]";
    }
  } else if (w[0] == "eq") {
    std::string e, n;
    for (size_t i = 2; i + 1 < w.size(); i += 2) {
      FP a = FP::bitcastFromUInt((U)atoi(w[i].c_str())), b = FP::bitcastFromUInt((U)atoi(w[i + 1].c_str()));
      e += std::string(i > 2 ? "," : "") + std::to_string(a == b); n += std::string(i > 2 ? "," : "") + std::to_string(a != b);
    }
    return "{\"eq\":[" + e + "],\"ne\":[" + n + "]}";
  } else if (w[0] == "max") return "{\"max\":" + num(FP::max) + "}";
  return o + "]}";
}
int main() {
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    const std::string &f = w[1];
    hx::reply(f == "f16" ? go<float_16>(w) : f == "bf16" ? go<bfloat_16>(w) : f == "e5m2" ? go<float_8e5m2>(w) : f == "e4m3fn" ? go<float_8e4m3fn>(w) :
              f == "e4m3fnuz" ? go<float_8e4m3fnuz>(w) : go<float_8e5m2fnuz>(w));
  });
}
