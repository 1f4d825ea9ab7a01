// Flag splitting and prediction of names.
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/OMCompile.hpp"
#include "hx.hpp"
#include <unistd.h>
using namespace onnx_mlir;
using hx::jstr;
static std::string hl(const std::vector<std::string> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jstr(v[i]); return o + "]"; }
template <class F> static std::string get(F f) { try { return jstr(f()); } catch (const OMCompileException &) { return "\"<exc>\""; } }
int main() {
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    if (w[0] == "parse") { hx::reply("{\"words\":" + hl(parseFlags(hx::unhex(w[1]))) + "}"); return; }
    std::string m = hx::unhex(w[1]), f = hx::unhex(w[2]), d = hx::unhex(w[3]);
    auto fl = parseFlags(f); auto words = fl;
    std::string in = getInputFilename(m, fl); applyOutputPath(fl, d, in);
    char b[4096];
    hx::reply("{\"words\":" + hl(words) + ",\"in\":" + jstr(in) + ",\"applied\":" + hl(fl) + ",\"out\":" + jstr(getOutputFilename(m, fl)) + ",\"tag\":" + jstr(getModelTag(words)) +
              ",\"pin\":" + get([&] { return OMCompile::predictInputFilename(m, f); }) + ",\"pout\":" + get([&] { return OMCompile::predictOutputFilename(m, f, d); }) +
              ",\"ptag\":" + get([&] { return OMCompile::predictModelTag(f); }) + ",\"abs\":" + jstr(getAbsolutePathUsingCurrentDir(in)) + ",\"cwd\":" + jstr(getcwd(b, sizeof b)) + "}");
  });
}
