// EnableByRegexOption: new EMPTYISNONE HEX | set HEX | ask HEX...
#include <cassert>
#include <iterator>
#include "src/Compiler/OptionUtils.hpp"
#include "hx.hpp"
#include <memory>
int main() {
  std::unique_ptr<onnx_mlir::EnableByRegexOption> o;
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { o.reset(); hx::reply("{}"); return; }
    if (w[0] == "new") {
      if (w[1] == "1" && w.size() > 3) o = std::make_unique<onnx_mlir::EnableByRegexOption>(w[2] == "1");
      else o = std::make_unique<onnx_mlir::EnableByRegexOption>(w[2] == "1", hx::unhex(w[1] == "1" ? "-" : w[3]));
      hx::reply("{}"); return;
    }
    if (w[0] == "set") { o->setRegexString(hx::unhex(w[1])); hx::reply("{}"); return; }
    std::string r;
    for (size_t i = 1; i < w.size(); ++i) {
      std::string n = hx::unhex(w[i]);
      bool b = i % 2 ? o->isEnabled(n) : o->isEnabled(llvm::StringRef(n));
      r += std::string(i > 1 ? "," : "") + (b ? "1" : "0");
    }
    hx::reply("{\"on\":[" + r + "]}");
  });
}
