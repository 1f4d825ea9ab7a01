// Compiler options, configuration lists, JSON configuration, option loading.
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/JsonConfigObject.hpp"
#include "hx.hpp"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace onnx_mlir;
using hx::jstr;
static std::string jl(const std::vector<std::string> &v) {
  std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jstr(v[i]); return o + "]";
}
static std::vector<std::string> hl(const std::string &w) { // comma separated hex words, "-" empty list, "=" empty string
  std::vector<std::string> v; if (w == "-") return v;
  std::istringstream is(w); std::string x; while (std::getline(is, x, ',')) v.push_back(x == "=" ? "" : hx::unhex(x)); return v;
}
static std::string all(int rc) {
  std::string o = "{\"rc\":" + std::to_string(rc) + ",\"get\":[";
  for (int k = 0; k < 10; ++k) o += (k ? "," : "") + jstr(getCompilerOption((OptionKind)k));
  o += "],\"archT\":" + jstr(getTargetArchOption(true)) + ",\"cpuT\":" + jstr(getTargetCPUOption(true)) + ",\"cpuO\":" + jstr(getTargetCPUOption(false, true)) +
       ",\"cpuTO\":" + jstr(getTargetCPUOption(true, true)) + ",\"z\":" + std::to_string(getZArchNum(march, mcpu)) + ",\"llvm\":" + jl(getLLVMOptions()) +
       ",\"xopt\":" + jl(getXoptOption()) + ",\"xllc\":" + jl(getXllcOption()) + ",\"noacc\":" + (targetNoAccelerators() ? "1" : "0") +
       ",\"env\":" + jstr(getCustomEnvVarOption()) + ",\"cfg\":[";
  const char *ks[] = {"A", "B", CCM_SHARED_LIB_DEPS, CCM_SHARED_LIB_PATH_DEPS};
  for (int i = 0; i < 4; ++i) o += (i ? "," : "") + jl(getCompilerConfig(ks[i]));
  return o + "]}";
}
static void inChild(const std::function<std::string()> &f) {
  int p[2]; if (pipe(p)) abort();
  pid_t c = fork();
  if (!c) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); if(!getenv("DBG")) dup2(n, 2);
    std::string r; try { r = f(); } catch (const std::exception &e) { r = std::string("{\"crash\":2}"); }
    (void)!write(p[1], r.data(), r.size()); _exit(0);
  }
  close(p[1]); std::string r; char b[4096]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
  close(p[0]); int st; waitpid(c, &st, 0);
  hx::reply(r.empty() ? "{\"crash\":1}" : r);
}
int main() {
  std::unique_ptr<JsonConfigObject> js;
  bool first = true;
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0];
    if (op == "RESET") {
      if (!first) {
        for (int k = 0; k < 10; ++k) clearCompilerOption((OptionKind)k);
        CompilerConfigMap.clear(); clearCustomEnvVar();
        enableParallel = false; extraLibs.clear(); extraLibPaths.clear(); enableFastMathOption = false;
      }
      first = false; js = std::make_unique<JsonConfigObject>(); hx::reply("{}"); return;
    }
    if (op == "set") { hx::reply(all(setCompilerOption((OptionKind)atoi(w[1].c_str()), hx::unhex(w[2])))); return; }
    if (op == "clear") { clearCompilerOption((OptionKind)atoi(w[1].c_str())); hx::reply(all(0)); return; }
    if (op == "multi") {
      CompilerOptionList l; for (size_t i = 1; i + 1 < w.size(); i += 2) l.push_back({(OptionKind)atoi(w[i].c_str()), hx::unhex(w[i + 1])});
      hx::reply(all(setCompilerOptions(l))); return;
    }
    if (op == "add") { addCompilerConfig(w[1], hl(w[3]), w[2] == "1"); hx::reply(all(0)); return; }
    if (op == "del") { delCompilerConfig(w[1], hl(w[2])); hx::reply(all(0)); return; }
    if (op == "init") { // target parallel fast libs paths
      emissionTarget = w[1] == "lib" ? EmitLib : w[1] == "jni" ? EmitJNI : EmitMLIR;
      enableParallel = w[2] == "1"; enableFastMathOption = w[3] == "1"; extraLibs = hl(w[4]); extraLibPaths = hl(w[5]);
      initCompilerConfig(); hx::reply(all(0)); return;
    }
    if (op == "env") { if (w[1] == "-") clearCustomEnvVar(); else setCustomEnvVar(w[1]); hx::reply(all(0)); return; }
    // ---- JSON configuration
    auto jrep = [&](int rc) {
      std::vector<std::string> a; int have = js->getCompileOptions(a); auto s = js->getString("s"); auto *arr = js->getArray("compile_options");
      return std::string("{\"rc\":") + std::to_string(rc) + ",\"loaded\":" + (js->isLoaded() ? "1" : "0") + ",\"path\":" + jstr(js->getFilePath()) +
             ",\"empty\":" + (js->empty() ? "1" : "0") + ",\"have\":" + std::to_string(have) + ",\"opts\":" + jl(a) + ",\"s\":" + (s ? jstr(s->str()) : "\"<none>\"") +
             ",\"arr\":" + std::to_string(arr ? (int)arr->size() : -1) + "}";
    };
    if (op == "file") {
      if (w[2] == "rm") unlink(w[1].c_str());
      else { FILE *f = fopen(w[1].c_str(), "w"); std::string t = hx::unhex(w[2]); fwrite(t.data(), 1, t.size(), f); fclose(f); }
      hx::reply(jrep(0)); return;
    }
    if (op == "load") { hx::reply(jrep(js->loadFromFile(w[1]))); return; }
    if (op == "store") { hx::reply(jrep(js->storeToFile(w[1]))); return; }
    if (op == "fresh") { js = std::make_unique<JsonConfigObject>(); hx::reply(jrep(0)); return; }
    // ---- the start-up sequence of onnx-mlir: cli ENVNAME ENVVAL ARGS...  (hex words)
    if (op == "cli") {
      inChild([&] {
        auto ev = hl(w[1]); for (size_t i = 0; i + 1 < ev.size(); i += 2) setenv(ev[i].c_str(), ev[i + 1].c_str(), 1);
        std::vector<std::string> args = hl(w[2]), extra; std::vector<const char *> av{"onnx-mlir"};
        for (auto &a : args) av.push_back(a.c_str());
        bool lc = loadCompileOptionsFromConfig(av.size(), av.data(), extra);
        std::vector<const char *> all_{"onnx-mlir"};
        for (auto &a : extra) all_.push_back(a.c_str());
        for (auto &a : args) all_.push_back(a.c_str());
        bool ok = parseCustomEnvFlagsCommandLineOption(all_.size(), all_.data(), nullptr) &&
                  llvm::cl::ParseCommandLineOptions(all_.size(), all_.data(), "x\n", &llvm::errs(), customEnvFlags.c_str());
        std::string r = ok ? all(0) : std::string("{\"rc\":1}");
        return std::string("{\"cfg\":") + (lc ? "1" : "0") + ",\"extra\":" + jl(extra) + ",\"ok\":" + (ok ? "1" : "0") + ",\"in\":" + jstr(inputFilename) + ",\"all\":" + r + "}";
      });
      return;
    }
    fprintf(stderr, "bad command %s\n", op.c_str()); exit(3);
  });
}
