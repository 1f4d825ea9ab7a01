// Compile driver sessions, with a stand-in compiler and container engine.
#include "src/Compiler/OMCompile.hpp"
#include "src/Compiler/Command.hpp"
#include "hx.hpp"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace onnx_mlir;
using hx::jstr;
namespace fs = std::filesystem;
static std::string hl(const std::vector<std::string> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jstr(v[i]); return o + "]"; }
template <class F> static std::string get(F f) { try { return jstr(f()); } catch (const std::runtime_error &) { return "\"<exc>\""; } }
static void set(const std::string &k, const std::string &v) { if (v == "~") unsetenv(k.c_str()); else setenv(k.c_str(), v.c_str(), 1); }
int main(int argc, char **argv) {
  hx::replyFile = fdopen(fcntl(1, F_DUPFD_CLOEXEC, 50), "w");
  std::unique_ptr<OMCompile> c; char b[4096]; std::string base = getcwd(b, sizeof b), rec = base + "/rec.txt";
  int fd = open("/dev/null", O_RDWR); dup2(fd, 1); if (!getenv("KEEP_ERR")) dup2(fd, 2);
  setenv("KID_REC", rec.c_str(), 1); setenv("KID_IMAGES", (base + "/images.txt").c_str(), 1);
  auto recs = [&] {
    std::ifstream f(rec); std::string l, o = "["; bool first = true;
    while (std::getline(f, l)) { auto x = hx::words(l); std::vector<std::string> v; for (size_t i = 0; i < x.size(); ++i) v.push_back(i == 0 || (x[0] == "cc" && i == 1) ? x[i] : hx::unhex(x[i])); o += (first ? "" : ",") + hl(v); first = false; }
    f.close(); unlink(rec.c_str()); return "\"recs\":" + o + "]";
  };
  auto getters = [&] {
    if (!c) return std::string("\"there\":0");
    return "\"there\":1,\"succ\":" + std::string(c->isSuccessfullyCompiled() ? "1" : "0") + ",\"has\":" + (c->hasOutputConstantFilename() ? "1" : "0") + ",\"out\":" + get([&] { return c->getOutputFilename(); }) +
           ",\"cst\":" + get([&] { return c->getOutputConstantFilename(); }) + ",\"tag\":" + get([&] { return c->getModelTag(); }) + ",\"eng\":" + jstr(c->getContainerEngineName()) +
           ",\"mode\":" + (c->getMode() == OMCompile::CompilationMode::Local ? "0" : "1");
  };
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0]; auto a = [&](size_t i) { return hx::unhex(w[i]); };
    if (op == "RESET") {
      c.reset(); if (chdir(base.c_str())) abort(); unlink(rec.c_str()); fs::remove(base + "/images.txt");
      for (auto k : {"KID_VERSION", "KID_DO", "KID_PARTIAL", "KID_NOOUT", "KID_CONST", "KID_PULL", "KID_RUN", "KID_BAD_docker", "KID_BAD_podman", "KID_PREFIX", "OM_DOCKER_HOST_PATH_PREFIX", "container"}) unsetenv(k);
      setenv("OM_DIND_DISABLE", "1", 1); hx::reply("{}"); return;
    }
    if (op == "env") { for (size_t i = 1; i + 1 < w.size(); i += 2) set(w[i], a(i + 1)); hx::reply("{" + recs() + "," + getters() + "}"); return; }
    if (op == "images") { std::ofstream f(base + "/images.txt"); for (size_t i = 1; i < w.size(); ++i) f << a(i) << "\n"; f.close(); hx::reply("{" + recs() + "," + getters() + "}"); return; }
    if (op == "cd") { if (chdir(a(1).c_str())) abort(); hx::reply("{" + recs() + "," + getters() + "}"); return; }
    if (op == "clean") {   // remove every output
      for (auto &e : fs::recursive_directory_iterator(base + "/w")) if (e.is_regular_file()) { auto x = e.path().extension(); if (x == ".so" || x == ".o" || x == ".jar" || x == ".bin" || e.path().string().find(".onnx.mlir") != std::string::npos) unlink(e.path().c_str()); }
      hx::reply("{" + recs() + "," + getters() + "}"); return;
    }
    std::string r = "\"exc\":0,\"msg\":\"\"";
    try {
      if (op == "local") { c.reset(); if (w[1] == "-" && w[2] == "0") c = std::make_unique<OMCompile>(); else c = std::make_unique<OMCompile>(a(1), w[2] == "1"); }
      else if (op == "cont") { c.reset(); c = std::make_unique<OMCompile>(a(1), a(2), w[3] == "docker" ? OMCompile::ContainerEngine::Docker : w[3] == "podman" ? OMCompile::ContainerEngine::Podman : OMCompile::ContainerEngine::Auto, w[4] == "1", w[5] == "1"); }
      else if (op == "compile") { if (c) c->compile(a(1), a(2), a(3), a(4), a(5)); }
      else { fprintf(stderr, "bad command %s\n", op.c_str()); exit(3); }
    } catch (const OMCompileException &e) { r = "\"exc\":1,\"msg\":" + jstr(e.what()); }
    catch (const std::exception &e) { r = "\"exc\":2,\"msg\":" + jstr(e.what()); }
    std::string log = "<none>";
    if (op == "compile" && w[5] != "-") { std::ifstream f(a(5)); if (f.good()) { std::stringstream s; s << f.rdbuf(); log = s.str(); } unlink(a(5).c_str()); }
    hx::reply("{" + r + "," + recs() + "," + getters() + ",\"log\":" + std::string(log.find("OUT;ERR;") != std::string::npos ? "1" : "0") + ",\"sock\":" + (fs::exists("/var/run/docker.sock") ? "1" : "0") + ",\"cwd\":" + jstr(getcwd(b, sizeof b)) + "}");
  });
}
