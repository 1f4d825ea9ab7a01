// Instrumentation runtime: points, prints and environment; new report text.
#include "hx.hpp"
#include "onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
#include "onnx-mlir/Runtime/OMInstrument.h"
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>
extern "C" {
extern const char *OMCurrentOpName, *OMCurrentNodeName;
extern int64_t OMCurrentTag;
}
static std::string dir;
static long pos[3];
static std::string names[64];
static char *nm(int i) { return &names[i][0]; }
static std::string tail(const std::string &f, long &p) {
  FILE *h = fopen(f.c_str(), "r");
  if (!h) return "";
  fseek(h, p, SEEK_SET);
  std::string s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  p += s.size();
  fclose(h);
  return s;
}
int main(int argc, char **argv) {
  dir = argv[1] + std::string("/") + std::to_string(getpid());
  if (system(("mkdir -p " + dir).c_str())) return 3;
  hx::replyFile = fdopen(dup(1), "w");
  std::string so = dir + "/stdout", fa = dir + "/A", fb = dir + "/B";
  freopen(so.c_str(), "w", stdout);
  for (int i = 0; i < 60; ++i) {
    std::string s = i < 20 ? "op" + std::to_string(i) : "node/with space." + std::to_string(i - 20);
    if (i == 18) s = std::string(63, 'o');
    if (i == 38) s = std::string(511, 'n');
    names[i] = s;
  }
  names[19] = names[0];  // equal text, another address
  names[39] = names[20];
  struct rlimit rl = {128, 128};
  setrlimit(RLIMIT_NOFILE, &rl);
  auto obs = [&](bool flush) {
    if (flush) fflush(nullptr);
    std::string o = "{\"s\":" + hx::jstr(tail(so, pos[0])) + ",\"A\":" + hx::jstr(tail(fa, pos[1])) + ",\"B\":" + hx::jstr(tail(fb, pos[2]));
    auto ix = [&](const char *p) { for (int i = 0; i < 60; ++i) if (p == names[i].c_str()) return i; return p ? -2 : -1; };
    o += ",\"cop\":" + std::to_string(ix(OMCurrentOpName)) + ",\"cnode\":" + std::to_string(ix(OMCurrentNodeName)) +
         ",\"ctag\":" + std::to_string((int)(OMCurrentTag & 0x1f)) + "}";
    hx::reply(o);
  };
  auto point = [&](int o, int n, int bits, int cuto, int cutn) {
    uint64_t t = bits;
    int lo = names[o].size() - cuto, ln = names[n].size() - cutn;
    t |= (uint64_t)(lo < 0 ? 0 : lo) << 8; t |= (uint64_t)(ln < 0 ? 0 : ln) << 24;
    OMInstrumentPoint(nm(o), (int64_t)t, nm(n));
  };
  hx::loop([&](const std::vector<std::string> &w, const std::string &l) {
    auto I = [&](int i) { return atoi(w[i].c_str()); };
    if (w[0] == "RESET") {
      omInstrumentPrint(); fflush(nullptr);
      tail(so, pos[0]);
      unlink(fa.c_str()); unlink(fb.c_str()); pos[1] = pos[2] = 0;
      for (auto v : {"ONNX_MLIR_NO_INSTRUMENT", "ONNX_MLIR_NO_INSTRUMENT_TIME", "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "ONNX_MLIR_INSTRUMENT_FILE"}) unsetenv(v);
      hx::reply("{}");
      return;
    }
    if (w[0] == "env") { // env NAME value|-
      std::string v = w[2];
      if (w[1] == "ONNX_MLIR_INSTRUMENT_FILE") v = v == "A" ? fa : v == "B" ? fb : v == "bad" ? dir + "/no/such" : v;
      if (w[2] == "-") unsetenv(w[1].c_str()); else setenv(w[1].c_str(), v.c_str(), 1);
      obs(true);
    } else if (w[0] == "init") { // PointInit with or without info
      static const char info[] = "{info}";
      OMInstrumentPointInit(0, I(1) ? info : nullptr);
      obs(true);
    } else if (w[0] == "point") {
      point(I(1), I(2), I(3), I(4), I(5));
      obs(true);
    } else if (w[0] == "many") { // k times before/after over nodes 20..37
      for (int i = 0; i < I(1); ++i) { point(0, 20 + i % 18, 4 | 1, 0, 0); point(0, 20 + i % 18, 4 | 2, 0, 0); }
      obs(true);
    } else if (w[0] == "print") { omInstrumentPrint(); obs(false); }
    else if (w[0] == "getfile") { getInstrumentFile(I(1)); obs(true); }
    else exit(3);
  });
  system(("rm -rf " + dir).c_str());
}
