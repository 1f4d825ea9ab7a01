// Execution sessions on stand-in model libraries, which call back vf_*.
#include "hx.hpp"
#include <cerrno>
#include <csignal>
#include "src/Runtime/ExecutionSession.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
#include "onnx-mlir/Runtime/OMTensorList.h"
using namespace onnx_mlir;
static std::vector<std::string> loaded, prints, ctor, ran;
static std::string mode; static int modeN; static int64_t stamp;
static std::string envNow() { const char *p = getenv("OM_CONSTANT_PATH"); return p ? p : "<unset>"; }
static std::string jl(const std::vector<std::string> &v, bool quote) {
  std::string o = "["; bool f = true;
  for (auto &x : v) { if (!f) o += ","; f = false; o += quote ? hx::jstr(x) : x; }
  return o + "]";
}
struct Off { bool b = hx::track; Off() { hx::track = false; } ~Off() { hx::track = b; } };
extern "C" __attribute__((visibility("default"))) void vf_ctor(const char *lib) {
  Off off;
  loaded.push_back(lib);
  ctor.push_back("{\"lib\":" + hx::jstr(lib) + ",\"path\":" + hx::jstr(envNow()) + "}");
}
extern "C" void vf_dtor(const char *lib) {
  Off off;
  for (size_t i = 0; i < loaded.size(); ++i) if (loaded[i] == lib) { loaded.erase(loaded.begin() + i); return; }
}
extern "C" void vf_print(const char *lib) { Off off; prints.push_back(lib); }
extern "C" OMTensorList *vf_run(const char *lib, const char *entry, OMTensorList *in) {
  {
    Off off;
    std::string s = "{\"lib\":" + hx::jstr(lib) + ",\"entry\":" + hx::jstr(entry) + ",\"ins\":[";
    for (int64_t i = 0; i < omTensorListGetSize(in); ++i) {
      OMTensor *t = omTensorListGetOmtByIndex(in, i);
      s += (i ? "," : "") + std::to_string(*(int64_t *)omTensorGetDataPtr(t));
    }
    ran.push_back(s + "]}");
  }
  if (mode == "null") { errno = modeN; return nullptr; }
  if (mode == "crash") {
    volatile int z = 0; volatile int *p = nullptr;
    switch (modeN) {
    case SIGSEGV: *p = 1; break;
    case SIGFPE: { volatile int x = 1; x = x / z; } break;
    case SIGILL: asm volatile("ud2"); break;
    case SIGABRT: abort();
    default: raise(modeN);
    }
  }
  std::vector<OMTensor *> outs(modeN);
  for (int i = 0; i < modeN; ++i) {
    int64_t sh[1] = {3};
    outs[i] = omTensorCreateEmpty(sh, 1, ONNX_TYPE_INT64);
    int64_t *d = (int64_t *)omTensorGetDataPtr(outs[i]);
    d[0] = i + 1; d[1] = omTensorListGetSize(in); d[2] = stamp;
  }
  errno = ENOENT; // a successful run may leave it set
  return omTensorListCreate(outs.data(), modeN);
}
static std::unique_ptr<ExecutionSession> S[3];
static const int SIGS[5] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
struct Snap {
  struct sigaction a[32]; sigset_t m;
  void take() { memset(a, 0, sizeof a); for (int s = 1; s < 32; ++s) sigaction(s, nullptr, &a[s]); sigprocmask(SIG_SETMASK, nullptr, &m); }
  bool same(const Snap &o) const {
    for (int s = 1; s < 32; ++s) {
      if (a[s].sa_handler != o.a[s].sa_handler || a[s].sa_flags != o.a[s].sa_flags) return false;
      for (int k = 1; k < 32; ++k) if (sigismember(&a[s].sa_mask, k) != sigismember(&o.a[s].sa_mask, k)) return false;
    }
    for (int k = 1; k < 32; ++k) if (sigismember(&m, k) != sigismember(&o.m, k)) return false;
    return true;
  }
};
static void h1(int) { _exit(41); }
static void h2(int, siginfo_t *, void *) { _exit(42); }
static struct sigaction orig[32];
static OMTensor *mk(int64_t v) {
  int64_t sh[1] = {1};
  OMTensor *t = omTensorCreateEmpty(sh, 1, ONNX_TYPE_INT64);
  *(int64_t *)omTensorGetDataPtr(t) = v;
  return t;
}
static std::string outJ(OMTensor *t) {
  int64_t *d = (int64_t *)omTensorGetDataPtr(t);
  return "[" + std::to_string(d[0]) + "," + std::to_string(d[1]) + "," + std::to_string(d[2]) + "]";
}
int main() {
  hx::installHeap();
  for (int s : SIGS) sigaction(s, nullptr, &orig[s]);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    std::string op = w[0];
    if (op == "RESET") {
      for (auto &s : S) s.reset();
      for (int s : SIGS) sigaction(s, &orig[s], nullptr);
      unsetenv("OM_CONSTANT_PATH");
      loaded.clear();
      hx::reply("{}");
      return;
    }
    if (op == "env") {
      if (w[1] == "unset") unsetenv("OM_CONSTANT_PATH"); else setenv("OM_CONSTANT_PATH", hx::unhex(w[1]).c_str(), 1);
      hx::reply("{}"); return;
    }
    if (op == "sigs") {
      for (int i = 0; i < 5; ++i) {
        struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask);
        switch (w[1][i]) {
        case 'd': a.sa_handler = SIG_DFL; break;
        case 'i': a.sa_handler = SIG_IGN; break;
        case 'h': a.sa_handler = h1; a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGUSR1); break;
        case 's': a.sa_sigaction = h2; a.sa_flags = SA_SIGINFO | SA_NODEFER; break;
        default: a = orig[SIGS[i]];
        }
        sigaction(SIGS[i], &a, nullptr);
      }
      hx::reply("{}"); return;
    }
    int k = atoi(w[1].c_str());
    prints.clear(); ctor.clear(); ran.clear();
    std::string r = "ok", v = "0", extra, msg;
    bool isRun = false;
    Snap before, after;
    before.take();
    try {
      if (op == "raw") S[k].reset(new ExecutionSession);
      else if (op == "new") S[k].reset(new ExecutionSession(hx::unhex(w[2]), hx::unhex(w[3]), w[4] == "1"));
      else if (op == "load") S[k]->loadModel(hx::unhex(w[2]), hx::unhex(w[3]), w[4] == "1");
      else if (op == "end") S[k].reset();
      else if (op == "set") S[k]->setEntryPoint(hx::unhex(w[2]));
      else if (op == "query") {
        int64_t n = -7;
        const char **e = (const char **)S[k]->queryEntryPoints(&n);
        std::vector<std::string> q;
        for (; *e; ++e) q.push_back(*e);
        v = jl(q, true); extra += ",\"n\":" + std::to_string(n);
      } else if (op == "insig") v = hx::jstr(S[k]->inputSignature());
      else if (op == "outsig") v = hx::jstr(S[k]->outputSignature());
      else if (op == "info") v = hx::jstr(S[k]->compilationInfo());
      else if (op == "path") v = hx::jstr(S[k]->getSharedLibPath());
      else if (op == "print") S[k]->printInstrumentation();
      else if (op == "fill") {
        std::string d[2];
        for (int j = 0; j < 2; ++j) {
          OMTensorList *t = S[k]->fillInputDebug(nullptr, nullptr, nullptr, nullptr, atoi(w[2].c_str()));
          OMTensor *x = omTensorListGetSize(t) == 1 ? omTensorListGetOmtByIndex(t, 0) : nullptr;
          v = "[\"none\"]";
          if (x && omTensorGetRank(x) == 2) {
            v = std::string("[\"") + (omTensorGetDataType(x) == ONNX_TYPE_INT64 ? "i64" : "?") + "\"," + std::to_string(omTensorGetShape(x)[0]) + "," + std::to_string(omTensorGetShape(x)[1]) + "]";
            d[j] = hx::hexs(omTensorGetDataPtr(x), omTensorGetBufferSize(x));
          }
          omTensorListDestroy(t);
        }
        extra += std::string(",\"again\":") + (d[0] == d[1] ? "1" : "0");
      } else if (op == "run") {
        isRun = true;
        mode = w[3]; modeN = atoi(w[4].c_str()); stamp = atoll(w[5].c_str());
        auto ins = hx::ints(w[6]);
        if (w[2] == "vec") {
          hx::heapReset();
          hx::Track t;
          try {
            std::vector<OMTensorUniquePtr> a;
            for (auto x : ins) a.emplace_back(mk(x), omTensorDestroy);
            std::vector<OMTensorUniquePtr> o = S[k]->run(std::move(a));
            Off off;
            v = "[";
            for (auto &x : o) v += (v.size() > 1 ? "," : "") + outJ(x.get());
            v += "]";
          } catch (ExecutionSessionException &e) { Off off; r = "error"; msg = std::string(e.what()).c_str(); }
          extra += ",\"ins\":1";
        } else {
          hx::heapReset();
          hx::Track t;
          std::vector<OMTensor *> a;
          for (auto x : ins) a.push_back(mk(x));
          OMTensorList *in = omTensorListCreate(a.data(), a.size());
          try {
            OMTensorList *o = w[2] == "list" ? S[k]->run(in) : S[k]->runDebug(in, w[2] == "dbg1");
            { Off off; v = "[";
              for (int64_t i = 0; i < omTensorListGetSize(o); ++i) v += (v.size() > 1 ? "," : "") + outJ(omTensorListGetOmtByIndex(o, i));
              v += "]"; }
            omTensorListDestroy(o);
          } catch (ExecutionSessionException &e) { Off off; r = "error"; msg = std::string(e.what()).c_str(); }
          { Off off;
            bool good = omTensorListGetSize(in) == (int64_t)ins.size();
            for (size_t i = 0; good && i < ins.size(); ++i) good = omTensorListGetOmtByIndex(in, i) == a[i] && *(int64_t *)omTensorGetDataPtr(a[i]) == ins[i];
            extra += std::string(",\"ins\":") + (good ? "1" : "0"); }
          omTensorListDestroy(in);
        }
      } else { fprintf(stderr, "bad %s\n", op.c_str()); exit(3); }
    } catch (ExecutionSessionException &e) { r = "error"; msg = e.what(); }
    catch (std::exception &e) { r = "foreign"; msg = e.what(); }
    if (isRun) {
      extra += ",\"live\":" + std::to_string(hx::liveTracked);
      std::string num = std::to_string(modeN);
      const char *txt = mode == "crash" ? strsignal(modeN) : strerror(modeN);
      bool named = msg.find(txt) != std::string::npos;
      for (size_t p = 0; (p = msg.find(num, p)) != std::string::npos; p += num.size())
        if (!(p && isdigit(msg[p - 1])) && !isdigit(msg[p + num.size()])) named = true;
      extra += std::string(",\"named\":") + (named ? "1" : "0");
    }
    after.take();
    hx::reply("{\"r\":\"" + r + "\",\"v\":" + v + ",\"env\":" + hx::jstr(envNow()) + ",\"sig\":" + (before.same(after) ? "1" : "0") +
              ",\"loaded\":" + jl(loaded, true) + ",\"ctor\":" + jl(ctor, false) + ",\"prints\":" + jl(prints, true) + ",\"ran\":" + jl(ran, false) + ",\"msg\":" + hx::jstr(msg.substr(0, 200)) + extra + "}");
  });
}
