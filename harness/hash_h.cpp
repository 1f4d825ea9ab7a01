// Tables from the compiler's PerfectHash, lookups by the runtime.
#include "hx.hpp"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
#include <csetjmp>
#include <csignal>
#include <memory>
#include <sys/time.h>
extern "C" {
uint64_t find_index_str(const char *str, const int32_t G[], const int32_t V[], int32_t dictSize);
uint64_t find_index_i64(int64_t val, const int32_t G[], const int32_t V[], int32_t dictSize);
}
static sigjmp_buf jb;
static void onAlarm(int) { siglongjmp(jb, 1); }
static void timer(int ms) {
  struct itimerval t = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
struct Exact { // exact-size copies: reads past the tables are caught
  int32_t *p; size_t n;
  template <class T> Exact(const T &v) : p((int32_t *)malloc(4 * v.size())), n(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
  ~Exact() { free(p); }
};
template <class K, class L> static void go(const std::vector<K> &keys, const std::vector<int64_t> &vals, int ms, L look) {
  auto *dict = new std::map<K, int32_t>();
  for (size_t i = 0; i < keys.size(); ++i) (*dict)[keys[i]] = (int32_t)vals[i];
  if (sigsetjmp(jb, 1)) { timer(0); hx::reply("{\"hang\":1}"); return; }
  timer(ms);
  auto *ph = new onnx_mlir::PerfectHash<K, int32_t>(*dict);
  timer(0);
  std::string s = "{\"hang\":0,\"G\":" + hx::jarr(ph->getG()) + ",\"V\":" + hx::jarr(ph->getV());
  Exact G(ph->getG()), V(ph->getV());
  std::vector<int64_t> a, b;
  for (auto &k : keys) a.push_back((int64_t)look(k, G.p, V.p, (int32_t)G.n));
  for (size_t i = keys.size(); i-- > 0;) b.insert(b.begin(), (int64_t)look(keys[i], G.p, V.p, (int32_t)G.n));
  for (auto &x : a) if (x > 1000000000) x = -7;
  for (auto &x : b) if (x > 1000000000) x = -7;
  hx::reply(s + ",\"look\":" + hx::jarr(a) + ",\"again\":" + hx::jarr(b) + "}");
  delete ph; delete dict;
}
int main() {
  signal(SIGVTALRM, onAlarm);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { hx::reply("{}"); return; }
    auto vals = hx::ints(w[2]); int ms = atoi(w[1].c_str());
    if (w[0] == "int") {
      go(hx::ints(w[3]), vals, ms, [](int64_t k, int32_t *G, int32_t *V, int32_t n) { return find_index_i64(k, G, V, n); });
    } else {
      static std::vector<std::string> store; store.clear();
      for (size_t i = 3; i < w.size(); ++i) store.push_back(hx::unhex(w[i]));
      std::vector<llvm::StringRef> keys;
      for (auto &s : store) keys.push_back(s);
      go(keys, vals, ms, [](llvm::StringRef k, int32_t *G, int32_t *V, int32_t n) {
        char *c = (char *)malloc(k.size() + 1); memcpy(c, k.data(), k.size()); c[k.size()] = 0;
        uint64_t r = find_index_str(c, G, V, n); free(c); return r; });
    }
  });
}
