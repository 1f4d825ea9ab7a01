// Command: arguments, directory, log, outcome.  Runs in a scratch directory.
#include "src/Compiler/Command.hpp"
#include "hx.hpp"
#include <fcntl.h>
#include <memory>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
using namespace onnx_mlir;
using hx::jstr;
static std::string slurp(const std::string &p, bool &there) { std::ifstream f(p); there = f.good(); std::stringstream s; s << f.rdbuf(); return s.str(); }
static int cnt(const std::string &h, const std::string &n) { int c = 0; for (size_t p = 0; (p = h.find(n, p)) != std::string::npos; p += n.size()) ++c; return c; }
static void onAlarm(int) {}
static std::string hl(const std::vector<std::string> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jstr(v[i]); return o + "]"; }
int main() {
  hx::replyFile = fdopen(fcntl(1, F_DUPFD_CLOEXEC, 50), "w");
  std::unique_ptr<Command> c; char b[4096]; std::string base = getcwd(b, sizeof b);
  std::string own = base + "/own.txt", rec = base + "/rec.txt";
  int fd = open(own.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
  setenv("KID_OUT", rec.c_str(), 1);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0];
    auto st = [&] { return std::string("{\"args\":") + (c ? hl(c->getArgs()) : "[]") + "}"; };
    if (op == "RESET") { c.reset(); if (chdir(base.c_str())) abort(); hx::reply(st()); return; }
    if (op == "new") {
      try { c.reset(); c = std::make_unique<Command>(hx::unhex(w[1]), w[2] == "1"); hx::reply(st()); }
      catch (const CommandException &) { hx::reply("{\"exc\":1}"); }
      return;
    }
    if (op == "app") { c->appendStr(hx::unhex(w[1])); hx::reply(st()); return; }
    if (op == "list") { std::vector<std::string> v; for (size_t i = 1; i < w.size(); ++i) v.push_back(hx::unhex(w[i])); c->appendList(v); hx::reply(st()); return; }
    if (op == "reset") { c->resetArgs(); hx::reply(st()); return; }
    if (op == "redir") { c->redirectExecStreams(hx::unhex(w[1])); hx::reply(st()); return; }
    if (op == "cd") { if (chdir(hx::unhex(w[1]).c_str())) abort(); hx::reply(st()); return; }
    // exec WDIR WHAT N ALARM PENDING LOG
    if (op == "exec") {
      setenv("KID_DO", (w[2] + " " + w[3]).c_str(), 1);
      unlink(rec.c_str()); (void)!ftruncate(1, 0);
      if (w[4] == "1") {
        struct sigaction a = {}; a.sa_handler = onAlarm; sigaction(SIGALRM, &a, 0);
        setenv("KID_MS", "60", 1); struct itimerval t = {{0, 0}, {0, 15000}}; setitimer(ITIMER_REAL, &t, 0);
      } else unsetenv("KID_MS");
      if (w[5] == "1") printf("PENDING\n");
      std::string r;
      try { r = "\"rc\":" + std::to_string(c->exec(hx::unhex(w[1]))); }
      catch (const CommandException &e) {
        std::string m = e.what(), nm = w[2] == "sig" ? sigabbrev_np(atoi(w[3].c_str())) : "", nu = w[3];
        r = std::string("\"rc\":-1,\"named\":") + (w[2] == "sig" && (m.find("SIG" + nm) != m.npos || m.find(nu) != m.npos) ? "1" : "0");
      } catch (const std::exception &) { r = "\"rc\":-2"; }
      struct itimerval z = {}; setitimer(ITIMER_REAL, &z, 0);
      fflush(stdout);
      bool there; std::string o = slurp(own, there), rr = slurp(rec, there);
      std::vector<std::string> argv; std::string cwd = ""; int runs = cnt(rr, "run");
      { auto x = hx::words(rr); bool at = false; for (size_t i = 1; i < x.size() && x[i] != "run"; ++i) { if (x[i] == "@") at = true; else if (at) cwd = hx::unhex(x[i]); else argv.push_back(hx::unhex(x[i])); } }
      std::string log = hx::unhex(w[6]), lt; bool lthere = false; if (!log.empty()) lt = slurp(log, lthere);
      hx::reply("{" + r + ",\"runs\":" + std::to_string(runs) + ",\"argv\":" + hl(argv) + ",\"cwd\":" + jstr(cwd) + ",\"pcwd\":" + jstr(getcwd(b, sizeof b) ? b : "?") + ",\"pend\":" + std::to_string(cnt(o, "PENDING")) +
                ",\"own\":" + std::to_string(cnt(o, "OUT;ERR;END\n")) + ",\"ownany\":" + std::to_string(cnt(o, "OUT;") + cnt(o, "ERR;")) + ",\"log\":" + jstr(lthere ? lt : "<none>") + ",\"args\":" + hl(c->getArgs()) + "}");
      return;
    }
    fprintf(stderr, "bad command %s\n", op.c_str()); exit(3);
  });
}
