// External constants: real loader over scratch files, with injected faults.
#include "hx.hpp"
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/resource.h>
static std::string fault = "none";
extern "C" {
bool omLoadConstantData(void **constAddr, char *fname, int64_t size, int64_t isLE);
void omGetExternalConstantAddr(void **outputAddr, void **baseAddr, int64_t offset);
bool omUnloadConstantData(void **constAddr, int64_t size);
// stand-ins for the system calls the loader makes
static long nmaps = 0;
void *vf_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fault == "map") { errno = ENOMEM; return MAP_FAILED; }
  void *r = mmap(a, n, pr, fl, fd, o); if (r != MAP_FAILED) ++nmaps; return r; }
int vf_munmap(void *a, size_t n) { int r = munmap(a, n); if (r == 0) --nmaps; return r; }
ssize_t vf_read(int fd, void *b, size_t n) {
  static int k = 0; ++k;
  if (fault == "map") { errno = EIO; return -1; }
  if (n > 1 && k % 3) n = n / 2 + 1;                 // short reads
  return read(fd, b, n); }
}
static const int64_t SIZE = 5000;
static unsigned char pat(const std::string &loc, const std::string &kind, int64_t i) {
  return (unsigned char)(i * 31 + (i >> 8) * 7 + (loc == "dir" ? 101 : 3) + (kind == "big" ? 57 : 0)); }
static int countFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int main(int argc, char **argv) {
  std::string root = argv[1] + std::string("/") + std::to_string(getpid());
  bool le = true; // x86
  mkdir(root.c_str(), 0700); mkdir((root + "/sub").c_str(), 0700); mkdir((root + "/cwd").c_str(), 0700);
  if (chdir((root + "/cwd").c_str())) return 3;
  freopen("/dev/null", "w", stderr); setvbuf(stderr, nullptr, _IONBF, 0); fprintf(stderr, "%s %d\n", "x", 1);
  hx::installHeap();
  void *base[4]; void *out[4][16];
  int fds0 = 0;
  auto path = [&](const std::string &loc) { return loc == "dir" ? root + "/sub/c.bin" : root + "/cwd/c.bin"; };
  auto rm = [&](const std::string &loc) { unlink(path(loc).c_str()); rmdir(path(loc).c_str()); };
  auto obs = [&](int ret) {
    std::string s = "{\"ret\":" + std::to_string(ret) + ",\"fds\":" + std::to_string(countFds() - fds0) + ",\"maps\":" + std::to_string(nmaps) +
                    ",\"heap\":" + std::to_string(hx::liveTracked) + ",\"m\":[";
    for (int m = 0; m < 4; ++m) {
      std::string what = "-";
      if (base[m]) {
        what = "bad";
        for (auto loc : {"cwd", "dir"}) for (auto k : {"good", "big"}) {
          bool eq = true;
          for (int64_t i = 0; i < SIZE && eq; ++i) eq = ((unsigned char *)base[m])[i] == pat(loc, k, i);
          if (eq) what = std::string(loc) + "/" + k;
        }
      }
      s += std::string(m ? "," : "") + "{\"buf\":\"" + what + "\",\"res\":[";
      bool f = true;
      for (int c = 0; c < 16; ++c) if (out[m][c]) { if (!f) s += ","; f = false; s += base[m] ? std::to_string((char *)out[m][c] - (char *)base[m]) : "-1"; }
      s += "]}";
    }
    hx::reply(s + "]}");
  };
  auto reset = [&]() {
    for (int m = 0; m < 4; ++m) { if (base[m]) omUnloadConstantData(&base[m], SIZE); base[m] = nullptr; for (auto &o : out[m]) o = nullptr; }
    rm("cwd"); rm("dir"); unsetenv("OM_CONSTANT_PATH"); fault = "none";
  };
  memset(base, 0, sizeof base); memset(out, 0, sizeof out);
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    if (w[0] == "RESET") { reset(); fds0 = countFds(); obs(-1); return; }
    if (w[0] == "file") {
      std::string p = path(w[1]), k = w[2];
      rm(w[1]); // mappings keep the old file
      if (k == "folder") mkdir(p.c_str(), 0700);
      else if (k != "none") {
        int64_t n = k == "short" ? SIZE - 1 : k == "empty" ? 0 : k == "big" ? SIZE + 77 : SIZE;
        std::string s; for (int64_t i = 0; i < n; ++i) s += (char)pat(w[1], k, i);
        FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f);
      }
      obs(-1);
    } else if (w[0] == "path") {
      if (w[1] == "unset") unsetenv("OM_CONSTANT_PATH");
      else setenv("OM_CONSTANT_PATH", (w[1] == "dir" ? root + "/sub" : root + "/nowhere").c_str(), 1);
      obs(-1);
    } else if (w[0] == "load") {
      int m = atoi(w[1].c_str()); int64_t sz = w[2] == "ok" ? SIZE : w[2] == "zero" ? 0 : -SIZE;
      fault = w[4]; char name[] = "c.bin"; bool r;
      struct rlimit rl, none = {0, 0}; getrlimit(RLIMIT_NOFILE, &rl); none.rlim_max = rl.rlim_max;
      if (fault == "open") setrlimit(RLIMIT_NOFILE, &none);   // every open fails
      { hx::Track t; r = omLoadConstantData(&base[m], name, sz, (w[3] == "1") == le); }
      setrlimit(RLIMIT_NOFILE, &rl);
      fault = "none"; obs(r);
    } else if (w[0] == "resolve") {
      int m = atoi(w[1].c_str()); int64_t o = atoll(w[2].c_str());
      { hx::Track t; omGetExternalConstantAddr(&out[m][o % 16], &base[m], o); }
      obs(-1);
    } else if (w[0] == "unload") {
      int m = atoi(w[1].c_str()); bool r;
      { hx::Track t; r = omUnloadConstantData(&base[m], SIZE); }
      for (auto &o : out[m]) o = nullptr;   // the model's own variables go with it
      obs(r);
    } else if (w[0] == "null") {
      void *z = nullptr; char name[] = "c.bin"; int r = 0;
      hx::Track t;
      if (w[1] == "load") r = omLoadConstantData(nullptr, name, SIZE, 1);
      else if (w[1] == "unload") r = omUnloadConstantData(nullptr, SIZE) || omUnloadConstantData(&z, SIZE);
      else if (w[1] == "out") omGetExternalConstantAddr(nullptr, &base[0], 0);
      else { omGetExternalConstantAddr(&z, nullptr, 8); r = z != nullptr; }
      obs(r);
    } else exit(3);
  });
  reset();
  std::string c = "rm -rf " + root; if (chdir("/")) {} if (system(c.c_str())) {}
}
