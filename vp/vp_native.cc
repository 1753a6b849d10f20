// Native side of the contract language: draws values, runs the harness on the
// real code, reports the first failing clause with the values that lead to it.
#ifndef VP_NATIVE
#define VP_NATIVE
#endif
#include "vp.h"

#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <exception>
#include <map>
#include <unordered_set>

namespace vp {
namespace {
struct Entry { const char* name; void (*f)(); };
std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
uint64_t g_state, g_hash;
void Drew(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }
bool g_verbose;
std::vector<uint64_t> g_recent;
std::map<std::string, int> g_covers;
uint64_t Mix() {
  uint64_t z = (g_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Shared { volatile uint64_t seed; volatile uint64_t runs, skipped, distinct; volatile int failed; char what[400]; };
Shared* g_sh;
double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void Seed(uint64_t s) { g_state = s * 0xD1342543DE82EF95ull + 12345; Mix(); Mix(); g_recent.clear(); g_hash = 1; }
// returns 0 ok, 1 skipped, 2 failed
int Once(void (*f)(), std::string* what) {
  try {
    f();
    return 0;
  } catch (Skip&) {
    return 1;
  } catch (Failed& e) {
    *what = e.name;
    return 2;
  } catch (std::exception& e) {
    *what = std::string("exception: ") + e.what();
    return 2;
  }
}
}  // namespace
uint64_t g_checks;
Reg::Reg(const char* n, void (*f)()) { table().push_back({n, f}); }
uint64_t draw64() { uint64_t r = Mix(); Drew(r); return r; }
uint64_t draw_below(uint64_t n) { uint64_t r = n == 0 ? 0 : Mix() % n; Drew(r); return r; }
static uint64_t Below(uint64_t n) { return Mix() % n; }
uint64_t draw_int(int bits) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  uint64_t r;
  switch (Below(12)) {
    case 0: r = 0; break;
    case 1: r = m; break;
    case 2: r = Below(4); break;
    case 3: r = m - Below(4); break;
    case 4: r = (1ull << Below(bits)) - Below(2); break;
    case 5: r = (m >> 1) + Below(3) - 1; break;
    case 6: r = Below(20); break;
    case 7: r = g_recent.empty() ? Mix() : g_recent[Below(g_recent.size())] + Below(3) - 1; break;
    case 8: r = Below(300); break;
    default: r = Mix(); break;
  }
  r &= m;
  Drew(r);
  if (g_recent.size() < 64) g_recent.push_back(r);
  return r;
}
void note(const char* name, const std::string& v) {
  if (!g_verbose) return;
  std::string s;
  for (unsigned char c : v.substr(0, 4000)) {
    char b[8];
    if (c >= 32 && c < 127) s += (char)c;
    else { snprintf(b, sizeof b, "\\x%02x", c); s += b; }
  }
  printf("  %s = %s\n", name, s.c_str());
  fflush(stdout);
}
void cover(const char* name) { g_covers[name]++; }
std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s = "0x";
  // little-endian integers are printed most significant byte first
  for (size_t i = n; i-- > 0;) { unsigned char c = ((const unsigned char*)p)[i]; s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") {
    for (auto& e : table()) printf("%s\n", e.name);
    return 0;
  }
  if (mode == "replay" && argc >= 4) {
    for (auto& e : table()) if (!strcmp(e.name, argv[2])) {
      g_verbose = true;
      Seed(strtoull(argv[3], nullptr, 10));
      std::string what;
      int r = Once(e.f, &what);
      if (r == 2) { printf("FAILED clause: %s\n", what.c_str()); return 1; }
      printf(r == 1 ? "precondition not met\n" : "all clauses hold\n");
      return 0;
    }
    return 3;
  }
  if (mode != "run" || argc < 6) return 3;
  // run <harness> <seed> <max runs> <seconds>
  void (*f)() = nullptr;
  for (auto& e : table()) if (!strcmp(e.name, argv[2])) f = e.f;
  if (!f) { printf("nosuch\n"); return 3; }
  uint64_t seed0 = strtoull(argv[3], nullptr, 10), maxruns = strtoull(argv[4], nullptr, 10);
  double end = Now() + atof(argv[5]);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    std::string what;
    std::unordered_set<uint64_t> seen;
    for (uint64_t i = 0; i < maxruns; ++i) {
      if (Now() > end) break;
      uint64_t s = seed0 * 1000003ull + i;
      g_sh->seed = s;
      Seed(s);
      if (Now() + 30 > end) alarm((unsigned)(end - Now()) + 60); else alarm(60);
      uint64_t before = g_checks;
      int r = Once(f, &what);
      g_sh->runs = g_sh->runs + 1;
      if (r == 0 && g_checks != before && seen.size() < 4000000 && seen.insert(g_hash).second) g_sh->distinct = g_sh->distinct + 1;
      if (r == 1) g_sh->skipped = g_sh->skipped + 1;
      if (r == 2) {
        g_sh->failed = 1;
        snprintf(g_sh->what, sizeof g_sh->what, "%s", what.c_str());
        break;
      }
    }
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  bool slow = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL);
  printf("RUNS %llu SKIPPED %llu\n", (unsigned long long)g_sh->runs, (unsigned long long)g_sh->skipped);
  printf("DISTINCT %llu\n", (unsigned long long)g_sh->distinct);
  if (slow) printf("SLOW %llu\n", (unsigned long long)g_sh->seed);
  else if (crashed) printf("FAIL %llu the code under check crashed or stopped (%s %d)\n", (unsigned long long)g_sh->seed, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  else if (g_sh->failed) printf("FAIL %llu %s\n", (unsigned long long)g_sh->seed, g_sh->what);
  return 0;
}
