// Shared by the replay drivers: seeded randomness, the history of the current case, crash capture.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <chrono>
#include <string>
#include <unistd.h>
#include <set>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  unsigned below(uint64_t n) { return n ? (unsigned)(next() % n) : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
};

static char g_hist[1 << 20];
static size_t g_len = 0;
static unsigned long long g_evals = 0, g_distinct = 0;
static std::set<uint64_t> g_seen;

static inline void hist_reset() { g_len = 0; g_hist[0] = 0; }
template <typename... A> static void hist(const char* f, A... a)
{
  if (g_len + 200 >= sizeof g_hist) return;
  int n = snprintf(g_hist + g_len, sizeof g_hist - g_len, f, a...);
  if (n > 0) g_len += n;
  if (g_len >= sizeof g_hist) g_len = sizeof g_hist - 1;
}
static void out(const char* s, size_t n) { while (n) { ssize_t k = write(1, s, n); if (k <= 0) break; s += k; n -= k; } }
[[noreturn]] static void fail(const std::string& what)
{
  std::string m = "FAIL " + what + "\n--- history of the failing case\n";
  out(m.c_str(), m.size()); out(g_hist, g_len); out("\n", 1);
  _exit(1);
}
static void on_signal(int s)
{
  const char* n = s == SIGABRT ? "FAIL the code aborted (assertion or trap)" : s == SIGSEGV ? "FAIL the code crashed (invalid memory access)" : s == SIGALRM ? "FAIL an operation does not terminate" : "FAIL the code crashed";
  out(n, strlen(n)); out("\n--- history of the failing case\n", 33); out(g_hist, g_len); out("\n", 1);
  _exit(1);
}
static void capture()
{
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGTRAP}) signal(s, on_signal);
}
static void case_done()
{
  g_evals++;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < g_len; i++) h = (h ^ (unsigned char)g_hist[i]) * 1099511628211ull;
  if (g_seen.size() < 2000000 && g_seen.insert(h).second) g_distinct++;
}
struct Budget {
  std::chrono::steady_clock::time_point end;
  explicit Budget(double s) { end = std::chrono::steady_clock::now() + std::chrono::microseconds((long)(s * 1e6)); }
  bool left() const { return std::chrono::steady_clock::now() < end; }
};
static std::string g_sample;
static int done()
{
  printf("OK evaluations=%llu distinct=%llu\n", g_evals, g_distinct);
  printf("SAMPLE %s\n", g_sample.c_str());
  return 0;
}
static void keep_sample() { if (g_sample.size() < 40 || g_sample.size() > 1500) { g_sample.assign(g_hist, g_len > 1000 ? 1000 : g_len); for (char& c : g_sample) if (c == '\n') c = ' '; } }
