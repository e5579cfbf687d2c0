// Reporting protocol shared by all drivers.
//   FAIL <key> | <detail>      a property was observed to be violated
//   EVAL <n> / NONTRIVIAL <n>  monitored events
//   SAMPLE <text>, STAT <k> <v>
// The python side decides (known finding / violation / evidence).
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <string>

namespace mon
{
  inline std::map<std::string, long> &fails()
  {
    static std::map<std::string, long> f;
    return f;
  }
  inline std::mutex &mtx()
  {
    static std::mutex m;
    return m;
  }
  inline long &evals()
  {
    static long n = 0;
    return n;
  }
  inline long &nontriv()
  {
    static long n = 0;
    return n;
  }
  inline void fail(const std::string &key, const char *fmt, ...)
  {
    std::lock_guard<std::mutex> l(mtx());
    long &n = fails()[key];
    if (++n <= 3) {
      char buf[1500];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      for (char *c = buf; *c; ++c)
        if (*c == '\n')
          *c = ' ';
      printf("FAIL %s | %s\n", key.c_str(), buf);
      fflush(stdout);
    }
  }
  inline void stat(const std::string &key, double v)
  {
    printf("STAT %s %.17g\n", key.c_str(), v);
  }
  inline void sample(const char *fmt, ...)
  {
    static int n = 0;
    if (n++ >= 4)
      return;
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    printf("SAMPLE %s\n", buf);
  }
  inline void finish()
  {
    printf("EVAL %ld\nNONTRIVIAL %ld\n", evals(), nontriv());
    for (auto &p : fails())
      printf("FAILCOUNT %s %ld\n", p.first.c_str(), p.second);
    printf("DONE\n");
    fflush(stdout);
  }

  // splitmix64 based generator: identical on every platform and rank
  struct Rng {
    unsigned long long s;
    explicit Rng(unsigned long long seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    unsigned long long u64()
    {
      unsigned long long z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    double lg(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    int i(int a, int b) { return a + int(u64() % (unsigned long long)(b - a + 1)); }
    double sgn() { return (u64() & 1) ? 1. : -1.; }
    double normal()
    {
      double a = u(), b = u();
      return std::sqrt(-2. * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b);
    }
  };
} // namespace mon
