/*
 * Shared machinery of the thread-parallel regions under a race detector:
 * initialisation on demand, and the trigger of the asynchronous exchange.
 */
#include <lazy.h>
#include <openmp.h>

#include <time.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

namespace
{
  unsigned long rng = 1;
  unsigned long rnd()
  {
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng >> 11;
  }

  std::atomic<long> evals{0}, nontriv{0}, n_fail{0};

  void fail(const char *key, const std::string &what)
  {
    if (n_fail++ < 20)
      printf("FAIL %s | %s\n", key, what.c_str());
  }

  void nap(unsigned long ns)
  {
    timespec t{0, long(ns)};
    nanosleep(&t, nullptr);
  }

  struct Payload {
    std::vector<long> data;
    long sum;
  };

  void lazy(int reps)
  {
    for (int r = 0; r < reps; ++r) {
      ryujin::Lazy<Payload> object;
      const long stamp = long(rnd() % 1000000);
      const int size = 1 + int(rnd() % 64);
      const unsigned long wait = rnd() % 3 == 0 ? rnd() % 50000 : 0;
      for (int round = 0; round < 2; ++round) {
        std::atomic<int> made{0}, bad{0}, late{0};
        RYUJIN_PARALLEL_REGION_BEGIN
        const bool before = object.has_value();
        object.ensure_initialized([&]() {
          made.fetch_add(1, std::memory_order_relaxed);
          Payload p;
          for (int i = 0; i < size; ++i)
            p.data.push_back(stamp + round + i);
          if (wait)
            nap(wait);
          p.sum = stamp + round;
          return p;
        });
        if (!before)
          late.fetch_add(1, std::memory_order_relaxed);
        if (!object.has_value())
          bad.fetch_add(1, std::memory_order_relaxed);
        else {
          const auto &v = const_cast<const ryujin::Lazy<Payload> &>(object).value();
          bool ok = v.sum == stamp + round && long(v.data.size()) == size;
          for (int i = 0; ok && i < size; ++i)
            ok = v.data[i] == stamp + round + i;
          if (!ok)
            bad.fetch_add(1, std::memory_order_relaxed);
        }
        RYUJIN_PARALLEL_REGION_END
        if (made != 1)
          fail("C12/lazy-once", "initialised " + std::to_string(made.load()) + " times");
        if (bad != 0)
          fail("C12/lazy-value", std::to_string(bad.load()) + " threads saw another value");
        ++evals;
        if (late > 1)
          ++nontriv;
        /* copies are initialised, independent objects; reset ones are not */
        ryujin::Lazy<Payload> other(object), third;
        third = object;
        object.reset();
        if (object.has_value() || !other.has_value() || !third.has_value() || other.value().sum != stamp + round ||
            third.value().sum != stamp + round)
          fail("C12/lazy-copy", "copy or reset");
        int again = 0;
        other.ensure_initialized([&]() {
          ++again;
          return Payload();
        });
        if (again)
          fail("C12/lazy-once", "a copy is initialised again");
        ryujin::Lazy<Payload> moved(std::move(other));
        if (other.has_value() || !moved.has_value() || moved.value().sum != stamp + round)
          fail("C12/lazy-copy", "move");
      }
    }
  }

  /* rows written, then sent as soon as the last thread has passed the rows to send */
  void dispatch(int reps)
  {
    for (int r = 0; r < reps; ++r) {
      const int n = 1 + int(rnd() % 120);
      const int n_serial = int(rnd() % (n + 1));
      const int n_export = int(rnd() % (n_serial + 1));
      const int loops = 1 + int(rnd() % 2);
      std::vector<long> row(n, 0);
      std::atomic<int> sent{0}, wrong{0};
      const long stamp = long(rnd() % 1000) + 1;
      std::atomic<int> early{0};
      bool finished = false;
      {
        ryujin::SynchronizationDispatch d([&]() {
          sent.fetch_add(1, std::memory_order_relaxed);
          for (int i = 0; i < n_export; ++i)
            if (row[i] != stamp + i)
              wrong.fetch_add(1, std::memory_order_relaxed);
          /* whatever lies behind is not looked at */
        });
        RYUJIN_PARALLEL_REGION_BEGIN
        bool thread_ready = false;
        auto part = [&](int a, int b) {
          RYUJIN_OMP_FOR_NOWAIT
          for (int i = a; i < b; ++i) {
            d.check(thread_ready, i >= n_export && i < n_serial);
            if (i % 7 == 0)
              nap(20000);
            row[i] = stamp + i;
          }
        };
        if (loops == 2)
          part(n_serial, n);
        part(0, n_serial);
        RYUJIN_PARALLEL_REGION_END
        if (sent == 1)
          early = 1;
        finished = true;
      }
      ++evals;
      if (early)
        ++nontriv;
      if (sent != 1)
        fail("C12/dispatch-once", "sent " + std::to_string(sent.load()) + " times, rows " + std::to_string(n) + ", to send " +
                                      std::to_string(n_export));
      if (wrong != 0)
        fail("C12/dispatch-early", std::to_string(wrong.load()) + " rows sent before they were written");
    }
  }

  /* same, the order of rows the solver uses: a thread meets the rows to send first */
} // namespace

int main(int argc, char **argv)
{
  const int reps = argc > 2 ? atoi(argv[2]) : 100;
  rng = 0x9E3779B97F4A7C15ul * (argc > 1 ? atoi(argv[1]) + 1 : 1);
  for (int i = 0; i < 10; ++i)
    rnd();
  lazy(reps);
  dispatch(reps);
  printf("EVAL %ld\nNONTRIVIAL %ld\nDONE\n", evals.load(), nontriv.load());
  return 0;
}
