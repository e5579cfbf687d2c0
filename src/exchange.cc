/*
 * What an exchange sends is read by code the race detector sees: the entry
 * point of the ghost exchange is wrapped, the entries to be sent are read, and
 * the library's function is called.
 */
#include <deal.II/lac/la_parallel_vector.h>

#include <dlfcn.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>

namespace
{
  std::atomic<long> n_exchange{0}, n_entries{0}, n_background{0};
  const pthread_t main_thread = pthread_self();

  struct Report {
    ~Report()
    {
      const char *s = getenv("VERIF_EXCHANGE_STATS");
      if (!s)
        return;
      if (FILE *f = fopen(s, "a")) {
        fprintf(f, "%ld %ld %ld\n", n_exchange.load(), n_entries.load(), n_background.load());
        fclose(f);
      }
    }
  } report;

  template <typename V>
  void look(const V &v, const char *symbol, const unsigned int channel)
  {
    using F = void (*)(const V *, unsigned int);
    static const F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, symbol));
    n_exchange.fetch_add(1, std::memory_order_relaxed);
    if (!pthread_equal(pthread_self(), main_thread))
      n_background.fetch_add(1, std::memory_order_relaxed);
    volatile double sink = 0;
    long n = 0;
    for (const auto &r : v.get_partitioner()->import_indices())
      for (unsigned int i = r.first; i < r.second; ++i, ++n)
        sink = v.begin()[i];
    n_entries.fetch_add(n, std::memory_order_relaxed);
    if (!f)
      abort();
    f(&v, channel);
  }
} // namespace

namespace dealii
{
  namespace LinearAlgebra
  {
    namespace distributed
    {
      template <>
      void Vector<double, MemorySpace::Host>::update_ghost_values_start(const unsigned int channel) const
      {
        look(*this, "_ZNK6dealii13LinearAlgebra11distributed6VectorIdNS_11MemorySpace4HostEE25update_ghost_values_startEj", channel);
      }
    } // namespace distributed
  }   // namespace LinearAlgebra
} // namespace dealii
