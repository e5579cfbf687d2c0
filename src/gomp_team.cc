/*
 * A thread team whose synchronisation is visible to ThreadSanitizer.
 *
 * Implements the interface the compiler emits for OpenMP constructs with
 * semaphores and barriers known to the race detector and nothing else: the
 * only ordering between threads is the one the constructs guarantee (fork,
 * join, barriers, critical sections). This file is compiled without
 * instrumentation, its own bookkeeping orders nothing. Threads are delayed
 * at random where they may be.
 */
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>

namespace
{
  struct WorkShare {
    std::atomic<long> next{0}, chunk{1}, end{0}, incr{1}, start{0};
    std::atomic<int> state{0};
    void *copy = nullptr;
  };
  constexpr int n_shares = 4096;

  struct Team {
    unsigned n = 1;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    pthread_barrier_t barrier;
    std::atomic<long> singles[n_shares];
    WorkShare shares[n_shares];
    std::atomic<int> used{0};
  };

  struct Context {
    Team *team = nullptr;
    unsigned id = 0;
    long single = 0, loop = 0;
    unsigned long rng = 88172645463325252ul;
  };
  thread_local Context me;

  std::atomic<long> n_regions{0}, n_barriers{0}, n_singles{0}, n_delays{0}, n_nested{0}, n_foreign{0}, n_orders{0};
  std::atomic<unsigned long> arrival{0};
  std::atomic<unsigned long> seen[1024];

  unsigned wanted()
  {
    static const unsigned n = [] {
      const char *s = getenv("VERIF_TEAM");
      const int k = s ? atoi(s) : 4;
      return unsigned(k < 1 ? 1 : k > 16 ? 16 : k);
    }();
    return n;
  }

  unsigned long random_number()
  {
    auto &x = me.rng;
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    return x;
  }

  void delay()
  {
    static const unsigned long seed = getenv("VERIF_TEAM_SEED") ? strtoul(getenv("VERIF_TEAM_SEED"), nullptr, 10) : 1;
    if (me.rng == 88172645463325252ul)
      me.rng += (seed * 977 + me.id) * 0x9E3779B97F4A7C15ul;
    const auto r = random_number() >> 20;
    if (r % 16 == 0) {
      timespec t{0, long(r / 16 % 150) * 1000};
      nanosleep(&t, nullptr);
      n_delays.fetch_add(1, std::memory_order_relaxed);
    }
  }

  struct Report {
    ~Report()
    {
      const char *s = getenv("VERIF_TEAM_STATS");
      if (!s)
        return;
      if (FILE *f = fopen(s, "a")) {
        fprintf(f, "%ld %ld %ld %ld %ld %ld %ld %u\n", n_regions.load(), n_barriers.load(), n_singles.load(), n_delays.load(),
                n_nested.load(), n_foreign.load(), n_orders.load(), wanted());
        fclose(f);
      }
    }
  } report;

  /* the order in which threads enter the regions, for the record */
  void arrive(Team &t, unsigned long site)
  {
    const unsigned long a = arrival.fetch_add(1, std::memory_order_relaxed);
    unsigned long h = (site * 31 + me.id) * 0x9E3779B97F4A7C15ul + (a % t.n);
    h ^= h >> 29;
    if (seen[h % 1024].exchange(h, std::memory_order_relaxed) != h)
      n_orders.fetch_add(1, std::memory_order_relaxed);
  }

  void execute(Team &t, unsigned id)
  {
    const Context old = me;
    me.team = &t;
    me.id = id;
    me.single = me.loop = 0;
    delay();
    arrive(t, (unsigned long)t.fn);
    t.fn(t.data);
    const auto rng = me.rng;
    me = old;
    me.rng = rng;
  }

  struct Worker {
    sem_t start, done;
    Team *team;
    unsigned id;
    pthread_t thread;
  };

  void *loop(void *p)
  {
    auto &w = *static_cast<Worker *>(p);
    while (true) {
      while (sem_wait(&w.start))
        ;
      execute(*w.team, w.id);
      sem_post(&w.done);
    }
    return nullptr;
  }

  /* every thread that opens regions has a team of its own */
  struct Pool {
    std::vector<Worker *> workers;
    Team team;
  };

  thread_local Pool *pool = nullptr;

  void run(void (*fn)(void *), void *data, unsigned n)
  {
    n_regions.fetch_add(1, std::memory_order_relaxed);
    if (!pool) {
      static std::atomic<int> first{0};
      if (first.fetch_add(1))
        n_foreign.fetch_add(1, std::memory_order_relaxed);
      pool = new Pool;
    }
    while (pool->workers.size() + 1 < n) {
      auto w = new Worker;
      sem_init(&w->start, 0, 0);
      sem_init(&w->done, 0, 0);
      w->id = pool->workers.size() + 1;
      w->team = &pool->team;
      pthread_create(&w->thread, nullptr, loop, w);
      pthread_detach(w->thread);
      pool->workers.push_back(w);
    }
    Team &t = pool->team;
    t.n = n;
    t.fn = fn;
    t.data = data;
    pthread_barrier_init(&t.barrier, nullptr, n);
    for (auto &s : t.singles)
      s.store(0, std::memory_order_relaxed);
    const int used = t.used.exchange(0);
    for (int i = 0; i < used && i < n_shares; ++i)
      t.shares[i].state = 0;
    for (unsigned i = 1; i < n; ++i)
      sem_post(&pool->workers[i - 1]->start);
    execute(t, 0);
    for (unsigned i = 1; i < n; ++i)
      while (sem_wait(&pool->workers[i - 1]->done))
        ;
    pthread_barrier_destroy(&t.barrier);
  }

  pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
  pthread_mutex_t atomic_lock = PTHREAD_MUTEX_INITIALIZER;

  bool next(long *a, long *b, WorkShare &w)
  {
    const long inc = w.incr, c = w.chunk * inc;
    const long s = w.next.fetch_add(c);
    if (inc > 0 ? s >= w.end : s <= w.end)
      return false;
    *a = s;
    *b = s + c;
    if (inc > 0 ? *b > w.end : *b < w.end)
      *b = w.end;
    return true;
  }

  Team solo;

  bool start(long s, long e, long inc, long chunk, long *a, long *b)
  {
    Team &t = me.team ? *me.team : solo;
    const long k = me.loop++ % n_shares;
    auto &w = t.shares[k];
    if (!me.team)
      w.state = 0;
    int zero = 0;
    if (w.state.compare_exchange_strong(zero, 1)) {
      int u = t.used;
      while (u < k + 1 && !t.used.compare_exchange_weak(u, k + 1))
        ;
      w.start = s, w.end = e, w.incr = inc, w.chunk = chunk < 1 ? 1 : chunk, w.next = s;
      w.state = 2;
    }
    while (w.state != 2)
      sched_yield();
    return next(a, b, w);
  }

  WorkShare &current()
  {
    Team &t = me.team ? *me.team : solo;
    return t.shares[(me.loop - 1) % n_shares];
  }
} // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
  if (me.team) {
    /* nested: a team of one */
    n_nested.fetch_add(1, std::memory_order_relaxed);
    auto t = new Team;
    pthread_barrier_init(&t->barrier, nullptr, 1);
    t->fn = fn;
    t->data = data;
    execute(*t, 0);
    pthread_barrier_destroy(&t->barrier);
    delete t;
    return;
  }
  run(fn, data, n ? n : wanted());
}

void GOMP_barrier()
{
  if (!me.team)
    return;
  n_barriers.fetch_add(1, std::memory_order_relaxed);
  delay();
  pthread_barrier_wait(&me.team->barrier);
  delay();
}

bool GOMP_single_start()
{
  if (!me.team)
    return true;
  const long k = me.single++ % n_shares;
  const bool mine = me.team->singles[k].fetch_add(1) % me.team->n == 0;
  if (mine)
    n_singles.fetch_add(1, std::memory_order_relaxed);
  delay();
  return mine;
}

void *GOMP_single_copy_start()
{
  if (!me.team)
    return nullptr;
  const bool mine = GOMP_single_start();
  if (mine)
    return nullptr;
  GOMP_barrier();
  return me.team->shares[(me.single - 1) % n_shares].copy;
}

void GOMP_single_copy_end(void *p)
{
  if (!me.team)
    return;
  me.team->shares[(me.single - 1) % n_shares].copy = p;
  GOMP_barrier();
}

void GOMP_critical_start() { pthread_mutex_lock(&critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&critical); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomic_lock); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomic_lock); }

void GOMP_critical_name_start(void **p)
{
  auto a = reinterpret_cast<std::atomic<pthread_mutex_t *> *>(p);
  pthread_mutex_t *m = *a;
  if (!m) {
    auto mine = new pthread_mutex_t;
    pthread_mutex_init(mine, nullptr);
    if (a->compare_exchange_strong(m, mine))
      m = mine;
    else
      delete mine;
  }
  pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(reinterpret_cast<std::atomic<pthread_mutex_t *> *>(p)->load()); }

#define LOOP(kind)                                                                                                                       \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return start(s, e, i, c, a, b); }                     \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return next(a, b, current()); }                                                       \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned)                       \
  {                                                                                                                                      \
    struct L {                                                                                                                           \
      void (*fn)(void *);                                                                                                                \
      void *d;                                                                                                                           \
      long s, e, i, c;                                                                                                                   \
    } l{fn, d, s, e, i, c};                                                                                                              \
    /* the outlined body asks for its first chunk by *_next */                                                                           \
    GOMP_parallel(                                                                                                                       \
        [](void *q) {                                                                                                                    \
          auto &l = *static_cast<L *>(q);                                                                                                \
          Team &t = *me.team;                                                                                                            \
          auto &w = t.shares[me.loop++ % n_shares];                                                                                      \
          int zero = 0;                                                                                                                  \
          if (w.state.compare_exchange_strong(zero, 1)) {                                                                                \
            t.used = 1;                                                                                                                  \
            w.start = l.s, w.end = l.e, w.incr = l.i, w.chunk = l.c < 1 ? 1 : l.c, w.next = l.s;                                         \
            w.state = 2;                                                                                                                 \
          }                                                                                                                              \
          while (w.state != 2)                                                                                                           \
            sched_yield();                                                                                                               \
          l.fn(l.d);                                                                                                                     \
        },                                                                                                                               \
        &l, n, 0);                                                                                                                       \
  }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)

#define RUNTIME(kind)                                                                                                                    \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, a, b); }                             \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return next(a, b, current()); }
RUNTIME(runtime)
RUNTIME(maybe_nonmonotonic_runtime)
RUNTIME(nonmonotonic_runtime)

#define ULL(kind)                                                                                                                        \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c,      \
                                    unsigned long long *a, unsigned long long *b)                                                        \
  {                                                                                                                                      \
    return start(s, e, up ? long(i) : long(i), c, (long *)a, (long *)b);                                                                 \
  }                                                                                                                                      \
  bool GOMP_loop_ull_##kind##_next(unsigned long long *a, unsigned long long *b) { return next((long *)a, (long *)b, current()); }
ULL(dynamic)
ULL(guided)
ULL(nonmonotonic_dynamic)
ULL(nonmonotonic_guided)

void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
  if (cpyfn) {
    char buf[size + align];
    char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpyfn(arg, data);
    fn(arg);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

unsigned GOMP_sections_start(unsigned count)
{
  long a, b;
  return start(1, long(count) + 1, 1, 1, &a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_next()
{
  long a, b;
  return next(&a, &b, current()) ? unsigned(a) : 0;
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

int omp_get_num_threads() { return me.team ? int(me.team->n) : 1; }
int omp_get_thread_num() { return me.team ? int(me.id) : 0; }
int omp_get_max_threads() { return int(wanted()); }
int omp_get_thread_limit() { return int(wanted()); }
void omp_set_num_threads(int) {}
int omp_get_num_procs() { return int(wanted()); }
int omp_in_parallel() { return me.team && me.team->n > 1; }
int omp_get_level() { return me.team ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
}
