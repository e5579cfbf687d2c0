/*
 * Stand-in for deal.II's work stream: the same interface and guarantees
 * (workers concurrent on scratch and copy data of their own, copiers one at a
 * time and in order), on threads the race detector knows about.
 */
#ifndef dealii_work_stream_h
#define dealii_work_stream_h

#include <deal.II/base/config.h>
#include <deal.II/base/graph_coloring.h>
#include <deal.II/base/iterator_range.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/parallel.h>
#include <deal.II/base/std_cxx20/type_traits.h>
#include <deal.II/base/template_constraints.h>
#include <deal.II/base/thread_local_storage.h>
#include <deal.II/base/thread_management.h>

#include <pthread.h>

#include <cstdlib>
#include <functional>
#include <memory>
#include <utility>
#include <vector>

DEAL_II_NAMESPACE_OPEN

namespace WorkStream
{
  namespace internal_team
  {
    template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
    struct Stream {
      const std::vector<Iterator> &items;
      Worker &worker;
      Copier &copier;
      const ScratchData &scratch;
      const CopyData &copy;
      unsigned int n;
      pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
      pthread_cond_t turn = PTHREAD_COND_INITIALIZER;
      std::size_t next = 0;

      void work(const unsigned int id)
      {
        ScratchData s(scratch);
        CopyData c(copy);
        const std::function<void(const Iterator &, ScratchData &, CopyData &)> w(worker);
        const std::function<void(const CopyData &)> f(copier);
        for (std::size_t k = id; k < items.size(); k += n) {
          if (w)
            w(items[k], s, c);
          pthread_mutex_lock(&mutex);
          while (next != k)
            pthread_cond_wait(&turn, &mutex);
          if (f)
            f(c);
          ++next;
          pthread_cond_broadcast(&turn);
          pthread_mutex_unlock(&mutex);
        }
      }

      struct Arg {
        Stream *stream;
        unsigned int id;
      };

      static void *enter(void *p)
      {
        auto a = static_cast<Arg *>(p);
        a->stream->work(a->id);
        return nullptr;
      }

      void run()
      {
        std::vector<pthread_t> t(n);
        std::vector<Arg> a(n);
        for (unsigned int i = 0; i < n; ++i)
          a[i] = {this, i};
        for (unsigned int i = 1; i < n; ++i)
          pthread_create(&t[i], nullptr, enter, &a[i]);
        work(0);
        for (unsigned int i = 1; i < n; ++i)
          pthread_join(t[i], nullptr);
      }
    };

    inline unsigned int team()
    {
      const char *s = std::getenv("VERIF_TEAM");
      return s ? std::max(1, std::atoi(s)) : 4u;
    }
  } // namespace internal_team

  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const Iterator &begin,
           const std_cxx20::type_identity_t<Iterator> &end,
           Worker worker,
           Copier copier,
           const ScratchData &sample_scratch_data,
           const CopyData &sample_copy_data,
           const unsigned int = 2,
           const unsigned int = 8)
  {
    std::vector<Iterator> items;
    for (Iterator i = begin; i != end; ++i)
      items.push_back(i);
    internal_team::Stream<Worker, Copier, Iterator, ScratchData, CopyData> s{
        items, worker, copier, sample_scratch_data, sample_copy_data, internal_team::team()};
    s.run();
  }

  template <typename Worker, typename Copier, typename Range, typename ScratchData, typename CopyData,
            typename = std::enable_if_t<has_begin_and_end<Range>>>
  void run(Range range, Worker worker, Copier copier, const ScratchData &s, const CopyData &c, const unsigned int = 2, const unsigned int = 8)
  {
    run(range.begin(), range.end(), worker, copier, s, c);
  }

  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const IteratorRange<Iterator> &range, Worker worker, Copier copier, const ScratchData &s, const CopyData &c, const unsigned int = 2,
           const unsigned int = 8)
  {
    run(range.begin(), range.end(), worker, copier, s, c);
  }

  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const std::vector<std::vector<Iterator>> &colors, Worker worker, Copier copier, const ScratchData &s, const CopyData &c,
           const unsigned int = 2, const unsigned int = 8)
  {
    for (const auto &items : colors) {
      internal_team::Stream<Worker, Copier, Iterator, ScratchData, CopyData> t{items, worker, copier, s, c, internal_team::team()};
      t.run();
    }
  }

  template <typename MainClass, typename Iterator, typename ScratchData, typename CopyData>
  void run(const Iterator &begin,
           const std_cxx20::type_identity_t<Iterator> &end,
           MainClass &main_object,
           void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &),
           void (MainClass::*copier)(const CopyData &),
           const ScratchData &s,
           const CopyData &c,
           const unsigned int = 2,
           const unsigned int = 8)
  {
    run(
        begin,
        end,
        [&](const Iterator &i, ScratchData &a, CopyData &b) { (main_object.*worker)(i, a, b); },
        [&](const CopyData &b) { (main_object.*copier)(b); },
        s,
        c);
  }
} // namespace WorkStream

DEAL_II_NAMESPACE_CLOSE

#endif
