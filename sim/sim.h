// Deterministic simulator for MPI programs: public interface.
//
// A simulated run ("Sim") executes one or more jobs. A job is a set of
// simulated nodes (MPI ranks). Each node is a forked address-space image of
// this very program, parked at every intercepted operation (MPI call, clock
// read, file operation); exactly one node runs at any instant and the
// simulator decides which. All communication, time, file faults, crashes and
// heap layout are decided by two choice streams derived from one integer seed:
// W (workload: what the nodes do) and S (schedule and faults: how the
// environment behaves). Value 0 of a choice is always the most benign one, so
// an exhausted replay stream continues with the benign environment.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim
{
  // ---------------------------------------------------------------- choices
  struct Rng
  {
    uint64_t s;
    explicit Rng(uint64_t seed = 0)
      : s(seed)
    {}
    uint64_t
    next()
    {
      uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    }
  };

  struct Choices
  {
    Rng                   rng;
    bool                  replay = false;
    std::vector<uint32_t> src, rec;

    // uniform in [0,n)
    uint32_t
    draw(uint32_t n)
    {
      uint32_t v = 0;
      if (replay)
        v = rec.size() < src.size() ? src[rec.size()] : 0;
      else if (n > 1)
        v = rng.next() % n;
      if (n == 0)
        n = 1;
      if (v >= n)
        v = n - 1;
      rec.push_back(v);
      return v;
    }
    // 0 with probability 1-p, else uniform in [1,n)
    uint32_t
    draw_p(uint32_t n, double p)
    {
      uint32_t v = 0;
      if (replay)
        v = rec.size() < src.size() ? src[rec.size()] : 0;
      else if (n > 1)
        {
          const uint64_t a = rng.next(), b = rng.next();
          if (double(a >> 11) * 0x1p-53 < p)
            v = 1 + b % (n - 1);
        }
      if (n == 0)
        n = 1;
      if (v >= n)
        v = n - 1;
      rec.push_back(v);
      return v;
    }
    bool
    chance(double p)
    {
      return draw_p(2, p) != 0;
    }
    // inclusive range
    int
    range(int lo, int hi)
    {
      return lo + int(draw(uint32_t(hi - lo + 1)));
    }
    // real in [lo,hi] on a grid of n+1 points
    double
    real(double lo, double hi, uint32_t n = 1000)
    {
      return lo + (hi - lo) * double(draw(n + 1)) / n;
    }
    template <typename T>
    void
    shuffle(std::vector<T> &v)
    {
      for (size_t i = v.size(); i > 1; --i)
        {
          // value 0 = identity
          const size_t j = (i - 1) - draw(uint32_t(i));
          std::swap(v[i - 1], v[j]);
        }
    }
  };

  // ---------------------------------------------------------------- records
  struct Record
  {
    uint64_t    seq;
    uint64_t    time;
    int         rank;
    std::string key;
    std::string data;
  };

  // Simple byte serialisation for observations
  struct Out
  {
    std::string s;
    template <typename T>
    Out &
    operator<<(const T &v)
    {
      put(v);
      return *this;
    }
    template <typename T>
    void
    put(const T &v)
    {
      static_assert(std::is_trivially_copyable_v<T>);
      s.append(reinterpret_cast<const char *>(&v), sizeof(T));
    }
    void
    put(const std::string &v)
    {
      put(uint64_t(v.size()));
      s += v;
    }
    template <typename T>
    void
    put(const std::vector<T> &v)
    {
      put(uint64_t(v.size()));
      for (const auto &x : v)
        put(T(x));
    }
    template <typename A, typename B>
    void
    put(const std::pair<A, B> &v)
    {
      put(v.first);
      put(v.second);
    }
    template <typename A, typename B>
    void
    put(const std::map<A, B> &v)
    {
      put(uint64_t(v.size()));
      for (const auto &[a, b] : v)
        {
          put(a);
          put(b);
        }
    }
    template <typename A>
    void
    put(const std::set<A> &v)
    {
      put(uint64_t(v.size()));
      for (const auto &a : v)
        put(a);
    }
  };
  struct In
  {
    const std::string &s;
    size_t             p = 0;
    explicit In(const std::string &s)
      : s(s)
    {}
    template <typename T>
    T
    get()
    {
      T v{};
      get(v);
      return v;
    }
    template <typename T>
    void
    get(T &v)
    {
      if constexpr (std::is_trivially_copyable_v<T>)
        {
          if (p + sizeof(T) <= s.size())
            memcpy(&v, s.data() + p, sizeof(T));
          p += sizeof(T);
        }
    }
    void
    get(std::string &v)
    {
      const auto n = get<uint64_t>();
      v            = s.substr(p, n);
      p += n;
    }
    template <typename T>
    void
    get(std::vector<T> &v)
    {
      const auto n = get<uint64_t>();
      v.clear();
      for (uint64_t i = 0; i < n; ++i)
        {
          T x{};
          get(x);
          v.push_back(x);
        }
    }
    template <typename A, typename B>
    void
    get(std::pair<A, B> &v)
    {
      get(v.first);
      get(v.second);
    }
    template <typename A, typename B>
    void
    get(std::map<A, B> &v)
    {
      const auto n = get<uint64_t>();
      v.clear();
      for (uint64_t i = 0; i < n; ++i)
        {
          A a{};
          B b{};
          get(a);
          get(b);
          v[a] = b;
        }
    }
    template <typename A>
    void
    get(std::set<A> &v)
    {
      const auto n = get<uint64_t>();
      v.clear();
      for (uint64_t i = 0; i < n; ++i)
        {
          A a{};
          get(a);
          v.insert(a);
        }
    }
  };

  // ---------------------------------------------------------------- jobs
  // Which environment behaviours a job enables. Probabilities are per event.
  struct Env
  {
    double p_jitter      = 0;  // perturb computation time between operations
    double p_latency     = 0;  // perturb message latency
    double p_stall       = 0;  // long stall of a rank
    double p_probe_miss  = 0;  // Iprobe/Test momentarily sees nothing
    double p_rendezvous  = 0;  // Isend completes only once matched
    double p_early_exit  = 0;  // rooted collectives may leave early
    bool   random_reduce = false; // reduction order of commutative built-ins
    int    mem_fill      = 0;     // content of memory nobody has written (not 0xff)
    bool   heap_shuffle  = false; // scramble heap address order
    bool   heap_per_rank = false; // different scramble per rank
    double clock_skew_max_s  = 0; // initial per-rank wall clock offset
    double clock_drift_max   = 0; // relative rate error
    double p_clock_jump      = 0; // per operation, per rank
    double clock_jump_max_s  = 0;
    double p_fs_error        = 0; // open/write/read fails with an errno
    double p_fs_short        = 0; // short write/read (retryable by caller)
    double p_alloc_fail      = 0;
    long   crash_at_op       = -1; // kill the whole job at this operation
    long   crash_at_fs       = -1; // kill the job at this file write
    int    crash_fs_mode     = 0;  // 0 before, 1 torn, 2 after
    long   fs_fail_from      = -1; // from this write on, ENOSPC (disk full)
    long   fs_fail_op        = -1; // exactly this file op fails
    int    fs_fail_errno     = 28;
    double compute_ns        = 1000;
    uint64_t max_ops         = 3000000;
    unsigned cpu_limit_s     = 60;
    std::string fs_root; // only paths below are subject to faults
  };

  struct RankEnd
  {
    bool        finished = false; // returned or threw
    bool        threw    = false;
    int         signal   = 0;
    std::string what;
  };

  struct JobResult
  {
    enum Status
    {
      ok,       // every rank returned normally
      aborted,  // some rank threw / called MPI_Abort: job terminated
      crashed,  // injected crash
      deadlock, // nothing can happen any more
      died,     // a rank was killed by a signal
      livelock, // operation budget exhausted
      misuse    // collective mismatch, truncation, ...
    } status = ok;
    std::string          detail;
    int                  n_ranks = 0;
    std::vector<RankEnd> ranks;
    std::vector<Record>  records;
    uint64_t             n_ops = 0, n_fs_ops = 0, n_msgs = 0, end_time = 0;
    uint64_t             leftover_msgs = 0;

    bool
    good() const
    {
      return status == ok;
    }
    // records of one rank with a given key
    std::vector<const Record *>
    get(int rank, const std::string &key) const
    {
      std::vector<const Record *> r;
      for (const auto &x : records)
        if ((rank < 0 || x.rank == rank) && x.key == key)
          r.push_back(&x);
      return r;
    }
    const char *
    status_name() const
    {
      static const char *n[] = {
        "ok", "aborted", "crashed", "deadlock", "died", "livelock", "misuse"};
      return n[status];
    }
  };

  struct Violation
  {
    std::string cls, msg;
  };

  struct Sim
  {
    Choices                         W, S;
    Env                             env; // swarm-chosen defaults
    std::map<std::string, uint64_t> faults, probes;
    uint64_t                        hash = 1469598103934665603ull;
    uint64_t                        order_hash = 1469598103934665603ull;
    uint64_t                        ops = 0, msgs = 0, sim_ns = 0, jobs = 0;
    std::vector<std::string>        log; // human readable workload description
    std::vector<std::string>        trace; // schedule/fault trace (replay only)
    bool                            keep_trace = false;
    std::string                     scratch;    // private directory of this run
    std::string                     nontrivial; // set when run is non-trivial
    std::string                     signature;  // workload signature

    // Run fn(rank) on n simulated ranks.
    JobResult
    launch(int n, const std::function<void(int)> &fn, const Env &env);

    [[noreturn]] void
    violate(const std::string &cls, const std::string &msg)
    {
      throw Violation{cls, msg};
    }
    void
    note(const std::string &s)
    {
      log.push_back(s);
    }
    void
    mix(const void *p, size_t n)
    {
      const unsigned char *c = static_cast<const unsigned char *>(p);
      for (size_t i = 0; i < n; ++i)
        {
          hash ^= c[i];
          hash *= 1099511628211ull;
        }
    }
    // Draw the environment swarm (message timing, stalls, polling, heap...)
    void
    draw_env();
  };

  // A harness decides one or more properties.
  struct Harness
  {
    std::string                            name;
    std::function<void(Sim &)>             run;
    std::function<void()>                  zygote_init; // before any fork
  };

  int
  sim_main(int argc, char **argv, const std::map<std::string, Harness> &hs);

  // ---------------------------------------------------------- guest services
  bool
  in_guest();
  int
  guest_rank();
  void
  record(const std::string &key, const std::string &data);
  inline void
  record(const std::string &key, const Out &o)
  {
    record(key, o.s);
  }
  // advance this rank's simulated clock
  void
  guest_sleep(double seconds);
  double
  guest_true_time();
  // crash (all ranks) right here
  [[noreturn]] void
  guest_die(const std::string &why);
  // guarded buggify point: the controller decides
  bool
  guest_fault(const std::string &kind, double p);
  std::string
  fmt(const char *f, ...);
} // namespace sim
