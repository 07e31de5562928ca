// Guest side: the seams. Everything the code under test does that is not a
// pure computation on its own memory comes through here: MPI, clocks, file
// I/O, heap placement.
#include "sim.h"

#include "proto.h"

#include <malloc.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <math.h>
#include <mpi.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <complex>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

namespace sim
{
  static Mailbox *MB     = nullptr;
  static int      g_rank = -1, g_n = 0;
  static int64_t  g_clock_ticks = 0; // local advance between handoffs

  void
  mb_to_controller(Mailbox *m);

  bool
  in_guest()
  {
    return MB != nullptr;
  }
  int
  guest_rank()
  {
    return g_rank;
  }

  static void
  need(size_t n)
  {
    if (n > MB->data_cap)
      {
        dprintf(2, "SIM: mailbox overflow (%zu)\n", n);
        _exit(99);
      }
  }
  static void
  call(Op op)
  {
    MB->op        = op;
    g_clock_ticks = 0;
    mb_to_controller(MB);
  }

  void
  record(const std::string &key, const std::string &data)
  {
    need(key.size() + data.size());
    MB->a[0] = key.size();
    memcpy(MB->data, key.data(), key.size());
    memcpy(MB->data + key.size(), data.data(), data.size());
    MB->len = key.size() + data.size();
    call(OP_RECORD);
  }
  bool
  guest_fault(const std::string &kind, double p)
  {
    if (!MB)
      return false;
    memcpy(MB->data, &p, 8);
    memcpy(MB->data + 8, kind.data(), kind.size());
    MB->len = 8 + kind.size();
    call(OP_FAULT);
    return MB->r[0];
  }
  void
  guest_sleep(double s)
  {
    MB->a[0] = int64_t(s * 1e9);
    MB->len  = 0;
    call(OP_YIELD);
  }
  double
  guest_true_time()
  {
    return MB->now_ns * 1e-9;
  }
  static void
  misuse(const std::string &m)
  {
    memcpy(MB->data, m.data(), m.size());
    MB->len = m.size();
    call(OP_MISUSE);
    for (;;)
      call(OP_YIELD);
  }
  void
  guest_die(const std::string &why)
  {
    memcpy(MB->data, why.data(), why.size());
    MB->len = why.size();
    call(OP_ABORT);
    for (;;)
      call(OP_YIELD);
  }

  // ------------------------------------------------------------------ heap
  // Own allocator at a fixed address so that pointer order is a function of
  // the seed only (containers ordered by address become schedulable).
  static char     *const H_BASE = reinterpret_cast<char *>(0x500000000000);
  static constexpr size_t H_SIZE = size_t(1) << 36;
  static bool      h_on         = false;
  static int       h_fill       = 0;
  static char     *h_top        = nullptr;
  static uint64_t  h_seed       = 0;
  static Rng       h_rng(0);
  struct FreeNode
  {
    FreeNode *next;
  };
  static constexpr int NCLS = 64 + 40;
  static FreeNode     *h_free[NCLS];
  static int
  cls_of(size_t n)
  {
    if (n == 0)
      n = 1;
    if (n <= 1024)
      return int((n + 15) / 16); // 1..64
    int    c = 65;
    size_t s = 2048;
    while (s < n)
      {
        s <<= 1;
        ++c;
      }
    return c;
  }
  static size_t
  cls_size(int c)
  {
    return c <= 64 ? size_t(c) * 16 : size_t(2048) << (c - 65);
  }
  // header: 16 bytes before the block stores the class
  static void *
  h_alloc(size_t n)
  {
    const int c = cls_of(n);
    if (!h_free[c])
      {
        const size_t bs  = cls_size(c) + 16;
        const int    cnt = c <= 64 ? 32 : 1;
        char        *p   = h_top;
        h_top += bs * cnt;
        if (h_top > H_BASE + H_SIZE)
          return nullptr;
        int idx[32];
        for (int i = 0; i < cnt; ++i)
          idx[i] = i;
        if (h_seed)
          for (int i = cnt - 1; i > 0; --i)
            std::swap(idx[i], idx[h_rng.next() % (i + 1)]);
        for (int i = cnt - 1; i >= 0; --i)
          {
            auto *f   = reinterpret_cast<FreeNode *>(p + bs * idx[i] + 16);
            f->next   = h_free[c];
            h_free[c] = f;
          }
      }
    auto *f   = h_free[c];
    h_free[c] = f->next;
    reinterpret_cast<uint64_t *>(f)[-1] = c;
    return f;
  }
  static bool
  h_owns(void *p)
  {
    return p >= H_BASE && p < H_BASE + H_SIZE;
  }
  static void
  h_release(void *p)
  {
    const int c = int(reinterpret_cast<uint64_t *>(p)[-1]);
    auto     *f = static_cast<FreeNode *>(p);
    f->next     = h_free[c];
    h_free[c]   = f;
  }

  void
  guest_bind(Mailbox *mb, int rank, int n, uint64_t heap_seed, int fill)
  {
    g_rank = rank;
    g_n    = n;
    h_seed = heap_seed;
    h_rng  = Rng(heap_seed);
    h_fill = fill & 0xff;
    mallopt(M_PERTURB, h_fill ^ 0xff);
    mmap(H_BASE, H_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    h_top = H_BASE;
    h_on  = true;
    MB    = mb;
    // silence the node's terminal
    const int dn = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY));
    if (dn >= 0)
      {
        dup2(dn, 1);
        if (!getenv("SIM_STDERR"))
          dup2(dn, 2);
      }
  }
  __attribute__((noinline)) static void
  scrub_stack()
  {
    volatile char buf[256 * 1024];
    memset(const_cast<char *>(buf), h_fill, sizeof buf);
    __asm__ volatile("" ::"r"(buf) : "memory");
  }
  void
  guest_run(const std::function<void(int)> &fn)
  {
    scrub_stack();
    std::string err;
    int         st = 0;
    try
      {
        fn(g_rank);
      }
    catch (const std::exception &e)
      {
        st  = 1;
        err = e.what();
      }
    catch (...)
      {
        st  = 1;
        err = "unknown exception";
      }
    if (err.size() > 4000)
      err.resize(4000);
    memcpy(MB->data, err.data(), err.size());
    MB->a[0] = st;
    MB->len  = err.size();
    call(OP_EXIT);
    for (;;)
      pause();
  }
} // namespace sim

using namespace sim;

// ------------------------------------------------------------ operator new
static void *
raw_new(size_t n)
{
  void *p = h_on ? h_alloc(n) : malloc(n ? n : 1);
  // what a program reads from memory it never wrote is decided by the seed
  if (h_on && p)
    memset(p, h_fill, n);
  return p;
}
static void *
do_new(size_t n)
{
  void *p = raw_new(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
static void
do_delete(void *p)
{
  if (!p)
    return;
  if (h_owns(p))
    h_release(p);
  else
    free(p);
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return raw_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return raw_new(n); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
// over-aligned forms stay with libc
void *operator new(size_t n, std::align_val_t a)
{
  void *p = nullptr;
  if (posix_memalign(&p, std::max(size_t(a), sizeof(void *)), n ? n : 1))
    throw std::bad_alloc();
  if (h_on)
    memset(p, h_fill, n);
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

// ------------------------------------------------------------------- clocks
static int64_t
true_ns()
{
  return MB->now_ns + 100 * (++g_clock_ticks);
}
static int64_t
wall_ns()
{
  const int64_t t = true_ns();
  return 1700000000ll * 1000000000ll + t + int64_t(MB->drift * double(t)) +
         MB->wall_off_ns;
}
static int64_t
mono_ns()
{
  const int64_t t = true_ns();
  return 1000ll * 1000000000ll + t + int64_t(MB->drift * double(t));
}
extern "C" int
clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
  if (!MB)
    return int(syscall(SYS_clock_gettime, id, ts));
  int64_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall_ns() :
                                                                    mono_ns();
  ts->tv_sec  = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
extern "C" int
gettimeofday(struct timeval *tv, void *tz) noexcept
{
  if (!MB)
    return int(syscall(SYS_gettimeofday, tv, tz));
  const int64_t v = wall_ns();
  tv->tv_sec      = v / 1000000000;
  tv->tv_usec     = v % 1000000000 / 1000;
  return 0;
}
extern "C" time_t
time(time_t *t) noexcept
{
  time_t v;
  if (MB)
    v = wall_ns() / 1000000000;
  else
    {
      timespec ts;
      syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
      v = ts.tv_sec;
    }
  if (t)
    *t = v;
  return v;
}
extern "C" clock_t
clock() noexcept
{
  if (MB)
    return mono_ns() / 1000;
  return 0;
}
extern "C" int
getrusage(__rusage_who_t who, struct rusage *u) noexcept
{
  if (!MB)
    return int(syscall(SYS_getrusage, who, u));
  memset(u, 0, sizeof *u);
  const int64_t v     = true_ns();
  u->ru_utime.tv_sec  = v / 1000000000;
  u->ru_utime.tv_usec = v % 1000000000 / 1000;
  return 0;
}
namespace std::chrono::_V2
{
  system_clock::time_point
  system_clock::now() noexcept
  {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
  steady_clock::time_point
  steady_clock::now() noexcept
  {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
} // namespace std::chrono::_V2

// -------------------------------------------------------------------- files
namespace
{
  std::map<int, std::string> *g_fds = nullptr; // fd -> relative path

  template <typename F>
  F
  real(const char *n)
  {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
  }
  // Only files below the run's private scratch directory (relative paths)
  // are simulated; everything else (e.g. /proc, /dev) passes through.
  bool
  simulated(const char *p)
  {
    return MB && p && p[0] && p[0] != '/' && strncmp(p, "in/", 3) != 0;
  }
  struct FsAns
  {
    int     d;
    int64_t v;
  };
  FsAns
  fs(int kind, const std::string &path, uint64_t len)
  {
    memcpy(MB->data, path.data(), path.size());
    MB->len  = path.size();
    MB->a[0] = kind;
    MB->a[1] = len;
    call(OP_FS);
    return {int(MB->r[0]), MB->r[1]};
  }
  [[noreturn]] void
  die_here()
  {
    for (;;)
      {
        MB->len  = 0;
        MB->a[0] = 0;
        call(OP_YIELD);
      }
  }
  ssize_t
  raw_write(int fd, const void *b, size_t n)
  {
    return syscall(SYS_write, fd, b, n);
  }
  ssize_t
  sim_write(int fd, const char *b, size_t n, off_t off, const std::string &path)
  {
    auto put = [&](size_t m) {
      return off >= 0 ? ssize_t(syscall(SYS_pwrite64, fd, b, m, off)) :
                        raw_write(fd, b, m);
    };
    const auto a = fs(FS_WRITE, path, n);
    switch (a.d)
      {
        case FSD_ERR:
          errno = int(a.v);
          return -1;
        case FSD_SHORT:
          return put(std::min<size_t>(n, a.v));
        case FSD_CRASH_BEFORE:
          die_here();
        case FSD_CRASH_TORN:
          put(std::min<size_t>(n, a.v));
          die_here();
        case FSD_CRASH_AFTER:
          put(n);
          die_here();
        default:
          return put(n);
      }
  }
  ssize_t
  sim_read(int fd, char *b, size_t n, off_t off, const std::string &path)
  {
    const auto a = fs(FS_READ, path, n);
    if (a.d == FSD_ERR)
      {
        errno = int(a.v);
        return -1;
      }
    if (a.d == FSD_SHORT)
      n = std::min<size_t>(n, a.v);
    return off >= 0 ? ssize_t(syscall(SYS_pread64, fd, b, n, off)) :
                      ssize_t(syscall(SYS_read, fd, b, n));
  }
  void
  track(int fd, const char *p)
  {
    if (fd < 0)
      return;
    if (!g_fds)
      g_fds = new std::map<int, std::string>;
    (*g_fds)[fd] = p;
  }
  const std::string *
  tracked(int fd)
  {
    if (!MB || !g_fds)
      return nullptr;
    auto it = g_fds->find(fd);
    return it == g_fds->end() ? nullptr : &it->second;
  }
  // returns false if the open must fail (errno set)
  bool
  pre_open(const char *p, bool w)
  {
    const auto a = fs(w ? FS_OPEN_W : FS_OPEN_R, p, 0);
    if (a.d == FSD_CRASH_BEFORE || a.d == FSD_CRASH_TORN)
      die_here();
    if (a.d == FSD_CRASH_AFTER)
      {
        syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        die_here();
      }
    if (a.d == FSD_ERR)
      {
        errno = int(a.v);
        return false;
      }
    return true;
  }
} // namespace

extern "C"
{
  FILE *
  fopen(const char *p, const char *m)
  {
    static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
    if (!simulated(p))
      return r(p, m);
    if (!pre_open(p, m[0] != 'r' || strchr(m, '+')))
      return nullptr;
    FILE *f = r(p, m);
    if (f)
      {
        setvbuf(f, nullptr, _IONBF, 0);
        track(fileno(f), p);
      }
    return f;
  }
  FILE *
  fopen64(const char *p, const char *m)
  {
    return fopen(p, m);
  }
  int
  fclose(FILE *f)
  {
    static auto r = real<int (*)(FILE *)>("fclose");
    if (MB && f && tracked(fileno(f)))
      g_fds->erase(fileno(f));
    return r(f);
  }
  size_t
  fwrite(const void *b, size_t s, size_t n, FILE *f)
  {
    static auto r = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
    if (MB && f)
      if (auto *p = tracked(fileno(f)))
        {
          const char *c   = static_cast<const char *>(b);
          size_t      tot = s * n, off = 0;
          while (off < tot)
            {
              const ssize_t k = sim_write(fileno(f), c + off, tot - off, -1, *p);
              if (k <= 0)
                break;
              off += k;
            }
          return s ? off / s : 0;
        }
    return r(b, s, n, f);
  }
  ssize_t
  write(int fd, const void *b, size_t n)
  {
    if (auto *p = tracked(fd))
      return sim_write(fd, static_cast<const char *>(b), n, -1, *p);
    return raw_write(fd, b, n);
  }
  ssize_t
  writev(int fd, const struct iovec *v, int c)
  {
    if (auto *p = tracked(fd))
      {
        std::string s;
        for (int i = 0; i < c; ++i)
          s.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
        return sim_write(fd, s.data(), s.size(), -1, *p);
      }
    return syscall(SYS_writev, fd, v, c);
  }
  ssize_t
  read(int fd, void *b, size_t n)
  {
    if (auto *p = tracked(fd))
      return sim_read(fd, static_cast<char *>(b), n, -1, *p);
    return syscall(SYS_read, fd, b, n);
  }
  int
  close(int fd)
  {
    if (tracked(fd))
      g_fds->erase(fd);
    return int(syscall(SYS_close, fd));
  }
  int
  open(const char *p, int flags, ...)
  {
    va_list ap;
    va_start(ap, flags);
    const int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (simulated(p))
      {
        if (!pre_open(p, (flags & O_ACCMODE) != O_RDONLY))
          return -1;
        const int fd = int(syscall(SYS_openat, AT_FDCWD, p, flags, mode));
        track(fd, p);
        return fd;
      }
    return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode));
  }
}

// ---------------------------------------------------------------------- MPI
namespace
{
  struct Comm
  {
    int              ctx;
    std::vector<int> group;
    int              me;
    std::map<int, void *> attr;
  };
  struct Group
  {
    std::vector<int> r;
  };
  struct Type
  {
    // flattened: byte offset, basic type index, count
    struct Seg
    {
      long     off;
      unsigned basic;
      long     n;
    };
    std::vector<Seg> seg;
    long             lb = 0, extent = 0, size = 0;
  };
  struct UserOp
  {
    MPI_User_function *fn;
    bool               commute;
  };
  struct Request
  {
    int                            id;
    bool                           recv = false, coll = false;
    void                          *buf  = nullptr;
    int                            count = 0;
    MPI_Datatype                   type  = nullptr;
    Comm                          *comm  = nullptr;
    std::function<void(std::string)> done;
  };

  enum Basic
  {
    B_BYTE,
    B_I8,
    B_U8,
    B_I16,
    B_U16,
    B_I32,
    B_U32,
    B_I64,
    B_U64,
    B_F,
    B_D,
    B_LD,
    B_CF,
    B_CD,
    B_BOOL,
    B_2INT,
    B_DI,
    B_FI,
    B_N
  };
  const long bsize[B_N] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 16, 8, 16, 1, 8, 16, 8};

  std::map<MPI_Datatype, Type>               *types;
  std::map<MPI_Comm, Comm *>                 *comms;
  std::set<UserOp *>                         *uops;
  int                                         keyvals = 1;
  struct KV
  {
    MPI_Comm_delete_attr_function *del;
    void                          *extra;
  };
  std::map<int, KV> *kvs;

  void
  add_basic(MPI_Datatype t, unsigned b)
  {
    Type x;
    x.seg    = {{0, b, 1}};
    x.size   = bsize[b];
    x.extent = bsize[b];
    (*types)[t] = x;
  }
  void
  mpi_init()
  {
    if (types)
      return;
    types = new std::map<MPI_Datatype, Type>;
    comms = new std::map<MPI_Comm, Comm *>;
    uops  = new std::set<UserOp *>;
    kvs   = new std::map<int, KV>;
    add_basic(MPI_BYTE, B_BYTE);
    add_basic(MPI_PACKED, B_BYTE);
    add_basic(MPI_CHAR, B_I8);
    add_basic(MPI_SIGNED_CHAR, B_I8);
    add_basic(MPI_UNSIGNED_CHAR, B_U8);
    add_basic(MPI_SHORT, B_I16);
    add_basic(MPI_UNSIGNED_SHORT, B_U16);
    add_basic(MPI_INT, B_I32);
    add_basic(MPI_UNSIGNED, B_U32);
    add_basic(MPI_LONG, B_I64);
    add_basic(MPI_UNSIGNED_LONG, B_U64);
    add_basic(MPI_LONG_LONG, B_I64);
    add_basic(MPI_UNSIGNED_LONG_LONG, B_U64);
    add_basic(MPI_INT8_T, B_I8);
    add_basic(MPI_UINT8_T, B_U8);
    add_basic(MPI_INT16_T, B_I16);
    add_basic(MPI_UINT16_T, B_U16);
    add_basic(MPI_INT32_T, B_I32);
    add_basic(MPI_UINT32_T, B_U32);
    add_basic(MPI_INT64_T, B_I64);
    add_basic(MPI_UINT64_T, B_U64);
    add_basic(MPI_AINT, B_I64);
    add_basic(MPI_OFFSET, B_I64);
    add_basic(MPI_COUNT, B_I64);
    add_basic(MPI_FLOAT, B_F);
    add_basic(MPI_DOUBLE, B_D);
    add_basic(MPI_LONG_DOUBLE, B_LD);
    add_basic(MPI_COMPLEX, B_CF);
    add_basic(MPI_DOUBLE_COMPLEX, B_CD);
    add_basic(MPI_C_FLOAT_COMPLEX, B_CF);
    add_basic(MPI_C_DOUBLE_COMPLEX, B_CD);
    add_basic(MPI_C_BOOL, B_BOOL);
    add_basic(MPI_CXX_BOOL, B_BOOL);
    add_basic(MPI_2INT, B_2INT);
    add_basic(MPI_DOUBLE_INT, B_DI);
    add_basic(MPI_FLOAT_INT, B_FI);
    auto *w = new Comm;
    w->ctx  = 0;
    for (int i = 0; i < g_n; ++i)
      w->group.push_back(i);
    w->me                  = g_rank;
    (*comms)[MPI_COMM_WORLD] = w;
    auto *s                = new Comm;
    s->ctx                 = 1;
    s->group               = {g_rank};
    s->me                  = 0;
    (*comms)[MPI_COMM_SELF] = s;
  }
  // Before any rank exists (zygote) the process behaves as a lone rank.
  Comm *
  C(MPI_Comm c)
  {
    if (g_n == 0)
      {
        static Comm lone{1, {0}, 0, {}};
        return &lone;
      }
    mpi_init();
    auto it = comms->find(c);
    if (it == comms->end())
      misuse("invalid communicator");
    return it->second;
  }
  Type &
  T(MPI_Datatype t)
  {
    if (!types)
      mpi_init();
    auto it = types->find(t);
    if (it == types->end())
      misuse("invalid datatype");
    return it->second;
  }
  MPI_Datatype
  new_type(Type x)
  {
    auto t      = reinterpret_cast<MPI_Datatype>(new char[16]);
    // merge adjacent segments
    std::vector<Type::Seg> m;
    for (auto &s : x.seg)
      if (!m.empty() && m.back().basic == s.basic &&
          m.back().off + m.back().n * bsize[s.basic] == s.off)
        m.back().n += s.n;
      else
        m.push_back(s);
    x.seg = m;
    if (!types)
      mpi_init();
    (*types)[t] = x;
    return t;
  }
  bool
  contiguous(const Type &t)
  {
    return t.seg.size() == 1 && t.seg[0].off == 0 && t.size == t.extent;
  }
  std::string
  pack(const void *b, long n, MPI_Datatype dt)
  {
    auto       &t = T(dt);
    std::string s;
    if (n <= 0 || t.size == 0)
      return s;
    const char *c = static_cast<const char *>(b);
    if (contiguous(t))
      {
        s.assign(c, n * t.size);
        return s;
      }
    s.reserve(n * t.size);
    for (long i = 0; i < n; ++i)
      for (auto &g : t.seg)
        s.append(c + i * t.extent + g.off, g.n * bsize[g.basic]);
    return s;
  }
  void
  unpack(const char *s, size_t len, void *b, long n, MPI_Datatype dt)
  {
    auto &t = T(dt);
    if (t.size == 0)
      return;
    char *c = static_cast<char *>(b);
    if (contiguous(t))
      {
        if (len)
          memcpy(c, s, std::min<size_t>(len, n * t.size));
        return;
      }
    size_t p = 0;
    for (long i = 0; i < n; ++i)
      for (auto &g : t.seg)
        {
          const size_t l = g.n * bsize[g.basic];
          if (p + l > len)
            return;
          memcpy(c + i * t.extent + g.off, s + p, l);
          p += l;
        }
  }
  template <typename X, bool arith = true, bool bits = false>
  void
  red(MPI_Op op, const char *a, char *io, long n)
  {
    for (long i = 0; i < n; ++i)
      {
        X x, y;
        memcpy(&x, a + i * sizeof(X), sizeof(X));
        memcpy(&y, io + i * sizeof(X), sizeof(X));
        // y = x op y, x being the lower-rank operand
        bool ok = true;
        if (op == MPI_SUM)
          y = x + y;
        else if (op == MPI_PROD)
          y = x * y;
        else if constexpr (arith)
          {
            if (op == MPI_MAX)
              y = x > y ? x : y;
            else if (op == MPI_MIN)
              y = x < y ? x : y;
            else if (op == MPI_LAND)
              y = X(x && y);
            else if (op == MPI_LOR)
              y = X(x || y);
            else if (op == MPI_LXOR)
              y = X(bool(x) != bool(y));
            else if constexpr (bits)
              {
                if (op == MPI_BAND)
                  y = x & y;
                else if (op == MPI_BOR)
                  y = x | y;
                else if (op == MPI_BXOR)
                  y = x ^ y;
                else
                  ok = false;
              }
            else
              ok = false;
          }
        else
          ok = false;
        if (!ok)
          misuse("unsupported reduction");
        memcpy(io + i * sizeof(X), &y, sizeof(X));
      }
  }
  template <typename V>
  void
  red_loc(MPI_Op op, const char *a, char *io, long n, size_t stride, size_t ioff)
  {
    for (long i = 0; i < n; ++i)
      {
        V   x, y;
        int xi, yi;
        memcpy(&x, a + i * stride, sizeof(V));
        memcpy(&y, io + i * stride, sizeof(V));
        memcpy(&xi, a + i * stride + ioff, 4);
        memcpy(&yi, io + i * stride + ioff, 4);
        const bool less = op == MPI_MINLOC ? x < y : x > y;
        if (less || (x == y && xi < yi))
          memcpy(io + i * stride, a + i * stride, stride);
      }
  }
  void
  reduce_basic(unsigned b, MPI_Op op, const char *a, char *io, long n)
  {
    switch (b)
      {
        case B_I8: red<int8_t, true, true>(op, a, io, n); break;
        case B_BYTE:
        case B_U8: red<uint8_t, true, true>(op, a, io, n); break;
        case B_I16: red<int16_t, true, true>(op, a, io, n); break;
        case B_U16: red<uint16_t, true, true>(op, a, io, n); break;
        case B_I32: red<int32_t, true, true>(op, a, io, n); break;
        case B_U32: red<uint32_t, true, true>(op, a, io, n); break;
        case B_I64: red<int64_t, true, true>(op, a, io, n); break;
        case B_U64: red<uint64_t, true, true>(op, a, io, n); break;
        case B_BOOL: red<uint8_t, true, true>(op, a, io, n); break;
        case B_F: red<float>(op, a, io, n); break;
        case B_D: red<double>(op, a, io, n); break;
        case B_LD: red<long double>(op, a, io, n); break;
        case B_CF: red<std::complex<float>, false>(op, a, io, n); break;
        case B_CD: red<std::complex<double>, false>(op, a, io, n); break;
        case B_2INT: red_loc<int>(op, a, io, n, 8, 4); break;
        case B_DI: red_loc<double>(op, a, io, n, 16, 8); break;
        case B_FI: red_loc<float>(op, a, io, n, 8, 4); break;
        default: misuse("unsupported reduction type");
      }
  }
  // io := a op io on packed data of count elements
  void
  reduce_packed(MPI_Op op, MPI_Datatype dt, int count, const std::string &a, std::string &io)
  {
    if (uops && uops->count(reinterpret_cast<UserOp *>(op)))
      {
        auto        *u = reinterpret_cast<UserOp *>(op);
        auto        &t = T(dt);
        const size_t n = size_t(t.extent) * count + 64;
        std::vector<char> x(n), y(n);
        unpack(a.data(), a.size(), x.data(), count, dt);
        unpack(io.data(), io.size(), y.data(), count, dt);
        int          c = count;
        MPI_Datatype d = dt;
        u->fn(x.data(), y.data(), &c, &d);
        io = pack(y.data(), count, dt);
        return;
      }
    auto &t = T(dt);
    if (t.seg.size() == 1)
      reduce_basic(t.seg[0].basic, op, a.data(), io.data(), long(a.size()) / bsize[t.seg[0].basic]);
    else
      misuse("reduction on a derived type");
  }
  std::string
  reduce_all(MPI_Op op, MPI_Datatype dt, int count, const std::vector<std::string> &ps, uint64_t perm)
  {
    const size_t        n = ps.size();
    std::vector<size_t> idx(n);
    for (size_t i = 0; i < n; ++i)
      idx[i] = i;
    const bool user = uops && uops->count(reinterpret_cast<UserOp *>(op));
    if (perm && !user)
      {
        Rng g(perm);
        for (size_t i = n; i > 1; --i)
          std::swap(idx[i - 1], idx[g.next() % i]);
      }
    std::string acc = ps[idx[n - 1]];
    for (size_t i = n - 1; i-- > 0;)
      reduce_packed(op, dt, count, ps[idx[i]], acc);
    return acc;
  }

  struct Parts
  {
    std::vector<std::string> p;
    uint64_t                 perm;
    int                      base;
  };
  Parts
  parse_parts(const std::string &s)
  {
    Parts    r;
    uint64_t h[3];
    memcpy(h, s.data(), sizeof h);
    r.perm = h[1];
    r.base = int(h[2]);
    std::vector<uint64_t> l(h[0]);
    memcpy(l.data(), s.data() + 24, 8 * h[0]);
    size_t p = 24 + 8 * h[0];
    for (auto x : l)
      {
        r.p.emplace_back(s, p, x);
        p += x;
      }
    return r;
  }

  // one completed request: h = {pos, src, tag, len, datalen}
  void
  fill_status(MPI_Status *st, int src, int tag, size_t bytes)
  {
    if (st == MPI_STATUS_IGNORE || st == nullptr)
      return;
    st->MPI_SOURCE = src;
    st->MPI_TAG    = tag;
    st->MPI_ERROR  = MPI_SUCCESS;
    st->_cancelled = 0;
    st->_ucount    = bytes;
  }
  int
  local_rank(Comm *c, int world)
  {
    for (size_t i = 0; i < c->group.size(); ++i)
      if (c->group[i] == world)
        return int(i);
    return -1;
  }
  void
  finish_req(Request *q, const int64_t *h, const char *d, MPI_Status *st)
  {
    if (q->recv)
      {
        unpack(d, h[4], q->buf, q->count, q->type);
        fill_status(st, local_rank(q->comm, int(h[1])), int(h[2]), h[3]);
      }
    else
      {
        if (q->coll && q->done)
          q->done(std::string(d, h[4]));
        fill_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
      }
    delete q;
  }
  // generic wait/test; returns flag, completed positions in idx
  bool
  wait_impl(int n, MPI_Request *rq, int mode, std::vector<int> &idx, MPI_Status *sts, bool packed_status)
  {
    std::vector<int> ids(n);
    bool             any = false;
    for (int i = 0; i < n; ++i)
      {
        ids[i] = rq[i] == MPI_REQUEST_NULL ? 0 : reinterpret_cast<Request *>(rq[i])->id;
        any |= ids[i] != 0;
      }
    idx.clear();
    if (!any)
      {
        if (sts != MPI_STATUSES_IGNORE && sts)
          for (int i = 0; i < (packed_status ? 0 : n); ++i)
            fill_status(&sts[i], MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
        return true;
      }
    need(4 * n);
    memcpy(MB->data, ids.data(), 4 * n);
    MB->len  = 4 * n;
    MB->a[0] = n;
    MB->a[1] = mode;
    call(OP_WAIT);
    const bool    flag = MB->r[0];
    const int     cnt  = int(MB->r[1]);
    std::string   buf(MB->data, MB->len);
    size_t        p = 0;
    const bool    ign = sts == MPI_STATUSES_IGNORE || !sts;
    if (!ign && !packed_status)
      for (int i = 0; i < n; ++i)
        fill_status(&sts[i], MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
    for (int k = 0; k < cnt; ++k)
      {
        int64_t h[5];
        memcpy(h, buf.data() + p, sizeof h);
        p += sizeof h;
        const int i = int(h[0]);
        finish_req(reinterpret_cast<Request *>(rq[i]), h, buf.data() + p, ign ? MPI_STATUS_IGNORE : &sts[packed_status ? k : i]);
        p += h[4];
        rq[i] = MPI_REQUEST_NULL;
        idx.push_back(i);
      }
    return flag;
  }

  int
  send_impl(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int mode)
  {
    auto             *cm = C(c);
    const std::string s  = pack(b, n, t);
    if (dst < 0 || dst >= int(cm->group.size()))
      misuse("send to invalid rank " + std::to_string(dst));
    need(s.size());
    memcpy(MB->data, s.data(), s.size());
    MB->len  = s.size();
    MB->a[0] = cm->ctx;
    MB->a[1] = cm->group[dst];
    MB->a[2] = tag;
    MB->a[3] = mode;
    call(OP_SEND);
    return int(MB->r[0]);
  }
  MPI_Request
  mk_req(int id)
  {
    auto *q = new Request;
    q->id   = id;
    return reinterpret_cast<MPI_Request>(q);
  }
  MPI_Request
  recv_impl(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c)
  {
    auto *cm = C(c);
    MB->len  = 0;
    MB->a[0] = cm->ctx;
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= int(cm->group.size())))
      misuse("receive from invalid rank " + std::to_string(src));
    MB->a[1] = src == MPI_ANY_SOURCE ? -1 : cm->group[src];
    MB->a[2] = tag == MPI_ANY_TAG ? -1 : tag;
    MB->a[3] = int64_t(n) * T(t).size;
    call(OP_IRECV);
    auto *q  = new Request;
    q->id    = int(MB->r[0]);
    q->recv  = true;
    q->buf   = b;
    q->count = n;
    q->type  = t;
    q->comm  = cm;
    return reinterpret_cast<MPI_Request>(q);
  }
  // start a collective; if blocking returns its parts
  Parts
  coll(MPI_Comm c, int kind, int root, const std::vector<std::string> &parts, bool blocking = true, int *id = nullptr)
  {
    auto *cm = C(c);
    size_t   tot = 8 * parts.size();
    for (auto &p : parts)
      tot += p.size();
    need(tot);
    char *d = MB->data;
    for (size_t i = 0; i < parts.size(); ++i)
      {
        uint64_t l = parts[i].size();
        memcpy(d + 8 * i, &l, 8);
      }
    size_t o = 8 * parts.size();
    for (auto &p : parts)
      {
        memcpy(d + o, p.data(), p.size());
        o += p.size();
      }
    MB->len  = tot;
    MB->a[0] = cm->ctx == 1 ? 1000000 + g_rank : cm->ctx;
    MB->a[1] = kind;
    MB->a[2] = root;
    MB->a[3] = parts.size();
    MB->a[4] = cm->group.size();
    MB->a[5] = cm->me;
    MB->a[6] = blocking;
    call(OP_COLL);
    if (!blocking)
      {
        *id = int(MB->r[0]);
        return {};
      }
    // blocking collectives are completed by the controller like a wait
    int64_t h[5];
    memcpy(h, MB->data, sizeof h);
    return parse_parts(std::string(MB->data + sizeof h, h[4]));
  }
} // namespace

extern "C"
{
#define SUCC return MPI_SUCCESS

  int MPI_Init(int *, char ***) { SUCC; }
  int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SERIALIZED; SUCC; }
  int MPI_Initialized(int *f) { *f = 1; SUCC; }
  int MPI_Finalized(int *f) { *f = 0; SUCC; }
  int MPI_Finalize() { SUCC; }
  int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; SUCC; }
  int MPI_Is_thread_main(int *f) { *f = 1; SUCC; }
  int
  MPI_Abort(MPI_Comm, int code)
  {
    if (!MB)
      abort();
    guest_die("MPI_Abort(" + std::to_string(code) + ")");
  }
  double
  MPI_Wtime()
  {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
  }
  double MPI_Wtick() { return 1e-9; }
  int
  MPI_Get_processor_name(char *n, int *l)
  {
    strcpy(n, "simnode");
    *l = 7;
    SUCC;
  }
  int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; SUCC; }
  int
  MPI_Comm_rank(MPI_Comm c, int *r)
  {
    *r = C(c)->me;
    SUCC;
  }
  int
  MPI_Comm_size(MPI_Comm c, int *s)
  {
    *s = int(C(c)->group.size());
    SUCC;
  }
  int
  MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
  {
    *r = a == b ? MPI_IDENT : C(a)->group == C(b)->group ? MPI_CONGRUENT : MPI_UNEQUAL;
    SUCC;
  }
  static MPI_Comm
  reg_comm(Comm *c)
  {
    auto h      = reinterpret_cast<MPI_Comm>(new char[64]);
    (*comms)[h] = c;
    return h;
  }
  int
  MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
  {
    if (g_n == 0)
      {
        *o = c;
        SUCC;
      }
    auto p  = coll(c, C_COMM, 0, {""});
    auto *n = new Comm(*C(c));
    n->ctx  = p.base;
    n->attr.clear();
    *o = reg_comm(n);
    SUCC;
  }
  int
  MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
  {
    std::string s(8, 0);
    memcpy(&s[0], &color, 4);
    memcpy(&s[4], &key, 4);
    auto  p  = coll(c, C_COMM, 0, {s});
    auto *cm = C(c);
    std::vector<std::pair<int, int>> mem; // key, idx
    std::set<int>                    colors;
    for (size_t i = 0; i < p.p.size(); ++i)
      {
        int cc, kk;
        memcpy(&cc, p.p[i].data(), 4);
        memcpy(&kk, p.p[i].data() + 4, 4);
        if (cc != MPI_UNDEFINED)
          colors.insert(cc);
        if (cc == color)
          mem.emplace_back(kk, int(i));
      }
    if (color == MPI_UNDEFINED)
      {
        *o = MPI_COMM_NULL;
        SUCC;
      }
    std::sort(mem.begin(), mem.end());
    auto *n = new Comm;
    n->ctx  = p.base + int(std::distance(colors.begin(), colors.find(color)));
    for (auto &[k, i] : mem)
      {
        if (i == cm->me)
          n->me = int(n->group.size());
        n->group.push_back(cm->group[i]);
      }
    *o = reg_comm(n);
    SUCC;
  }
  int
  MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *o)
  {
    // every simulated rank is its own node
    return MPI_Comm_split(c, C(c)->me, key, o);
  }
  int
  MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o)
  {
    auto  p   = coll(c, C_COMM, 0, {""});
    auto *grp = reinterpret_cast<Group *>(g);
    auto *n   = new Comm;
    n->ctx    = p.base;
    n->group  = grp->r;
    n->me     = -1;
    for (size_t i = 0; i < n->group.size(); ++i)
      if (n->group[i] == g_rank)
        n->me = int(i);
    if (n->me < 0)
      {
        delete n;
        *o = MPI_COMM_NULL;
      }
    else
      *o = reg_comm(n);
    SUCC;
  }
  int
  MPI_Comm_free(MPI_Comm *c)
  {
    if (g_n && *c != MPI_COMM_WORLD && *c != MPI_COMM_SELF)
      {
        auto *cm = C(*c);
        for (auto &[k, v] : cm->attr)
          if (kvs->count(k) && (*kvs)[k].del)
            (*kvs)[k].del(*c, k, v, (*kvs)[k].extra);
        comms->erase(*c);
        delete cm;
      }
    *c = MPI_COMM_NULL;
    SUCC;
  }
  int
  MPI_Comm_group(MPI_Comm c, MPI_Group *g)
  {
    *g = reinterpret_cast<MPI_Group>(new Group{C(c)->group});
    SUCC;
  }
  int
  MPI_Group_free(MPI_Group *g)
  {
    delete reinterpret_cast<Group *>(*g);
    *g = MPI_GROUP_NULL;
    SUCC;
  }
  int
  MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o)
  {
    auto *x = new Group;
    for (int i = 0; i < n; ++i)
      x->r.push_back(reinterpret_cast<Group *>(g)->r[r[i]]);
    *o = reinterpret_cast<MPI_Group>(x);
    SUCC;
  }
  int
  MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o)
  {
    auto         *x = new Group;
    std::set<int> ex(r, r + n);
    auto         &v = reinterpret_cast<Group *>(g)->r;
    for (size_t i = 0; i < v.size(); ++i)
      if (!ex.count(int(i)))
        x->r.push_back(v[i]);
    *o = reinterpret_cast<MPI_Group>(x);
    SUCC;
  }
  int
  MPI_Group_size(MPI_Group g, int *n)
  {
    *n = int(reinterpret_cast<Group *>(g)->r.size());
    SUCC;
  }
  int
  MPI_Group_rank(MPI_Group g, int *n)
  {
    auto &v = reinterpret_cast<Group *>(g)->r;
    *n      = MPI_UNDEFINED;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] == g_rank)
        *n = int(i);
    SUCC;
  }
  int
  MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
  {
    auto &va = reinterpret_cast<Group *>(a)->r, &vb = reinterpret_cast<Group *>(b)->r;
    for (int i = 0; i < n; ++i)
      {
        rb[i] = MPI_UNDEFINED;
        for (size_t j = 0; j < vb.size(); ++j)
          if (vb[j] == va[ra[i]])
            rb[i] = int(j);
      }
    SUCC;
  }
  int
  MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *d, int *k, void *e)
  {
    mpi_init();
    *k         = 1000 + keyvals++;
    (*kvs)[*k] = {d == MPI_COMM_NULL_DELETE_FN ? nullptr : d, e};
    SUCC;
  }
  int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; SUCC; }
  int
  MPI_Comm_set_attr(MPI_Comm c, int k, void *v)
  {
    C(c)->attr[k] = v;
    SUCC;
  }
  int
  MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f)
  {
    static int tag_ub = 1 << 30;
    if (k == MPI_TAG_UB)
      {
        *static_cast<int **>(v) = &tag_ub;
        *f                      = 1;
        SUCC;
      }
    auto &a = C(c)->attr;
    *f      = a.count(k);
    if (*f)
      *static_cast<void **>(v) = a[k];
    SUCC;
  }
  int
  MPI_Comm_delete_attr(MPI_Comm c, int k)
  {
    C(c)->attr.erase(k);
    SUCC;
  }
  int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { SUCC; }
  int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; SUCC; }
  int MPI_Errhandler_free(MPI_Errhandler *) { SUCC; }
  int MPI_Comm_set_name(MPI_Comm, const char *) { SUCC; }
  int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { n[0] = 0; *l = 0; SUCC; }
  int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; SUCC; }
  int MPI_Topo_test(MPI_Comm, int *f) { *f = MPI_UNDEFINED; SUCC; }
  int
  MPI_Error_string(int e, char *s, int *l)
  {
    *l = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e);
    SUCC;
  }
  int MPI_Error_class(int e, int *c) { *c = e; SUCC; }

  // ---- types
  int
  MPI_Type_size(MPI_Datatype t, int *s)
  {
    *s = int(T(t).size);
    SUCC;
  }
  int
  MPI_Type_size_x(MPI_Datatype t, MPI_Count *s)
  {
    *s = T(t).size;
    SUCC;
  }
  int
  MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e)
  {
    *lb = T(t).lb;
    *e  = T(t).extent;
    SUCC;
  }
  int
  MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e)
  {
    return MPI_Type_get_extent(t, lb, e);
  }
  static void
  rep(Type &o, const Type &b, long off, long n)
  {
    for (long i = 0; i < n; ++i)
      for (auto s : b.seg)
        {
          s.off += off + i * b.extent;
          o.seg.push_back(s);
        }
    o.size += n * b.size;
    if (n > 0)
      o.extent = std::max(o.extent, off + n * b.extent);
  }
  int
  MPI_Type_contiguous(int n, MPI_Datatype b, MPI_Datatype *o)
  {
    Type  t;
    auto &bt = T(b);
    if (contiguous(bt))
      {
        t.seg    = {{0, bt.seg[0].basic, bt.seg[0].n * n}};
        t.size   = bt.size * n;
        t.extent = bt.extent * n;
      }
    else
      rep(t, bt, 0, n);
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_create_hvector(int cnt, int bl, MPI_Aint st, MPI_Datatype b, MPI_Datatype *o)
  {
    Type t;
    for (int i = 0; i < cnt; ++i)
      rep(t, T(b), i * st, bl);
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_vector(int cnt, int bl, int st, MPI_Datatype b, MPI_Datatype *o)
  {
    return MPI_Type_create_hvector(cnt, bl, st * T(b).extent, b, o);
  }
  int
  MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype b, MPI_Datatype *o)
  {
    Type t;
    for (int i = 0; i < n; ++i)
      rep(t, T(b), d[i], bl[i]);
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype b, MPI_Datatype *o)
  {
    Type t;
    for (int i = 0; i < n; ++i)
      rep(t, T(b), d[i] * T(b).extent, bl[i]);
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_create_indexed_block(int n, int bl, const int *d, MPI_Datatype b, MPI_Datatype *o)
  {
    Type t;
    for (int i = 0; i < n; ++i)
      rep(t, T(b), d[i] * T(b).extent, bl);
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *b, MPI_Datatype *o)
  {
    Type t;
    for (int i = 0; i < n; ++i)
      {
        auto &bt = T(b[i]);
        if (contiguous(bt))
          {
            t.seg.push_back({d[i], bt.seg[0].basic, bt.seg[0].n * bl[i]});
            t.size += bt.size * bl[i];
            t.extent = std::max<long>(t.extent, d[i] + bt.extent * bl[i]);
          }
        else
          rep(t, bt, d[i], bl[i]);
      }
    *o = new_type(t);
    SUCC;
  }
  int
  MPI_Type_create_resized(MPI_Datatype b, MPI_Aint lb, MPI_Aint e, MPI_Datatype *o)
  {
    Type t   = T(b);
    t.lb     = lb;
    t.extent = e;
    *o       = new_type(t);
    SUCC;
  }
  int
  MPI_Type_dup(MPI_Datatype b, MPI_Datatype *o)
  {
    *o = new_type(T(b));
    SUCC;
  }
  int MPI_Type_commit(MPI_Datatype *) { SUCC; }
  int
  MPI_Type_free(MPI_Datatype *t)
  {
    types->erase(*t);
    *t = MPI_DATATYPE_NULL;
    SUCC;
  }
  int
  MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n)
  {
    const long sz = T(t).size;
    *n            = sz == 0 ? 0 : s->_ucount % sz ? MPI_UNDEFINED : int(s->_ucount / sz);
    SUCC;
  }
  int
  MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n)
  {
    return MPI_Get_count(s, t, n);
  }
  int
  MPI_Get_address(const void *p, MPI_Aint *a)
  {
    *a = reinterpret_cast<MPI_Aint>(p);
    SUCC;
  }
  int
  MPI_Op_create(MPI_User_function *f, int c, MPI_Op *o)
  {
    mpi_init();
    auto *u = new UserOp{f, bool(c)};
    uops->insert(u);
    *o = reinterpret_cast<MPI_Op>(u);
    SUCC;
  }
  int
  MPI_Op_free(MPI_Op *o)
  {
    *o = MPI_OP_NULL;
    SUCC;
  }
  int MPI_Info_create(MPI_Info *i) { *i = MPI_INFO_NULL; SUCC; }
  int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; SUCC; }
  int MPI_Info_set(MPI_Info, const char *, const char *) { SUCC; }

  // ---- point to point
  int
  MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
  {
    if (d == MPI_PROC_NULL)
      {
        *r = MPI_REQUEST_NULL;
        SUCC;
      }
    *r = mk_req(send_impl(b, n, t, d, tag, c, 0));
    SUCC;
  }
  int
  MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
  {
    *r = mk_req(send_impl(b, n, t, d, tag, c, 1));
    SUCC;
  }
  int
  MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
  {
    return MPI_Isend(b, n, t, d, tag, c, r);
  }
  int
  MPI_Wait(MPI_Request *r, MPI_Status *s)
  {
    std::vector<int> i;
    wait_impl(1, r, WAIT_ALL, i, s == MPI_STATUS_IGNORE ? nullptr : s, false);
    SUCC;
  }
  int
  MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
  {
    MPI_Request r;
    MPI_Isend(b, n, t, d, tag, c, &r);
    return MPI_Wait(&r, MPI_STATUS_IGNORE);
  }
  int
  MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
  {
    MPI_Request r;
    MPI_Issend(b, n, t, d, tag, c, &r);
    return MPI_Wait(&r, MPI_STATUS_IGNORE);
  }
  int
  MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
  {
    return MPI_Send(b, n, t, d, tag, c);
  }
  int
  MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
  {
    if (s == MPI_PROC_NULL)
      {
        *r = MPI_REQUEST_NULL;
        SUCC;
      }
    *r = recv_impl(b, n, t, s, tag, c);
    SUCC;
  }
  int
  MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
  {
    MPI_Request r;
    MPI_Irecv(b, n, t, s, tag, c, &r);
    return MPI_Wait(&r, st);
  }
  int
  MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stt)
  {
    MPI_Request r, q;
    MPI_Irecv(rb, rn, rt, s, rtag, c, &r);
    MPI_Isend(sb, sn, st, d, stag, c, &q);
    MPI_Wait(&r, stt);
    MPI_Wait(&q, MPI_STATUS_IGNORE);
    SUCC;
  }
  int
  MPI_Waitall(int n, MPI_Request *r, MPI_Status *s)
  {
    std::vector<int> i;
    wait_impl(n, r, WAIT_ALL, i, s == MPI_STATUSES_IGNORE ? nullptr : s, false);
    SUCC;
  }
  int
  MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s)
  {
    std::vector<int> i;
    wait_impl(n, r, WAIT_ANY, i, s == MPI_STATUS_IGNORE ? nullptr : s, true);
    *ix = i.empty() ? MPI_UNDEFINED : i[0];
    SUCC;
  }
  int
  MPI_Waitsome(int n, MPI_Request *r, int *oc, int *ix, MPI_Status *s)
  {
    std::vector<int> i;
    bool             any = false;
    for (int k = 0; k < n; ++k)
      any |= r[k] != MPI_REQUEST_NULL;
    wait_impl(n, r, WAIT_SOME, i, s == MPI_STATUSES_IGNORE ? nullptr : s, true);
    *oc = any ? int(i.size()) : MPI_UNDEFINED;
    for (size_t k = 0; k < i.size(); ++k)
      ix[k] = i[k];
    SUCC;
  }
  int
  MPI_Test(MPI_Request *r, int *f, MPI_Status *s)
  {
    std::vector<int> i;
    *f = wait_impl(1, r, TEST_ALL, i, s == MPI_STATUS_IGNORE ? nullptr : s, false);
    SUCC;
  }
  int
  MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s)
  {
    std::vector<int> i;
    *f = wait_impl(n, r, TEST_ALL, i, s == MPI_STATUSES_IGNORE ? nullptr : s, false);
    SUCC;
  }
  int
  MPI_Testany(int n, MPI_Request *r, int *ix, int *f, MPI_Status *s)
  {
    std::vector<int> i;
    *f  = wait_impl(n, r, TEST_ANY, i, s == MPI_STATUS_IGNORE ? nullptr : s, true);
    *ix = i.empty() ? MPI_UNDEFINED : i[0];
    SUCC;
  }
  int
  MPI_Testsome(int n, MPI_Request *r, int *oc, int *ix, MPI_Status *s)
  {
    std::vector<int> i;
    wait_impl(n, r, TEST_SOME, i, s == MPI_STATUSES_IGNORE ? nullptr : s, true);
    *oc = int(i.size());
    for (size_t k = 0; k < i.size(); ++k)
      ix[k] = i[k];
    SUCC;
  }
  int
  MPI_Request_free(MPI_Request *r)
  {
    *r = MPI_REQUEST_NULL;
    SUCC;
  }
  int
  MPI_Cancel(MPI_Request *r)
  {
    auto *q = reinterpret_cast<Request *>(*r);
    if (q->recv)
      {
        MB->a[0] = q->id;
        MB->len  = 0;
        call(OP_CANCEL);
        *r = MPI_REQUEST_NULL;
      }
    SUCC;
  }
  static int
  probe_impl(int s, int tag, MPI_Comm c, bool block, int *f, MPI_Status *st)
  {
    auto *cm = C(c);
    MB->len  = 0;
    MB->a[0] = cm->ctx;
    MB->a[1] = s == MPI_ANY_SOURCE ? -1 : cm->group[s];
    MB->a[2] = tag == MPI_ANY_TAG ? -1 : tag;
    MB->a[3] = block;
    call(OP_PROBE);
    *f = int(MB->r[0]);
    if (*f)
      fill_status(st, local_rank(cm, int(MB->r[1])), int(MB->r[2]), MB->r[3]);
    SUCC;
  }
  int
  MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st)
  {
    int f;
    return probe_impl(s, tag, c, true, &f, st);
  }
  int
  MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st)
  {
    return probe_impl(s, tag, c, false, f, st);
  }

  // ---- collectives
  int
  MPI_Barrier(MPI_Comm c)
  {
    if (g_n == 0)
      SUCC;
    coll(c, C_BARRIER, 0, {""});
    SUCC;
  }
  int
  MPI_Ibarrier(MPI_Comm c, MPI_Request *r)
  {
    int id;
    coll(c, C_BARRIER, 0, {""}, false, &id);
    auto *q = new Request;
    q->id   = id;
    q->coll = true;
    *r      = reinterpret_cast<MPI_Request>(q);
    SUCC;
  }
  int
  MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
  {
    if (g_n == 0)
      SUCC;
    auto      *cm = C(c);
    const bool me = cm->me == root;
    auto       p  = coll(c, C_BCAST, root, {me ? pack(b, n, t) : std::string()});
    if (!me)
      {
        if (long(p.p[0].size()) != n * T(t).size)
          misuse("broadcast length mismatch");
        unpack(p.p[0].data(), p.p[0].size(), b, n, t);
      }
    SUCC;
  }
  static const void *
  inplace(const void *s, const void *r)
  {
    return s == MPI_IN_PLACE ? r : s;
  }
  int
  MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
  {
    const std::string in = pack(inplace(s, r), n, t);
    if (g_n == 0)
      {
        unpack(in.data(), in.size(), r, n, t);
        SUCC;
      }
    auto p = coll(c, C_ALLREDUCE, 0, {in});
    auto o = reduce_all(op, t, n, p.p, p.perm);
    unpack(o.data(), o.size(), r, n, t);
    SUCC;
  }
  int
  MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq)
  {
    int id;
    coll(c, C_ALLREDUCE, 0, {pack(inplace(s, r), n, t)}, false, &id);
    auto *q = new Request;
    q->id   = id;
    q->coll = true;
    q->done = [=](std::string d) {
      auto p = parse_parts(d);
      auto o = reduce_all(op, t, n, p.p, p.perm);
      unpack(o.data(), o.size(), r, n, t);
    };
    *rq = reinterpret_cast<MPI_Request>(q);
    SUCC;
  }
  int
  MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
  {
    auto       *cm = C(c);
    const auto  in = pack(inplace(s, r), n, t);
    auto        p  = coll(c, C_REDUCE, root, {in});
    if (cm->me == root)
      {
        auto o = reduce_all(op, t, n, p.p, p.perm);
        unpack(o.data(), o.size(), r, n, t);
      }
    SUCC;
  }
  int
  MPI_Reduce_local(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op)
  {
    auto a = pack(s, n, t), b = pack(r, n, t);
    reduce_packed(op, t, n, a, b);
    unpack(b.data(), b.size(), r, n, t);
    SUCC;
  }
  static std::vector<int>
  iota_displs(int n, int cnt)
  {
    std::vector<int> d(n);
    for (int i = 0; i < n; ++i)
      d[i] = i * cnt;
    return d;
  }
  int
  MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *ds, MPI_Datatype rt, MPI_Comm c)
  {
    auto       *cm = C(c);
    std::string in;
    if (s == MPI_IN_PLACE)
      in = pack(static_cast<char *>(r) + long(ds[cm->me]) * T(rt).extent, rc[cm->me], rt);
    else
      in = pack(s, sn, st);
    if (g_n == 0)
      {
        unpack(in.data(), in.size(), static_cast<char *>(r) + long(ds[0]) * T(rt).extent, rc[0], rt);
        SUCC;
      }
    auto p = coll(c, C_ALLGATHER, 0, {in});
    for (size_t i = 0; i < p.p.size(); ++i)
      {
        if (long(p.p[i].size()) != rc[i] * T(rt).size)
          misuse("allgather length mismatch");
        unpack(p.p[i].data(), p.p[i].size(), static_cast<char *>(r) + long(ds[i]) * T(rt).extent, rc[i], rt);
      }
    SUCC;
  }
  int
  MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
  {
    const int        n = int(C(c)->group.size());
    std::vector<int> rc(n, rn), ds = iota_displs(n, rn);
    return MPI_Allgatherv(s, sn, st, r, rc.data(), ds.data(), rt, c);
  }
  int
  MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *ds, MPI_Datatype rt, int root, MPI_Comm c)
  {
    auto       *cm = C(c);
    std::string in;
    if (s == MPI_IN_PLACE)
      in = pack(static_cast<char *>(r) + long(ds[cm->me]) * T(rt).extent, rc[cm->me], rt);
    else
      in = pack(s, sn, st);
    auto p = coll(c, C_GATHER, root, {in});
    if (cm->me == root)
      for (size_t i = 0; i < p.p.size(); ++i)
        {
          if (long(p.p[i].size()) != rc[i] * T(rt).size)
            misuse("gather length mismatch");
          unpack(p.p[i].data(), p.p[i].size(), static_cast<char *>(r) + long(ds[i]) * T(rt).extent, rc[i], rt);
        }
    SUCC;
  }
  int
  MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
  {
    const int        n = int(C(c)->group.size());
    std::vector<int> rc(n, rn), ds = iota_displs(n, rn);
    return MPI_Gatherv(s, sn, st, r, rc.data(), ds.data(), rt, root, c);
  }
  int
  MPI_Scatterv(const void *s, const int *sc, const int *ds, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
  {
    auto                    *cm = C(c);
    std::vector<std::string> ps{""};
    if (cm->me == root)
      {
        ps.clear();
        for (size_t i = 0; i < cm->group.size(); ++i)
          ps.push_back(pack(static_cast<const char *>(s) + long(ds[i]) * T(st).extent, sc[i], st));
      }
    auto p = coll(c, C_SCATTER, root, ps);
    if (r != MPI_IN_PLACE)
      unpack(p.p[0].data(), p.p[0].size(), r, rn, rt);
    SUCC;
  }
  int
  MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
  {
    const int        n = int(C(c)->group.size());
    std::vector<int> sc(n, sn), ds = iota_displs(n, sn);
    return MPI_Scatterv(s, sc.data(), ds.data(), st, r, rn, rt, root, c);
  }
  int
  MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
  {
    auto                    *cm = C(c);
    std::vector<std::string> ps;
    for (size_t i = 0; i < cm->group.size(); ++i)
      ps.push_back(pack(static_cast<const char *>(s) + long(sd[i]) * T(st).extent, sc[i], st));
    auto p = coll(c, C_ALLTOALL, 0, ps);
    for (size_t i = 0; i < p.p.size(); ++i)
      {
        if (long(p.p[i].size()) > rc[i] * T(rt).size)
          misuse("alltoall length mismatch");
        unpack(p.p[i].data(), p.p[i].size(), static_cast<char *>(r) + long(rd[i]) * T(rt).extent, rc[i], rt);
      }
    SUCC;
  }
  int
  MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
  {
    const int        n = int(C(c)->group.size());
    std::vector<int> sc(n, sn), sd = iota_displs(n, sn), rc(n, rn), rd = iota_displs(n, rn);
    return MPI_Alltoallv(s, sc.data(), sd.data(), st, r, rc.data(), rd.data(), rt, c);
  }
  int
  MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
  {
    auto p = coll(c, C_SCAN, 0, {pack(inplace(s, r), n, t)});
    auto o = reduce_all(op, t, n, p.p, 0);
    unpack(o.data(), o.size(), r, n, t);
    SUCC;
  }
  int
  MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
  {
    auto p = coll(c, C_EXSCAN, 0, {pack(inplace(s, r), n, t)});
    if (C(c)->me > 0)
      {
        p.p.pop_back();
        auto o = reduce_all(op, t, n, p.p, 0);
        unpack(o.data(), o.size(), r, n, t);
      }
    SUCC;
  }
  int
  MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
  {
    auto     *cm = C(c);
    const int g  = int(cm->group.size());
    auto      p  = coll(c, C_REDSCATTER, 0, {pack(inplace(s, r), n * g, t)});
    auto      o  = reduce_all(op, t, n * g, p.p, 0);
    const long l = n * T(t).size;
    unpack(o.data() + l * cm->me, l, r, n, t);
    SUCC;
  }
  int
  MPI_Reduce_scatter(const void *s, void *r, const int *cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c)
  {
    auto *cm  = C(c);
    int   tot = 0, off = 0;
    for (int i = 0; i < int(cm->group.size()); ++i)
      {
        if (i < cm->me)
          off += cnt[i];
        tot += cnt[i];
      }
    auto p = coll(c, C_REDSCATTER, 0, {pack(inplace(s, r), tot, t)});
    auto o = reduce_all(op, t, tot, p.p, 0);
    unpack(o.data() + off * T(t).size, cnt[cm->me] * T(t).size, r, cnt[cm->me], t);
    SUCC;
  }

  // ---- MPI-IO on real files below the scratch directory, with faults
  struct SimFile
  {
    int          fd;
    std::string  path;
    MPI_Comm     comm;
    MPI_Offset   disp  = 0;
    MPI_Datatype etype = nullptr, ftype = nullptr;
    MPI_Offset   pos = 0;
    MPI_Comm     own = nullptr;
  };
#define F(x) reinterpret_cast<SimFile *>(x)
  int
  MPI_File_open(MPI_Comm c, const char *p, int am, MPI_Info, MPI_File *f)
  {
    int fl = (am & MPI_MODE_RDWR) ? O_RDWR : (am & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY;
    if (am & MPI_MODE_CREATE)
      fl |= O_CREAT;
    int       err = 0;
    const bool w  = fl != O_RDONLY;
    int        fd = -1;
    if (!pre_open(p, w))
      err = errno;
    else
      {
        fd = int(syscall(SYS_openat, AT_FDCWD, p, fl, 0644));
        if (fd < 0)
          err = errno;
      }
    // collective outcome
    auto  ps   = coll(c, C_ALLGATHER, 0, {std::string(reinterpret_cast<char *>(&err), 4)});
    int   worst = 0;
    for (auto &x : ps.p)
      {
        int e;
        memcpy(&e, x.data(), 4);
        if (e)
          worst = e;
      }
    if (worst)
      {
        if (fd >= 0)
          syscall(SYS_close, fd);
        *f = MPI_FILE_NULL;
        return worst == ENOENT ? MPI_ERR_NO_SUCH_FILE : worst == ENOSPC ? MPI_ERR_NO_SPACE : worst == EACCES ? MPI_ERR_ACCESS : MPI_ERR_IO;
      }
    auto *x = new SimFile;
    x->fd   = fd;
    x->path = p;
    x->comm = c;
    *f      = reinterpret_cast<MPI_File>(x);
    SUCC;
  }
  int
  MPI_File_close(MPI_File *f)
  {
    auto *x = F(*f);
    coll(x->comm, C_BARRIER, 0, {""});
    syscall(SYS_close, x->fd);
    delete x;
    *f = MPI_FILE_NULL;
    SUCC;
  }
  int
  MPI_File_set_size(MPI_File f, MPI_Offset s)
  {
    // collective; one effect
    auto *x   = F(f);
    int   err = 0;
    if (C(x->comm)->me == 0)
      {
        const auto a = fs(FS_WRITE, x->path, 0);
        if (a.d == FSD_ERR)
          err = int(a.v);
        else if (a.d == FSD_CRASH_BEFORE || a.d == FSD_CRASH_TORN)
          die_here();
        else
          {
            if (ftruncate(x->fd, s))
              err = errno;
            if (a.d == FSD_CRASH_AFTER)
              die_here();
          }
      }
    auto ps = coll(x->comm, C_ALLGATHER, 0, {std::string(reinterpret_cast<char *>(&err), 4)});
    memcpy(&err, ps.p[0].data(), 4);
    return err ? MPI_ERR_IO : MPI_SUCCESS;
  }
  int
  MPI_File_preallocate(MPI_File f, MPI_Offset s)
  {
    auto *x = F(f);
    if (C(x->comm)->me == 0)
      {
        struct stat st;
        if (fstat(x->fd, &st) == 0 && st.st_size < s)
          (void)!ftruncate(x->fd, s);
      }
    coll(x->comm, C_BARRIER, 0, {""});
    SUCC;
  }
  int
  MPI_File_get_size(MPI_File f, MPI_Offset *s)
  {
    struct stat st;
    fstat(F(f)->fd, &st);
    *s = st.st_size;
    SUCC;
  }
  int
  MPI_File_sync(MPI_File f)
  {
    fs(FS_SYNC, F(f)->path, 0);
    SUCC;
  }
  int
  MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype e, MPI_Datatype t, const char *, MPI_Info)
  {
    auto *x  = F(f);
    coll(x->comm, C_BARRIER, 0, {""});
    x->disp  = d;
    x->etype = e;
    x->ftype = t;
    x->pos   = 0;
    SUCC;
  }
  int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { SUCC; }
  int MPI_File_get_errhandler(MPI_File, MPI_Errhandler *e) { *e = MPI_ERRORS_RETURN; SUCC; }
  int MPI_File_set_atomicity(MPI_File, int) { SUCC; }
  int MPI_File_set_info(MPI_File, MPI_Info) { SUCC; }
  // map a linear byte range of the view to file extents
  static std::vector<std::pair<off_t, size_t>>
  extents(SimFile *x, MPI_Offset linear, size_t n)
  {
    std::vector<std::pair<off_t, size_t>> r;
    if (!x->ftype || contiguous(T(x->ftype)))
      {
        r.emplace_back(x->disp + linear, n);
        return r;
      }
    auto &t = T(x->ftype);
    if (t.size == 0)
      return r;
    MPI_Offset tile = linear / t.size;
    MPI_Offset rem  = linear % t.size;
    while (n > 0)
      {
        for (auto &s : t.seg)
          {
            const MPI_Offset l = s.n * bsize[s.basic];
            if (rem >= l)
              {
                rem -= l;
                continue;
              }
            const size_t m = std::min<size_t>(n, l - rem);
            r.emplace_back(x->disp + tile * t.extent + s.off + rem, m);
            n -= m;
            rem = 0;
            if (!n)
              break;
          }
        ++tile;
      }
    return r;
  }
  static int
  file_rw(SimFile *x, MPI_Offset off, void *b, int n, MPI_Datatype t, MPI_Status *st, bool w)
  {
    const long es  = x->etype ? T(x->etype).size : 1;
    size_t     tot = size_t(n) * T(t).size, done = 0;
    std::string buf = w ? pack(b, n, t) : std::string(tot, 0);
    int         err = 0;
    for (auto [o, l] : extents(x, off * es, tot))
      {
        size_t k = 0;
        while (k < l)
          {
            // the MPI library itself retries short transfers
            const ssize_t m = w ? sim_write(x->fd, buf.data() + done, l - k, o + k, x->path) : sim_read(x->fd, buf.data() + done, l - k, o + k, x->path);
            if (m < 0)
              {
                err = errno;
                break;
              }
            if (m == 0)
              break;
            k += m;
            done += m;
          }
        if (k < l)
          break;
      }
    if (!w)
      unpack(buf.data(), done, b, n, t);
    fill_status(st, 0, 0, done);
    return err ? (err == ENOSPC ? MPI_ERR_NO_SPACE : MPI_ERR_IO) : MPI_SUCCESS;
  }
  static int
  all_rw(SimFile *x, MPI_Offset off, void *b, int n, MPI_Datatype t, MPI_Status *st, bool w)
  {
    const int e = file_rw(x, off, b, n, t, st, w);
    coll(x->comm, C_BARRIER, 0, {""});
    return e;
  }
  int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { return file_rw(F(f), o, const_cast<void *>(b), n, t, s, true); }
  int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { return file_rw(F(f), o, b, n, t, s, false); }
  int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { return all_rw(F(f), o, const_cast<void *>(b), n, t, s, true); }
  int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { return all_rw(F(f), o, b, n, t, s, false); }
  static int
  ptr_rw(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *s, bool w, bool all)
  {
    auto      *x  = F(f);
    const long es = x->etype ? T(x->etype).size : 1;
    MPI_Status q;
    const int  e = all ? all_rw(x, x->pos, b, n, t, &q, w) : file_rw(x, x->pos, b, n, t, &q, w);
    x->pos += q._ucount / es;
    if (s != MPI_STATUS_IGNORE && s)
      *s = q;
    return e;
  }
  int MPI_File_write(MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *s) { return ptr_rw(f, const_cast<void *>(b), n, t, s, true, false); }
  int MPI_File_write_all(MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *s) { return ptr_rw(f, const_cast<void *>(b), n, t, s, true, true); }
  int MPI_File_read(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *s) { return ptr_rw(f, b, n, t, s, false, false); }
  int MPI_File_read_all(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *s) { return ptr_rw(f, b, n, t, s, false, true); }
  int
  MPI_File_seek(MPI_File f, MPI_Offset o, int wh)
  {
    auto *x = F(f);
    if (wh == MPI_SEEK_SET)
      x->pos = o;
    else if (wh == MPI_SEEK_CUR)
      x->pos += o;
    else
      {
        struct stat st;
        fstat(x->fd, &st);
        x->pos = st.st_size + o;
      }
    SUCC;
  }
  int
  MPI_File_get_position(MPI_File f, MPI_Offset *o)
  {
    *o = F(f)->pos;
    SUCC;
  }
  void
  sim_unimpl(const char *n)
  {
    if (MB)
      misuse(std::string("SIM: unimplemented ") + n);
    dprintf(2, "SIM: unimplemented %s\n", n);
    abort();
  }
}
extern "C" int
MPI_Alloc_mem(MPI_Aint size, MPI_Info, void *baseptr)
{
  *static_cast<void **>(baseptr) = malloc(size > 0 ? size : 1);
  return MPI_SUCCESS;
}
extern "C" int
MPI_Free_mem(void *p)
{
  free(p);
  return MPI_SUCCESS;
}
