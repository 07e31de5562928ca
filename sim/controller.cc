#include "sim.h"

#include "proto.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <math.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <list>
#include <queue>

namespace sim
{
  void
  guest_bind(Mailbox *mb, int rank, int n, uint64_t heap_seed, int fill);
  void
  guest_run(const std::function<void(int)> &fn);

  std::string
  fmt(const char *f, ...)
  {
    char    buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
  }

  static void
  futex_wait(std::atomic<uint32_t> *p, uint32_t v, long ms)
  {
    timespec ts{ms / 1000, (ms % 1000) * 1000000};
    syscall(SYS_futex, p, FUTEX_WAIT, v, ms > 0 ? &ts : nullptr, nullptr, 0);
  }
  static void
  futex_wake(std::atomic<uint32_t> *p)
  {
    syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0);
  }
  void
  mb_to_guest(Mailbox *m)
  {
    m->turn.store(1, std::memory_order_release);
    futex_wake(&m->turn);
  }
  void
  mb_to_controller(Mailbox *m)
  {
    m->turn.store(0, std::memory_order_release);
    futex_wake(&m->turn);
    while (m->turn.load(std::memory_order_acquire) == 0)
      futex_wait(&m->turn, 0, 0);
  }

  static constexpr size_t MB_BYTES  = size_t(48) << 20;
  static constexpr int    MAX_RANKS = 10;
  static char            *g_arena   = nullptr;

  struct Msg
  {
    int         src, dst, ctx, tag, send_req, src_rank_req;
    uint64_t    id, sent, arrive;
    bool        rendezvous;
    std::string data;
  };
  struct Req
  {
    enum T
    {
      SEND,
      RECV,
      COLL
    } t;
    bool        done = false, consumed = false;
    int         src = -1, tag = -1, ctx = 0, wsrc = -1, wtag = -1;
    uint64_t    maxlen = 0;
    std::string data; // packed result
    uint64_t    len = 0;
    uint64_t    done_seq = 0;
  };
  struct CollInst
  {
    int                                  kind = -1, root = -1, size = 0;
    int                                  n_arrived = 0, ctx_base = 0;
    uint64_t                             perm = 0;
    std::vector<bool>                    arrived;
    std::vector<std::vector<std::string>> parts;
    std::vector<std::pair<int, int>>     waiting; // rank, reqid (not yet done)
    std::vector<int>                     idx_of;  // group idx of waiting
    int                                  n_done = 0;
    bool                                 sync   = false;
  };
  struct RankState
  {
    pid_t    pid = 0;
    Mailbox *mb  = nullptr;
    bool     alive = true, blocked = false;
    bool     op_pending = false;
    std::map<int, Req>                   reqs;
    int                                  next_req = 1;
    std::list<int>                       posted;     // recv reqs in post order
    std::vector<Msg>                     unexpected; // arrived, unmatched
    std::map<int, uint64_t>              coll_seq;   // ctx -> count
    // blocked state
    std::vector<int> wait_list;
    int              wait_mode = 0;
    bool             in_probe  = false;
    unsigned         poll_streak = 0; // consecutive unsuccessful polls
    int              p_ctx = 0, p_src = 0, p_tag = 0;
    RankEnd          end;
    int64_t          wall_off = 0;
    double           drift    = 0;
  };
  struct Ev
  {
    uint64_t t, seq;
    int      type; // 0: op of rank, 1: deliver msg, 2: complete coll req
    int      rank;
    uint64_t x;
    bool
    operator<(const Ev &o) const
    {
      return t != o.t ? t > o.t : seq > o.seq;
    }
  };

  struct Job
  {
    Sim                                   &sim;
    const Env                             &env;
    int                                    n;
    JobResult                              res;
    std::vector<RankState>                 R;
    std::priority_queue<Ev>                Q;
    std::map<uint64_t, Msg>                inflight;
    std::map<std::array<int, 3>, uint64_t> chan_last;
    std::map<std::pair<int, uint64_t>, CollInst> colls;
    uint64_t seq = 0, now = 0, msg_id = 0, rec_seq = 0, done_seq = 0;
    int      next_ctx = 16;
    bool     stop     = false;
    long     fs_count = 0, fs_ops = 0;
    std::map<int, uint64_t> last_sent_arrival; // dst -> max send time arrived

    Job(Sim &s, const Env &e, int n)
      : sim(s)
      , env(e)
      , n(n)
    {}

    void
    finish(JobResult::Status st, const std::string &d)
    {
      if (stop)
        return;
      stop       = true;
      res.status = st;
      res.detail = d;
    }
    void
    tr(const std::string &s)
    {
      if (sim.keep_trace && sim.trace.size() < 20000)
        sim.trace.push_back(fmt("t=%.3fus ", now / 1000.0) + s);
    }
    uint64_t
    mixop(int rank, uint32_t op, const Mailbox *m)
    {
      uint64_t v[4] = {uint64_t(rank), op, m->len, now};
      sim.mix(v, sizeof v);
      sim.mix(m->a, sizeof m->a);
      sim.mix(m->data, std::min<uint64_t>(m->len, 4096));
      if (getenv("SIM_DIFF"))
        {
          std::string h;
          for (uint64_t i = 0; i < std::min<uint64_t>(m->len, 600); ++i)
            h += fmt("%02x", uint8_t(m->data[i]));
          tr(fmt("#%016llx rank %d op %u len %u a ", (unsigned long long)sim.hash, rank, op, unsigned(m->len)) +
             fmt("%llx %llx %llx %llx ", (unsigned long long)m->a[0], (unsigned long long)m->a[1], (unsigned long long)m->a[2], (unsigned long long)m->a[3]) + h);
        }
      return 0;
    }

    // let the guest run until its next operation
    void
    run_guest(int r)
    {
      auto *m = R[r].mb;
      m->now_ns = int64_t(now);
      m->wall_off_ns = R[r].wall_off;
      m->drift       = R[r].drift;
      m->op          = OP_NONE;
      for (;;)
        {
          memset(m->a, 0, sizeof m->a);
          mb_to_guest(m);
          int spins = 0;
          while (m->turn.load(std::memory_order_acquire) == 1)
            {
              futex_wait(&m->turn, 1, 20);
              if (m->turn.load(std::memory_order_acquire) == 1)
                {
                  int       st;
                  const pid_t p = waitpid(R[r].pid, &st, WNOHANG);
                  if (p == R[r].pid)
                    {
                      if (m->turn.load(std::memory_order_acquire) == 0)
                        break;
                      R[r].alive = false;
                      R[r].pid   = 0;
                      R[r].end.signal =
                        WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
                      const int sg = R[r].end.signal;
                      if (sg == SIGXCPU || sg == SIGKILL)
                        finish(JobResult::livelock,
                               fmt("rank %d spins without communicating (cpu "
                                   "limit, signal %d)",
                                   r,
                                   sg));
                      else
                        finish(JobResult::died,
                               fmt("rank %d killed by signal %d", r, sg));
                      return;
                    }
                  ++spins;
                }
            }
          // immediate services, not scheduling points
          if (m->op == OP_RECORD)
            {
              Record rec;
              rec.seq  = ++rec_seq;
              rec.time = now;
              rec.rank = r;
              rec.key.assign(m->data, m->a[0]);
              rec.data.assign(m->data + m->a[0], m->len - m->a[0]);
              sim.mix(rec.key.data(), rec.key.size());
              sim.mix(rec.data.data(), rec.data.size());
              if (getenv("SIM_DIFF"))
                tr(fmt("#%016llx record ", (unsigned long long)sim.hash) + rec.key);
              res.records.push_back(std::move(rec));
              m->len = 0;
              continue;
            }
          if (m->op == OP_FAULT)
            {
              double p;
              memcpy(&p, m->data, 8);
              const std::string kind(m->data + 8, m->len - 8);
              m->r[0] = sim.S.chance(p);
              if (m->r[0])
                {
                  sim.faults[kind]++;
                  tr(fmt("fault %s fires on rank %d", kind.c_str(), r));
                }
              m->len = 0;
              continue;
            }
          break;
        }
      // schedule the operation
      uint64_t cost = uint64_t(env.compute_ns);
      if ((m->op == OP_PROBE && !m->a[3]) ||
          (m->op == OP_WAIT && m->a[1] >= TEST_ALL))
        {
          // busy polling backs off in simulated time (bounds the run length)
          if (R[r].poll_streak > 8)
            cost += uint64_t(500) << std::min(R[r].poll_streak - 8, 15u);
        }
      else
        R[r].poll_streak = 0;
      if (m->op == OP_YIELD)
        cost += uint64_t(m->a[0]);
      if (env.p_jitter > 0)
        cost += (uint64_t(500) << (2 * sim.S.draw_p(7, env.p_jitter))) - 500;
      if (env.p_stall > 0 && sim.S.chance(env.p_stall))
        {
          const uint64_t st = uint64_t(50'000'000)
                              << (2 * sim.S.draw(5)); // 50ms .. 12.8s
          cost += st;
          sim.faults["rank_stall"]++;
          tr(fmt("rank %d stalls for %.3fs", r, st * 1e-9));
        }
      Q.push({now + cost, ++seq, 0, r, 0});
      R[r].op_pending = true;
    }
    void
    reply(int r)
    {
      if (!stop)
        {
          R[r].blocked = false;
          run_guest(r);
        }
    }

    static bool
    match(const Req &q, const Msg &m)
    {
      return q.ctx == m.ctx && (q.wsrc == -1 || q.wsrc == m.src) &&
             (q.wtag == -1 || q.wtag == m.tag);
    }
    void
    complete_recv(int r, int id, Msg &m)
    {
      auto &q = R[r].reqs[id];
      if (m.data.size() > q.maxlen)
        {
          finish(JobResult::misuse,
                 fmt("message truncation: rank %d receives %zu bytes from %d "
                     "tag %d into %zu",
                     r,
                     m.data.size(),
                     m.src,
                     m.tag,
                     size_t(q.maxlen)));
          return;
        }
      q.done     = true;
      q.done_seq = ++done_seq;
      q.src      = m.src;
      q.tag      = m.tag;
      q.len      = m.data.size();
      q.data     = std::move(m.data);
      uint64_t v[4] = {uint64_t(r), uint64_t(m.src), uint64_t(m.tag), uint64_t(m.ctx)};
      for (auto x : v)
        {
          sim.order_hash ^= x;
          sim.order_hash *= 1099511628211ull;
        }
      if (m.rendezvous)
        {
          auto it = R[m.src].reqs.find(m.send_req);
          if (it != R[m.src].reqs.end())
            {
              it->second.done     = true;
              it->second.done_seq = ++done_seq;
              wake_check(m.src);
            }
        }
    }
    void
    deliver(Msg m)
    {
      auto &rs = R[m.dst];
      if (!rs.alive)
        return;
      auto &la = last_sent_arrival[m.dst];
      if (m.sent < la)
        sim.faults["message_reorder"]++;
      la = std::max(la, m.sent);
      for (auto it = rs.posted.begin(); it != rs.posted.end(); ++it)
        if (match(rs.reqs[*it], m))
          {
            const int id  = *it;
            const int dst = m.dst;
            rs.posted.erase(it);
            complete_recv(dst, id, m);
            if (!stop)
              wake_check(dst);
            return;
          }
      const int dst = m.dst;
      rs.unexpected.push_back(std::move(m));
      wake_check(dst);
    }

    // is a blocked rank able to continue?
    void
    wake_check(int r)
    {
      auto &rs = R[r];
      if (!rs.blocked || stop)
        return;
      if (rs.in_probe)
        {
          if (try_probe(r))
            {
              rs.in_probe = false;
              reply(r);
            }
          return;
        }
      if (try_wait(r))
        reply(r);
    }
    bool
    try_probe(int r)
    {
      auto &rs = R[r];
      for (auto &m : rs.unexpected)
        if (m.ctx == rs.p_ctx && (rs.p_src == -1 || rs.p_src == m.src) &&
            (rs.p_tag == -1 || rs.p_tag == m.tag))
          {
            rs.mb->r[0] = 1;
            rs.mb->r[1] = m.src;
            rs.mb->r[2] = m.tag;
            rs.mb->r[3] = m.data.size();
            rs.mb->len  = 0;
            return true;
          }
      return false;
    }
    // Fill the reply of a wait/test if it can complete
    bool
    try_wait(int r)
    {
      auto            &rs   = R[r];
      const int        mode = rs.wait_mode;
      std::vector<int> ready; // positions
      unsigned         active = 0;
      for (unsigned i = 0; i < rs.wait_list.size(); ++i)
        {
          const int id = rs.wait_list[i];
          if (id == 0)
            continue;
          ++active;
          if (rs.reqs.at(id).done)
            ready.push_back(i);
        }
      std::vector<int> out;
      if (active == 0)
        out = {};
      else if (mode == WAIT_ALL || mode == TEST_ALL)
        {
          if (ready.size() < active)
            {
              if (mode == WAIT_ALL)
                return false;
              emit(r, {}, false);
              return true;
            }
          out = ready;
        }
      else
        {
          if (ready.empty())
            {
              if (mode == WAIT_ANY || mode == WAIT_SOME)
                return false;
              emit(r, {}, false);
              return true;
            }
          if (mode == WAIT_ANY || mode == TEST_ANY)
            out = {ready[ready.size() > 1 ? sim.S.draw(ready.size()) : 0]};
          else
            {
              // completion order, possibly only a part of it
              out = ready;
              if (ready.size() > 1 && sim.S.draw_p(2, 0.3))
                out.resize(1 + sim.S.draw(ready.size() - 1));
            }
        }
      emit(r, out, true);
      return true;
    }
    void
    emit(int r, const std::vector<int> &pos, bool flag)
    {
      auto &rs = R[r];
      auto *m  = rs.mb;
      m->r[0]  = flag;
      m->r[1]  = pos.size();
      char    *p   = m->data;
      uint64_t tot = 0;
      for (int i : pos)
        {
          auto    &q    = rs.reqs.at(rs.wait_list[i]);
          int64_t  h[5] = {i, q.src, q.tag, int64_t(q.len), int64_t(q.data.size())};
          if (tot + sizeof h + q.data.size() > m->data_cap)
            {
              finish(JobResult::misuse, "SIM: mailbox overflow");
              return;
            }
          memcpy(p + tot, h, sizeof h);
          tot += sizeof h;
          memcpy(p + tot, q.data.data(), q.data.size());
          tot += q.data.size();
          rs.reqs.erase(rs.wait_list[i]);
        }
      m->len = tot;
    }

    std::string
    pack_parts(const std::vector<const std::string *> &ps, uint64_t perm, int base)
    {
      std::string s;
      uint64_t    h[3] = {ps.size(), perm, uint64_t(base)};
      s.append((char *)h, sizeof h);
      for (auto *p : ps)
        {
          uint64_t l = p->size();
          s.append((char *)&l, 8);
        }
      for (auto *p : ps)
        s += *p;
      return s;
    }
    bool
    coll_ready(const CollInst &c, int idx)
    {
      const bool all = c.n_arrived == c.size;
      if (c.sync)
        return all;
      switch (c.kind)
        {
          case C_BCAST:
          case C_SCATTER:
            return c.arrived[c.root];
          case C_REDUCE:
          case C_GATHER:
            return idx == c.root ? all : true;
          case C_SCAN:
          case C_EXSCAN:
            for (int i = 0; i <= idx; ++i)
              if (!c.arrived[i])
                return false;
            return true;
          default:
            return all;
        }
    }
    std::string
    coll_result(CollInst &c, int idx)
    {
      std::vector<const std::string *> ps;
      switch (c.kind)
        {
          case C_BARRIER:
            break;
          case C_BCAST:
            ps.push_back(&c.parts[c.root][0]);
            break;
          case C_SCATTER:
            ps.push_back(&c.parts[c.root][idx]);
            break;
          case C_ALLTOALL:
            for (int i = 0; i < c.size; ++i)
              ps.push_back(&c.parts[i][idx]);
            break;
          case C_REDUCE:
          case C_GATHER:
            if (idx != c.root)
              break;
            [[fallthrough]];
          case C_ALLREDUCE:
          case C_ALLGATHER:
          case C_COMM:
          case C_REDSCATTER:
            for (int i = 0; i < c.size; ++i)
              ps.push_back(&c.parts[i][0]);
            break;
          case C_SCAN:
          case C_EXSCAN:
            for (int i = 0; i <= idx; ++i)
              ps.push_back(&c.parts[i][0]);
            break;
        }
      return pack_parts(ps, c.perm, c.ctx_base);
    }
    void
    coll_progress(std::pair<int, uint64_t> key)
    {
      auto &c = colls.at(key);
      for (size_t i = 0; i < c.waiting.size();)
        {
          if (coll_ready(c, c.idx_of[i]))
            {
              auto [r, id] = c.waiting[i];
              auto &q      = R[r].reqs.at(id);
              q.data       = coll_result(c, c.idx_of[i]);
              q.len        = q.data.size();
              c.waiting.erase(c.waiting.begin() + i);
              c.idx_of.erase(c.idx_of.begin() + i);
              ++c.n_done;
              uint64_t lat = 1000;
              if (env.p_latency > 0)
                lat = uint64_t(1000) << (2 * sim.S.draw_p(6, env.p_latency));
              Q.push({now + lat, ++seq, 2, r, uint64_t(id)});
            }
          else
            ++i;
        }
      if (c.n_done == c.size)
        colls.erase(key);
    }

    void
    process_op(int r)
    {
      auto &rs = R[r];
      auto *m  = rs.mb;
      rs.op_pending = false;
      ++res.n_ops;
      mixop(r, m->op, m);
      if (env.p_clock_jump > 0 && sim.S.chance(env.p_clock_jump))
        {
          const double j =
            env.clock_jump_max_s * (int(sim.S.draw(2001)) - 1000) / 1000.;
          rs.wall_off += int64_t(j * 1e9);
          sim.faults["clock_jump"]++;
          tr(fmt("rank %d wall clock jumps by %.3fs", r, j));
        }
      if (env.crash_at_op >= 0 && long(res.n_ops) > env.crash_at_op)
        {
          sim.faults["crash_at_op"]++;
          tr("job killed");
          finish(JobResult::crashed, fmt("killed at op %ld", env.crash_at_op));
          return;
        }
      if (res.n_ops > env.max_ops)
        {
          finish(JobResult::livelock,
                 fmt("operation budget %llu exhausted",
                     (unsigned long long)env.max_ops));
          return;
        }
      switch (m->op)
        {
          case OP_START:
          case OP_YIELD:
          case OP_CLOCK:
            m->len = 0;
            reply(r);
            break;
          case OP_SEND:
            {
              Msg msg;
              msg.src = r;
              msg.ctx = m->a[0];
              msg.dst = m->a[1];
              msg.tag = m->a[2];
              const int mode = m->a[3]; // 0 standard 1 synchronous
              msg.data.assign(m->data, m->len);
              msg.id   = ++msg_id;
              msg.sent = now;
              ++res.n_msgs;
              if (msg.dst < 0 || msg.dst >= n)
                {
                  finish(JobResult::misuse, fmt("rank %d sends to invalid rank %d", r, msg.dst));
                  return;
                }
              msg.rendezvous =
                mode == 1 ||
                (env.p_rendezvous > 0 && sim.S.chance(env.p_rendezvous));
              if (msg.rendezvous && mode != 1)
                sim.faults["rendezvous_send"]++;
              const int id = rs.next_req++;
              msg.send_req = id;
              Req q;
              q.t    = Req::SEND;
              q.done = !msg.rendezvous;
              q.done_seq = ++done_seq;
              rs.reqs[id] = q;
              uint64_t lat = 2000;
              if (env.p_latency > 0)
                {
                  const auto k = sim.S.draw_p(9, env.p_latency);
                  lat          = uint64_t(2000) << (2 * k);
                  if (k >= 3)
                    sim.faults["message_delay"]++;
                }
              auto &last = chan_last[{r, msg.dst, msg.ctx}];
              msg.arrive = std::max(now + lat, last + 1);
              last       = msg.arrive;
              if (sim.keep_trace)
                tr(fmt("%d -> %d tag %d, %zu bytes, arrives %.3fus%s", r, msg.dst, msg.tag, msg.data.size(), msg.arrive / 1000.0, msg.rendezvous ? " (rendezvous)" : ""));
              Q.push({msg.arrive, ++seq, 1, msg.dst, msg.id});
              inflight[msg.id] = std::move(msg);
              m->r[0]          = id;
              m->len           = 0;
              reply(r);
              break;
            }
          case OP_IRECV:
            {
              const int id = rs.next_req++;
              Req       q;
              q.t      = Req::RECV;
              q.ctx    = m->a[0];
              q.wsrc   = m->a[1];
              q.wtag   = m->a[2];
              q.maxlen = m->a[3];
              rs.reqs[id] = q;
              bool found = false;
              for (auto it = rs.unexpected.begin(); it != rs.unexpected.end(); ++it)
                if (match(q, *it))
                  {
                    Msg mm = std::move(*it);
                    rs.unexpected.erase(it);
                    complete_recv(r, id, mm);
                    found = true;
                    break;
                  }
              if (!found)
                rs.posted.push_back(id);
              m->r[0] = id;
              m->len  = 0;
              reply(r);
              break;
            }
          case OP_CANCEL:
            {
              const int id = m->a[0];
              rs.posted.remove(id);
              rs.reqs.erase(id);
              m->len = 0;
              reply(r);
              break;
            }
          case OP_WAIT:
            {
              const int cnt = m->a[0];
              rs.wait_mode  = m->a[1];
              rs.wait_list.resize(cnt);
              memcpy(rs.wait_list.data(), m->data, 4 * cnt);
              m->len = 0;
              if (rs.wait_mode >= TEST_ALL && env.p_probe_miss > 0 &&
                  sim.S.chance(env.p_probe_miss))
                {
                  sim.faults["test_miss"]++;
                  m->r[0] = 0;
                  m->r[1] = 0;
                  ++rs.poll_streak;
                  reply(r);
                  break;
                }
              if (try_wait(r))
                {
                  if (rs.wait_mode >= TEST_ALL && m->r[0] == 0)
                    ++rs.poll_streak;
                  else
                    rs.poll_streak = 0;
                  reply(r);
                }
              else
                {
                  rs.blocked  = true;
                  rs.in_probe = false;
                }
              break;
            }
          case OP_PROBE:
            {
              rs.p_ctx            = m->a[0];
              rs.p_src            = m->a[1];
              rs.p_tag            = m->a[2];
              const bool blocking = m->a[3];
              m->len              = 0;
              if (!blocking)
                {
                  m->r[0] = 0;
                  if (env.p_probe_miss > 0 && sim.S.chance(env.p_probe_miss))
                    sim.faults["probe_miss"]++;
                  else
                    try_probe(r);
                  rs.poll_streak = m->r[0] ? 0 : rs.poll_streak + 1;
                  reply(r);
                }
              else if (try_probe(r))
                reply(r);
              else
                {
                  rs.blocked  = true;
                  rs.in_probe = true;
                }
              break;
            }
          case OP_COLL:
            {
              const int ctx = m->a[0], kind = m->a[1], root = m->a[2],
                        nparts = m->a[3], gs = m->a[4], idx = m->a[5];
              const std::pair<int, uint64_t> key{ctx, rs.coll_seq[ctx]++};
              auto &c = colls[key];
              if (c.kind < 0)
                {
                  c.kind = kind;
                  c.root = root;
                  c.size = gs;
                  c.arrived.assign(gs, false);
                  c.parts.resize(gs);
                  if (kind == C_COMM)
                    {
                      c.ctx_base = next_ctx;
                      next_ctx += gs + 1;
                    }
                  if (env.random_reduce &&
                      (kind == C_ALLREDUCE || kind == C_REDUCE))
                    c.perm = sim.S.draw(1u << 16);
                  c.sync = !(env.p_early_exit > 0 &&
                             sim.S.chance(env.p_early_exit));
                  if (!c.sync && (kind == C_BCAST || kind == C_REDUCE ||
                                  kind == C_GATHER || kind == C_SCATTER ||
                                  kind == C_SCAN || kind == C_EXSCAN))
                    sim.faults["early_exit_collective"]++;
                }
              if (c.kind != kind || c.root != root || c.size != gs)
                {
                  finish(JobResult::misuse,
                         fmt("collective mismatch on rank %d: kind %d root %d "
                             "vs kind %d root %d (collective #%llu of "
                             "communicator %d)",
                             r, kind, root, c.kind, c.root,
                             (unsigned long long)key.second, ctx));
                  return;
                }
              // unpack parts
              const char *p = m->data;
              std::vector<uint64_t> len(nparts);
              memcpy(len.data(), p, 8 * nparts);
              p += 8 * nparts;
              c.parts[idx].resize(nparts);
              for (int i = 0; i < nparts; ++i)
                {
                  c.parts[idx][i].assign(p, len[i]);
                  p += len[i];
                }
              if ((kind == C_ALLREDUCE || kind == C_REDUCE))
                for (int i = 0; i < gs; ++i)
                  if (c.arrived[i] && c.parts[i][0].size() != c.parts[idx][0].size())
                    {
                      finish(JobResult::misuse,
                             fmt("reduction of different lengths: rank %d", r));
                      return;
                    }
              c.arrived[idx] = true;
              c.n_arrived++;
              const int id = rs.next_req++;
              Req       q;
              q.t         = Req::COLL;
              rs.reqs[id] = q;
              c.waiting.emplace_back(r, id);
              c.idx_of.push_back(idx);
              m->r[0] = id;
              m->len  = 0;
              const bool blocking = m->a[6];
              if (blocking)
                {
                  rs.wait_mode = WAIT_ALL;
                  rs.wait_list = {id};
                  rs.blocked   = true;
                  rs.in_probe  = false;
                }
              coll_progress(key);
              if (!blocking)
                reply(r);
              break;
            }
          case OP_FS:
            fs_op(r);
            break;
          case OP_EXIT:
            {
              rs.end.finished = true;
              rs.end.threw    = m->a[0] != 0;
              rs.end.what.assign(m->data, m->len);
              rs.alive = false;
              if (rs.end.threw)
                finish(JobResult::aborted,
                       fmt("rank %d: ", r) + rs.end.what);
              break;
            }
          case OP_ABORT:
            rs.end.threw = true;
            rs.end.what.assign(m->data, m->len);
            finish(JobResult::aborted, fmt("rank %d: MPI_Abort ", r) + rs.end.what);
            break;
          case OP_MISUSE:
            finish(JobResult::misuse, fmt("rank %d: ", r) + std::string(m->data, m->len));
            break;
          default:
            finish(JobResult::misuse, fmt("SIM: bad op %u", m->op));
        }
    }

    void
    fs_op(int r)
    {
      auto             *m    = R[r].mb;
      const int         kind = m->a[0];
      const uint64_t    len  = m->a[1];
      const std::string path(m->data, m->len);
      m->len  = 0;
      m->r[0] = FSD_OK;
      m->r[1] = 0;
      const long op = fs_ops++;
      res.n_fs_ops++;
      auto leaf = path.substr(path.rfind('/') + 1);
      static const char *kn[] = {"open-read", "open-write", "read", "write", "sync", "rename", "unlink", "close", "mkdir"};
      const bool w = kind == FS_WRITE || kind == FS_OPEN_W;
      if (w)
        {
          const long k = fs_count++;
          if (env.crash_at_fs == k)
            {
              sim.faults[env.crash_fs_mode == 1 ? "crash_torn_write" : "crash_at_write"]++;
              m->r[0] = env.crash_fs_mode == 0 ? FSD_CRASH_BEFORE :
                        env.crash_fs_mode == 1 ? FSD_CRASH_TORN :
                                                 FSD_CRASH_AFTER;
              m->r[1] = len > 1 ? sim.S.draw(uint32_t(std::min<uint64_t>(len, 1u << 30))) : 0;
              tr(fmt("rank %d: job killed %s %s of %s (%llu of %llu bytes)", r, env.crash_fs_mode == 0 ? "before" : env.crash_fs_mode == 1 ? "inside" : "after", kn[kind], leaf.c_str(), (unsigned long long)m->r[1], (unsigned long long)len));
              reply_fs_crash(r);
              return;
            }
          if (env.fs_fail_from >= 0 && k >= env.fs_fail_from && kind == FS_WRITE)
            {
              m->r[0] = FSD_ERR;
              m->r[1] = ENOSPC;
              sim.faults["disk_full"]++;
              tr(fmt("rank %d: disk full in %s of %s", r, kn[kind], leaf.c_str()));
              reply(r);
              return;
            }
        }
      if (env.fs_fail_op == op)
        {
          m->r[0] = FSD_ERR;
          m->r[1] = env.fs_fail_errno;
          sim.faults["fs_error"]++;
          tr(fmt("rank %d: %s of %s fails with errno %d", r, kn[kind], leaf.c_str(), env.fs_fail_errno));
        }
      else if (env.p_fs_error > 0 && (kind == FS_READ || w) && sim.S.chance(env.p_fs_error))
        {
          static const int er[] = {EIO, ENOSPC, EDQUOT};
          m->r[0] = FSD_ERR;
          m->r[1] = w ? er[sim.S.draw(3)] : EIO;
          if (kind == FS_OPEN_W)
            m->r[1] = EACCES;
          sim.faults["fs_error"]++;
          tr(fmt("rank %d: %s of %s fails with errno %d", r, kn[kind], leaf.c_str(), int(m->r[1])));
        }
      else if (env.p_fs_short > 0 && (kind == FS_READ || kind == FS_WRITE) && len > 1 && sim.S.chance(env.p_fs_short))
        {
          m->r[0] = FSD_SHORT;
          m->r[1] = 1 + sim.S.draw(uint32_t(std::min<uint64_t>(len - 1, 1u << 30)));
          sim.faults[kind == FS_READ ? "short_read" : "short_write"]++;
          tr(fmt("rank %d: short %s of %s: %d of %llu", r, kn[kind], leaf.c_str(), int(m->r[1]), (unsigned long long)len));
        }
      reply(r);
    }
    void
    reply_fs_crash(int r)
    {
      // let the guest apply the partial effect; it then parks in OP_YIELD
      run_guest(r);
      finish(JobResult::crashed, "killed at a file write");
    }

    void
    loop()
    {
      // start all ranks in a seeded order
      for (int r = 0; r < n; ++r)
        {
          uint64_t t = 1000;
          if (env.p_jitter > 0)
            t += 1000 * sim.S.draw(50);
          Q.push({t, ++seq, 0, r, 0});
          R[r].mb->op  = OP_START;
          R[r].mb->len = 0;
        }
      while (!stop)
        {
          int alive = 0;
          for (auto &x : R)
            alive += x.alive;
          if (alive == 0)
            break;
          if (Q.empty())
            {
              std::string d = "no event pending;";
              for (int r = 0; r < n; ++r)
                if (R[r].alive)
                  {
                    d += fmt(" rank %d blocked in %s", r, R[r].in_probe ? "probe" : "wait");
                    for (int id : R[r].wait_list)
                      if (R[r].reqs.count(id))
                        {
                          auto &q = R[r].reqs[id];
                          d += fmt("[%s src %d tag %d%s]", q.t == Req::SEND ? "send" : q.t == Req::RECV ? "recv" : "collective", q.wsrc, q.wtag, q.done ? " done" : "");
                        }
                  }
                else
                  d += fmt(" rank %d finished", r);
              finish(JobResult::deadlock, d);
              break;
            }
          Ev e = Q.top();
          Q.pop();
          now = std::max(now, e.t);
          if (e.type == 0)
            process_op(e.rank);
          else if (e.type == 1)
            {
              auto it = inflight.find(e.x);
              Msg  mm = std::move(it->second);
              inflight.erase(it);
              deliver(std::move(mm));
            }
          else
            {
              auto it = R[e.rank].reqs.find(int(e.x));
              if (it != R[e.rank].reqs.end())
                {
                  it->second.done     = true;
                  it->second.done_seq = ++done_seq;
                  wake_check(e.rank);
                }
            }
        }
    }
  };

  JobResult
  Sim::launch(int n, const std::function<void(int)> &fn, const Env &e)
  {
    if (n < 1 || n > MAX_RANKS)
      {
        fprintf(stderr, "SIM: bad rank count %d\n", n);
        _exit(97);
      }
    ++jobs;
    Job J(*this, e, n);
    J.res.n_ranks = n;
    J.R.resize(n);
    fflush(stdout);
    fflush(stderr);
    uint64_t heap_seed = 0;
    if (e.mem_fill)
      faults["memory_content"]++;
    if (e.heap_shuffle)
      heap_seed = 1 + S.draw(1u << 20);
    for (int r = 0; r < n; ++r)
      {
        if (e.clock_skew_max_s > 0)
          {
            J.R[r].wall_off =
              int64_t(e.clock_skew_max_s * (int(S.draw(2001)) - 1000) * 1e6);
            if (J.R[r].wall_off)
              faults["clock_skew"]++;
          }
        if (e.clock_drift_max > 0)
          J.R[r].drift = e.clock_drift_max * (int(S.draw(201)) - 100) / 100.;
      }
    for (int r = 0; r < n; ++r)
      {
        auto *m        = reinterpret_cast<Mailbox *>(g_arena + MB_BYTES * r);
        m->turn        = 0;
        m->op          = OP_NONE;
        m->len         = 0;
        m->data_cap    = MB_BYTES - sizeof(Mailbox) - 64;
        m->now_ns      = 0;
        m->wall_off_ns = J.R[r].wall_off;
        m->drift       = J.R[r].drift;
        J.R[r].mb      = m;
        const pid_t p  = fork();
        if (p == 0)
          {
            rlimit rl{e.cpu_limit_s, e.cpu_limit_s + 2};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            uint64_t hs = heap_seed;
            if (hs && e.heap_per_rank)
              hs = hs * 64 + r;
            guest_bind(m, r, n, hs, e.mem_fill);
            while (m->turn.load(std::memory_order_acquire) == 0)
              futex_wait(&m->turn, 0, 0);
            guest_run(fn);
            _exit(0);
          }
        if (p < 0)
          {
            perror("fork");
            _exit(98);
          }
        J.R[r].pid = p;
      }
    J.loop();
    for (auto &r : J.R)
      if (r.pid)
        {
          kill(r.pid, SIGKILL);
          int st;
          waitpid(r.pid, &st, 0);
        }
    for (auto &r : J.R)
      {
        J.res.ranks.push_back(r.end);
        J.res.leftover_msgs += r.unexpected.size();
      }
    J.res.leftover_msgs += J.inflight.size();
    J.res.end_time = J.now;
    ops += J.res.n_ops;
    msgs += J.res.n_msgs;
    sim_ns += J.now;
    uint64_t v[3] = {uint64_t(J.res.status), J.res.n_ops, J.now};
    mix(v, sizeof v);
    return std::move(J.res);
  }

  void
  Sim::draw_env()
  {
    // swarm: each behaviour is enabled independently, with varying strength
    static const double pj[] = {0, 0.05, 0.3, 0.9};
    env.p_jitter       = pj[S.draw(4)];
    env.p_latency      = pj[S.draw(4)];
    env.p_stall        = S.chance(0.15) ? 0.002 : 0.;
    static const double pm[] = {0, 0.1, 0.5};
    env.p_probe_miss   = pm[S.draw(3)];
    env.p_rendezvous   = pm[S.draw(3)];
    env.p_early_exit   = S.chance(0.5) ? 0.5 : 0.;
    env.random_reduce  = S.chance(0.3);
    env.heap_shuffle   = S.chance(0.5);
    env.heap_per_rank  = env.heap_shuffle && S.chance(0.5);
    static const int mf[] = {0, 0x5a, 0xa7, 0x01};
    env.mem_fill       = mf[S.draw(4)];
  }

  // ------------------------------------------------------------ batch driver
  static std::string
  jesc(const std::string &s)
  {
    std::string o;
    for (unsigned char c : s)
      {
        if (c == '"' || c == '\\')
          {
            o += '\\';
            o += c;
          }
        else if (c == '\n')
          o += "\\n";
        else if (c < 32 || c > 126)
          o += fmt("\\u%04x", c);
        else
          o += c;
      }
    return o;
  }
  template <typename T>
  static std::string
  jarr(const std::vector<T> &v)
  {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
      {
        if (i)
          s += ",";
        if constexpr (std::is_same_v<T, std::string>)
          s += "\"" + jesc(v[i]) + "\"";
        else
          s += std::to_string(v[i]);
      }
    return s + "]";
  }
  static std::string
  jmap(const std::map<std::string, uint64_t> &v)
  {
    std::string s = "{";
    for (auto &[a, b] : v)
      {
        if (s.size() > 1)
          s += ",";
        s += "\"" + jesc(a) + "\":" + std::to_string(b);
      }
    return s + "}";
  }

  static void
  rm_tree(const std::string &d)
  {
    // only ever called on the private scratch directories created below
    DIR *dir = opendir(d.c_str());
    if (!dir)
      return;
    while (auto *e = readdir(dir))
      {
        const std::string n = e->d_name;
        if (n == "." || n == "..")
          continue;
        const std::string p = d + "/" + n;
        struct stat       st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
          rm_tree(p);
        else
          unlink(p.c_str());
      }
    closedir(dir);
    rmdir(d.c_str());
  }

  static std::string g_scratch_base;

  // Execute one simulated run in a child process; returns its JSON line
  static std::string
  one_run(const Harness               &h,
          uint64_t                     seed,
          const std::vector<uint32_t> *w,
          const std::vector<uint32_t> *s,
          bool                         trace,
          bool                         full,
          unsigned                     wall_limit_s)
  {
    int pfd[2];
    if (pipe(pfd))
      _exit(96);
    const std::string scratch = g_scratch_base + "/r";
    mkdir(scratch.c_str(), 0700);
    fflush(stdout);
    const pid_t p = fork();
    if (p == 0)
      {
        close(pfd[0]);
        setpgid(0, 0);
        if (chdir(scratch.c_str()))
          _exit(93);
        Sim S;
        S.W.rng      = Rng(seed * 2 + 1);
        S.S.rng      = Rng(~(seed * 7919 + 3));
        S.keep_trace = trace;
        S.scratch    = ".";
        if (w)
          {
            S.W.replay = true;
            S.W.src    = *w;
          }
        if (s)
          {
            S.S.replay = true;
            S.S.src    = *s;
          }
        std::string verdict = "ok", cls, msg;
        try
          {
            h.run(S);
          }
        catch (const Violation &v)
          {
            verdict = "violation";
            cls     = v.cls;
            msg     = v.msg;
          }
        catch (const std::exception &e)
          {
            verdict = "error";
            msg     = e.what();
          }
        std::string o =
          "{\"verdict\":\"" + verdict + "\",\"cls\":\"" + jesc(cls) +
          "\",\"msg\":\"" + jesc(msg.substr(0, 3000)) + "\",\"seed\":" + std::to_string(seed) +
          fmt(",\"hash\":\"%016llx\",\"order\":\"%016llx\",\"ops\":%llu,"
              "\"msgs\":%llu,\"sim_ns\":%llu,\"jobs\":%llu",
              (unsigned long long)S.hash,
              (unsigned long long)S.order_hash,
              (unsigned long long)S.ops,
              (unsigned long long)S.msgs,
              (unsigned long long)S.sim_ns,
              (unsigned long long)S.jobs) +
          ",\"faults\":" + jmap(S.faults) + ",\"probes\":" + jmap(S.probes) +
          ",\"sig\":\"" + jesc(S.signature) + "\",\"nontrivial\":\"" +
          jesc(S.nontrivial) + "\"";
        if (full || verdict != "ok")
          {
            o += ",\"W\":" + jarr(S.W.rec) + ",\"S\":" + jarr(S.S.rec);
            o += ",\"log\":" + jarr(S.log);
          }
        if (trace)
          o += ",\"trace\":" + jarr(S.trace);
        o += "}\n";
        size_t off = 0;
        while (off < o.size())
          {
            const ssize_t k = write(pfd[1], o.data() + off, o.size() - off);
            if (k <= 0)
              break;
            off += k;
          }
        _exit(0);
      }
    close(pfd[1]);
    std::string out;
    char        buf[65536];
    timeval     t0;
    gettimeofday(&t0, nullptr);
    bool timeout = false;
    for (;;)
      {
        fd_set fs;
        FD_ZERO(&fs);
        FD_SET(pfd[0], &fs);
        timeval   tv{1, 0};
        const int k = select(pfd[0] + 1, &fs, nullptr, nullptr, &tv);
        if (k > 0)
          {
            const ssize_t n = read(pfd[0], buf, sizeof buf);
            if (n <= 0)
              break;
            out.append(buf, n);
          }
        timeval t1;
        gettimeofday(&t1, nullptr);
        if (t1.tv_sec - t0.tv_sec > long(wall_limit_s))
          {
            timeout = true;
            break;
          }
      }
    close(pfd[0]);
    kill(-p, SIGKILL);
    kill(p, SIGKILL);
    int st = 0;
    waitpid(p, &st, 0);
    rm_tree(scratch);
    if (out.empty() || out.back() != '\n')
      out = fmt("{\"verdict\":\"error\",\"cls\":\"\",\"msg\":\"run %s "
                "(status %d)\",\"seed\":%llu}\n",
                timeout ? "exceeded wall limit" : "ended without a result",
                st,
                (unsigned long long)seed);
    return out;
  }

  static std::vector<uint32_t>
  parse_list(const std::string &s)
  {
    std::vector<uint32_t> v;
    std::istringstream    is(s);
    uint32_t              x;
    while (is >> x)
      v.push_back(x);
    return v;
  }

  int
  sim_main(int argc, char **argv, const std::map<std::string, Harness> &hs)
  {
    // Fixed address layout: heap order must not depend on the loader.
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
      {
        if (personality(ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC"))
          {
            setenv("SIM_REEXEC", "1", 1);
            setenv("DEAL_II_NUM_THREADS", "1", 1);
            setenv("OMP_NUM_THREADS", "1", 1);
            setenv("OPENBLAS_NUM_THREADS", "1", 1);
            setenv("LC_ALL", "C", 1);
            setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1);
            execv("/proc/self/exe", argv);
          }
      }
    std::string mode, prop, outfile, wfile, sfile;
    uint64_t    base = 1, start = 0, stride = 1, seed = 0;
    double      time_limit = 10;
    long        max_runs   = 1000000000;
    unsigned    wall       = 300;
    int         cpu        = -1;
    int         recheck    = 0;
    for (int i = 1; i < argc; ++i)
      {
        const std::string a = argv[i];
        auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--batch" || a == "--replay" || a == "--one" || a == "--serve")
          mode = a.substr(2);
        else if (a == "--prop")
          prop = nxt();
        else if (a == "--base")
          base = std::stoull(nxt());
        else if (a == "--start")
          start = std::stoull(nxt());
        else if (a == "--stride")
          stride = std::stoull(nxt());
        else if (a == "--seed")
          seed = std::stoull(nxt());
        else if (a == "--time")
          time_limit = std::stod(nxt());
        else if (a == "--max")
          max_runs = std::stol(nxt());
        else if (a == "--out")
          outfile = nxt();
        else if (a == "--cpu")
          cpu = std::stoi(nxt());
        else if (a == "--recheck")
          recheck = std::stoi(nxt());
        else if (a == "--wall")
          wall = std::stoul(nxt());
        else if (a == "--w")
          wfile = nxt();
        else if (a == "--s")
          sfile = nxt();
        else if (a == "--scratch")
          g_scratch_base = nxt();
      }
    if (!hs.count(prop))
      {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 95;
      }
    if (cpu >= 0)
      {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(cpu, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
      }
    if (g_scratch_base.empty())
      {
        char t[] = "/tmp/simXXXXXX";
        g_scratch_base = mkdtemp(t);
      }
    const Harness &h = hs.at(prop);
    g_arena          = static_cast<char *>(mmap(nullptr,
                                       MB_BYTES * MAX_RANKS,
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                       -1,
                                       0));
    if (g_arena == MAP_FAILED)
      {
        perror("mmap");
        return 94;
      }
    if (h.zygote_init)
      h.zygote_init();
    FILE *f = outfile.empty() ? stdout : fopen(outfile.c_str(), "w");
    if (mode == "batch")
      {
        timespec t0, t1;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
        long done = 0;
        for (uint64_t i = start; done < max_runs; i += stride, ++done)
          {
            Rng            g(base * 1000003 + i);
            const uint64_t sd = g.next() >> 16;
            std::string    o  = one_run(h, sd, nullptr, nullptr, getenv("SIM_DIFF") != nullptr, done < 2, wall);
            if (done < recheck)
              {
                // determinism: the same seed must give the same event log
                std::string o2 = one_run(h, sd, nullptr, nullptr, getenv("SIM_DIFF") != nullptr, done < 2, wall);
                if (o2 != o)
                  {
                    fprintf(f, "{\"verdict\":\"nondeterminism\",\"seed\":%llu,\"cls\":\"\",\"msg\":\"\"}\n", (unsigned long long)sd);
                    if (getenv("SIM_DIFF"))
                      fprintf(f, "%s%s", o.c_str(), o2.c_str());
                    fflush(f);
                  }
                else
                  {
                    fprintf(f, "{\"verdict\":\"recheck_ok\"}\n");
                  }
              }
            fwrite(o.data(), 1, o.size(), f);
            fflush(f);
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) >
                time_limit)
              break;
          }
      }
    else if (mode == "one")
      {
        auto o = one_run(h, seed, nullptr, nullptr, true, true, wall);
        fwrite(o.data(), 1, o.size(), f);
      }
    else if (mode == "serve")
      {
        // stdin: lines "R|T seed-ignored W-list | S-list"; used by the
        // minimiser and the replayer
        std::string line;
        int         ch;
        while ((ch = getchar()) != EOF)
          {
            if (ch != '\n')
              {
                line += char(ch);
                continue;
              }
            const bool  trace = line[0] == 'T';
            const auto  bar   = line.find('|');
            const auto  w     = parse_list(line.substr(1, bar - 1));
            const auto  s     = parse_list(line.substr(bar + 1));
            const auto  o     = one_run(h, 0, &w, &s, trace, true, wall);
            fwrite(o.data(), 1, o.size(), f);
            fflush(f);
            line.clear();
          }
      }
    if (f != stdout)
      fclose(f);
    rmdir(g_scratch_base.c_str());
    return 0;
  }
} // namespace sim
