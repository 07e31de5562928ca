#pragma once
#include <atomic>
#include <cstdint>

namespace sim
{
  enum Op : uint32_t
  {
    OP_NONE,
    OP_START,
    OP_SEND,   // a: ctx,dst(world),tag,mode,len -> rets0 reqid
    OP_IRECV,  // ctx,src(world|-1),tag,maxlen -> reqid
    OP_WAIT,   // n, mode, (list in data) -> completed list
    OP_PROBE,  // ctx,src,tag,blocking -> found,src,tag,len
    OP_COLL,   // ctx,kind,root(group idx),nparts,groupsize,myidx,blocking -> reqid or data
    OP_FS,     // kind, len, data=path -> decision
    OP_RECORD, // key len, data
    OP_FAULT,  // p in data, kind -> decision
    OP_YIELD,  // ns
    OP_CLOCK,  // refresh clock
    OP_EXIT,   // status, message
    OP_ABORT,
    OP_CANCEL, // reqid
    OP_MISUSE
  };
  enum WaitMode
  {
    WAIT_ALL,
    WAIT_ANY,
    WAIT_SOME,
    TEST_ALL,
    TEST_ANY,
    TEST_SOME
  };
  enum CollKind
  {
    C_BARRIER,
    C_BCAST,
    C_REDUCE,
    C_ALLREDUCE,
    C_GATHER,
    C_ALLGATHER,
    C_SCATTER,
    C_ALLTOALL,
    C_SCAN,
    C_EXSCAN,
    C_REDSCATTER,
    C_COMM // dup/split/create
  };
  enum FsKind
  {
    FS_OPEN_R,
    FS_OPEN_W,
    FS_READ,
    FS_WRITE,
    FS_SYNC,
    FS_RENAME,
    FS_UNLINK,
    FS_CLOSE,
    FS_MKDIR
  };
  enum FsDecision
  {
    FSD_OK,
    FSD_ERR,
    FSD_SHORT,
    FSD_CRASH_BEFORE,
    FSD_CRASH_TORN,
    FSD_CRASH_AFTER
  };
  struct Mailbox
  {
    std::atomic<uint32_t> turn; // 0: controller, 1: guest
    uint32_t              op;
    int64_t               a[12];
    int64_t               r[12];
    uint64_t              len; // bytes in data
    // clock, maintained by the controller at each handoff
    int64_t now_ns;
    int64_t wall_off_ns;
    double  drift;
    uint64_t data_cap;
    char    data[1];
  };
} // namespace sim
