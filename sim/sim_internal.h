#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
constexpr size_t kMaxEntries = 1000000;
constexpr size_t kMaxHistory = 4 << 20;
constexpr int kMaxCounters = 48;
constexpr size_t kMaxCover = 4096;

// Fault kinds, for the evidence.
enum {
  kFSpurious, kFStall, kFTimeLeap, kFClockBack, kFClockForward, kFCrashPoint, kFCrashBeforeWrite, kFTornWrite, kFCrashAfterWrite,
  kFDiskShortWrite, kFDiskEintr, kFDiskEnospc, kFDiskEio, kFDiskOpen, kFDiskShortRead, kFDiskReadEio, kFDiskMeta,
  kFNetShortRecv, kFNetSegment, kFNetDelay, kFNetReset, kFNetRefuse, kFNetPartition, kFNetBackpressure, kFNetRstOnClose, kFNetEintr, kFNum
};
static const char* const kFaultNames[] = {
  "spurious_wakeup", "thread_stall", "time_leap_to_timer", "clock_step_back", "clock_step_forward", "crash_at_scheduling_point",
  "crash_before_write", "crash_torn_write", "crash_after_write", "disk_short_write", "disk_eintr", "disk_enospc", "disk_eio",
  "disk_open_failure", "disk_short_read", "disk_read_error", "disk_metadata_failure", "net_short_recv", "net_segmentation", "net_delay",
  "net_reset", "net_connect_refused", "net_partition", "net_backpressure", "net_rst_on_close", "net_eintr"};

struct Entry { uint64_t key; uint32_t raw; uint32_t pad; };
// Every choice is identified by (life of the process, stream, simulated thread, position), where the position is the
// thread's own instruction count for the scheduling streams, and the thread's own draw count for the other ones.  Thus,
// dropping one choice from a counterexample does not shift the meaning of the choices of the other threads.
inline uint64_t EntryKey(int phase, int stream, int tid, uint32_t pos) {
  return (uint64_t(phase) << 46) | (uint64_t(stream) << 42) | (uint64_t(tid) << 30) | (pos & 0x3fffffff);
}
inline int KeyPhase(uint64_t key) { return static_cast<int>(key >> 46); }
inline int KeyStream(uint64_t key) { return static_cast<int>((key >> 42) & 15); }
inline int KeyThread(uint64_t key) { return static_cast<int>((key >> 30) & 4095); }
inline uint32_t KeyPosition(uint64_t key) { return static_cast<uint32_t>(key & 0x3fffffff); }
constexpr int kNoThread = 4095;
enum { kPreempt = 7, kPick = 8, kStallAt = 9, kLeapAt = 10, kCrashAt = 11, kNumStreams = 12 };  // Continues `Stream`.
static const char* const kStreamNames[] = {"sched", "time", "work", "fault", "net", "conf", "prio", "preempt", "pick", "stall", "leap", "crash"};

enum { kStNone = 0, kStPass = 1, kStFail = 2, kStCrashed = 3 };
struct SharedResult {
  int status;
  char kind[64];
  char message[2000];
  uint64_t hash, sched_hash, steps, switches, sim_us, threads;
  uint64_t fired[kFNum];
  uint64_t carry_now_ns;
  int64_t carry_wall_off_ns;
  struct { char name[40]; uint64_t n; } counters[kMaxCounters];
  uint64_t n_cover;
  uint64_t cover[kMaxCover];
  uint64_t entries_overflow;
  uint64_t n_entries;
  size_t history_bytes;
  // Everything above is zeroed before each run.
  Entry entries[kMaxEntries];
  char history[kMaxHistory];
};
struct RunSpec {
  uint64_t seed = 0;
  int phase = 0;
  int max_phases = 1;
  bool replay = false;
  const Entry* entries = nullptr;
  size_t n_entries = 0;
};
extern SharedResult* g_res;
extern RunSpec g_spec;
extern bool g_verbose;
extern uint64_t g_debug_stop_us;
[[noreturn]] void RunInThisProcess(void (*fn)());
}  // namespace sim
