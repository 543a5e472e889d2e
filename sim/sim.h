// Deterministic simulator: public API for the harnesses.
//
// A harness is ordinary C++ code which includes the unmodified headers of C5T/Current and is compiled with
// `-fsanitize=thread` *instrumentation only* (no TSan runtime): every memory access and every atomic operation of
// the code under test becomes a call into `sim.cc`, which is where the simulator may decide to preempt a thread.
// All of pthreads, clocks, sleeps, sockets, randomness and (for files in the run directory) disk I/O are replaced
// by the simulator as well.  One seed is one execution; see /verif/DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- Choice streams ------------------------------------------------------------------------------------------------
enum Stream : int { kSched = 0, kTime = 1, kWork = 2, kFault = 3, kNet = 4, kConf = 5, kPrio = 6 };
uint32_t Raw(Stream s);                          // 0 is always "the default, simplest choice".
uint64_t Choose(Stream s, uint64_t n);           // in [0, n); 0 is the default.
bool Chance(Stream s, double p);                 // `false` is the default.
// Workload choices.
inline uint64_t W(uint64_t n) { return Choose(kWork, n); }
inline int64_t WR(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Choose(kWork, hi - lo + 1)); }
inline bool WB(double p = 0.5) { return Chance(kWork, p); }
// Per-run configuration choices ("swarm").
inline uint64_t C(uint64_t n) { return Choose(kConf, n); }
inline bool CB(double p = 0.5) { return Chance(kConf, p); }
std::string WBytes(size_t max_len);              // Arbitrary bytes.

// ---- Knobs the scenario sets (faults are off unless a scenario switches them on) --------------------------------
struct Knobs {
  // Threads.
  double spurious_wakeup = 0;    // A condition variable wait returns spuriously.
  double stall = 0;              // At a dispatch, the preempted thread is stalled for up to `stall_max_us`.
  uint64_t stall_max_us = 50000;
  double time_leap = 0;          // At a dispatch, jump straight to the next timer, racing it with the runnable threads.
  // Clock.
  double clock_jump = 0;         // At a clock read, the wall clock is stepped by up to +/- `clock_jump_max_us`.
  int64_t clock_jump_max_us = 1000000;
  bool clock_coarse = false;     // The wall clock only ticks once in a while (many equal readings).
  // Disk (files below `RunDir()` only).
  double disk_short_write = 0, disk_eintr = 0, disk_enospc = 0, disk_eio = 0, disk_open_fail = 0, disk_short_read = 0;
  double disk_read_eio = 0, disk_meta_fail = 0;
  int64_t disk_capacity = -1;    // Bytes that can still be written before `ENOSPC`; -1: unlimited.
  double crash_at_write = 0;     // Crash the process inside a `write`, leaving a torn prefix of it.
  double crash_at_point = 0;     // Crash the process at a dispatch.
  // Network.
  double net_short_recv = 0, net_eintr = 0, net_delay = 0, net_reset = 0, net_refuse = 0, net_segment = 0;
  uint64_t net_delay_max_us = 20000;
  uint64_t net_sndbuf = 256 * 1024;
};
Knobs& K();
void FaultsOff();                // Everything back to zero: the system must now converge.

// ---- Run control ---------------------------------------------------------------------------------------------------
int Phase();                                      // 0 for the first life of the process, 1 after the first crash, ...
bool FinalPhase();                                // True if this life may not crash any more.
[[noreturn]] void CrashNow(const char* why);      // The process dies here; the next phase starts from the durable state.
void ExitIsCrash(bool on);                        // The code under test may legitimately stop by calling `exit()`.
[[noreturn]] void EndRun();                       // The run is over, and it has passed.
void Fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // Report a violation; exits.
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // Goes to the event log, and into the run hash.
void Cover(uint64_t h);                           // Contributes to the "distinct states reached" measure.
void Cover(const std::string& s);
void Count(const char* what, uint64_t n = 1);     // Evidence counter.
const std::string& RunDir();                      // Real directory (tmpfs), created and removed by the driver.
// Append-only record which survives crashes of the simulated process (it is the observer's notebook).
void HistoryAppend(const std::string& record);
std::vector<std::string> History();
void SetLimits(uint64_t max_steps, uint64_t max_sim_us);   // Liveness bounds.

// ---- Threads and time for the scenarios -----------------------------------------------------------------------------
uint64_t NowUs();                                 // Simulated monotonic time.
int64_t WallUs();                                 // Simulated wall clock, without advancing anything.
void SleepUs(uint64_t us);
void Yield();
bool WaitUntil(const std::function<bool()>& pred, uint64_t max_us, uint64_t poll_us = 500);
uint64_t Steps();
int ThreadId();
void NoPreempt(bool on);                          // Observer code runs atomically.
struct Atomic { Atomic() { NoPreempt(true); } ~Atomic() { NoPreempt(false); } };
void SetWall(int64_t us);                         // Step the wall clock.
int LiveThreads();                                // Simulated threads which have not finished.
// Network helpers.
void NetPartition(bool on);                       // While on, nothing in flight is delivered, and connects hang.
void NetResetAll();                               // Every established connection is reset.
size_t NetOpenStreams();
// Heap.
size_t HeapLiveBlocks();
void DiskErrorsOnlyFor(const std::string& substr);  // Restrict the disk faults to the paths which contain `substr`.
uint64_t InjectedDiskErrors();                    // Errors (not short writes) injected so far in this life.

// ---- Registration ---------------------------------------------------------------------------------------------------
struct Scenario {
  const char* name;
  void (*fn)();
  double weight;
  int max_phases;
};
void Register(const char* property, const Scenario& s);
struct Registrar {
  Registrar(const char* property, const char* name, void (*fn)(), double weight = 1.0, int max_phases = 1) {
    Register(property, Scenario{name, fn, weight, max_phases});
  }
};
#define SIM_SCENARIO(property, name, ...)                                                  \
  static void sim_scenario_##name();                                                       \
  static ::sim::Registrar sim_registrar_##name(property, #name, &sim_scenario_##name, ##__VA_ARGS__); \
  static void sim_scenario_##name()

#define SIM_CHECK(cond, kind, ...)          \
  do {                                      \
    if (!(cond)) ::sim::Fail(kind, __VA_ARGS__); \
  } while (false)

}  // namespace sim
