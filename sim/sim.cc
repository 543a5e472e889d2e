// Deterministic simulator: runtime.  See sim.h and /verif/DESIGN.md.
//
// This file is compiled WITHOUT instrumentation.  It defines (a) the `__tsan_*` entry points which the instrumented
// harness calls at every memory access, (b) replacements for malloc, pthreads, clocks, sleeping, sockets, randomness and
// file I/O, and (c) the choice streams.  Exactly one simulated thread runs at any moment.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "sim_internal.h"

#include <arpa/inet.h>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <condition_variable>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <fcntl.h>
#include <future>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <typeinfo>
namespace __cxxabiv1 { extern "C" std::type_info* __cxa_current_exception_type() noexcept; }

namespace sim {
SharedResult* g_res = nullptr;
RunSpec g_spec;
bool g_verbose = false;
uint64_t g_debug_stop_us = 0;
}  // namespace sim

using sim::g_res;
using sim::g_spec;
using sim::g_verbose;
using sim::g_debug_stop_us;

// =====================================================================================================================
// Memory.
// =====================================================================================================================
namespace {

constexpr uintptr_t kHeapBase = 0x100000000000ull;
constexpr size_t kHeapSize = size_t(4) << 30;  // Several processes at a time are to fit the memory of the machine.
constexpr uintptr_t kShadowBase = 0x0f0000000000ull;
constexpr uintptr_t kStackBase = 0x200000000000ull;
constexpr size_t kStackSize = size_t(1) << 20;

bool g_heap_ready = false;
uintptr_t g_heap_top = 0;
uint8_t* g_shadow = reinterpret_cast<uint8_t*>(kShadowBase);
size_t g_live_blocks = 0;
volatile bool g_active = false;  // The simulation is running (in the run process only).
int64_t g_countdown = INT64_MAX / 2;
int g_rt = 0;  // Inside the runtime.
uint8_t g_fill = 0xA5;

struct RT {
  int saved;
  RT() : saved(g_rt) { g_rt = 1; }
  ~RT() { g_rt = saved; }
};

struct Block {  // 16 bytes, immediately precedes the user's memory.
  uint32_t cls;
  uint32_t magic;
  uint64_t size;
};
constexpr uint32_t kMagicLive = 0x4c495645, kMagicFreed = 0x46524545;
constexpr int kClasses = 160;
void* g_free[kClasses];

int ClassOf(size_t n, size_t* rounded) {
  if (n <= 1024) {
    size_t c = (n + 15) / 16;
    if (!c) c = 1;
    *rounded = c * 16;
    return static_cast<int>(c);  // 1 .. 64
  }
  // 4 classes per power of two.
  int lg = 63 - __builtin_clzll(n - 1);
  size_t base = size_t(1) << lg;
  size_t step = base / 4;
  size_t k = (n - base + step - 1) / step;  // 1..4
  *rounded = base + k * step;
  return 65 + (lg - 10) * 4 + static_cast<int>(k) - 1;
}

void HeapInit() {
  if (g_heap_ready) return;
  void* p = mmap(reinterpret_cast<void*>(kHeapBase), kHeapSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap(reinterpret_cast<void*>(kShadowBase), kHeapSize / 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(kHeapBase) || s != reinterpret_cast<void*>(kShadowBase)) {
    static const char m[] = "sim: can not map the heap\n";
    (void)!::syscall(SYS_write, 2, m, sizeof(m) - 1);
    ::syscall(SYS_exit_group, 97);
  }
  g_heap_top = kHeapBase + 4096;
  g_heap_ready = true;
}

// FIFO quarantine of freed blocks.
struct QEntry { void* p; };
constexpr size_t kQMax = 1 << 16;
QEntry g_q[kQMax];
size_t g_qh = 0, g_qt = 0, g_qbytes = 0;

void ReallyFree(void* p) {
  Block* b = reinterpret_cast<Block*>(p) - 1;
  *reinterpret_cast<void**>(p) = g_free[b->cls];
  g_free[b->cls] = p;
}

void* HeapAlloc(size_t n, size_t align = 16) {
  if (!g_heap_ready) HeapInit();
  size_t r;
  int cls;
  if (align > 16) {
    size_t dummy;
    cls = ClassOf(n + align, &dummy);
    r = dummy;
    uintptr_t start = (g_heap_top + 16 + align - 1) / align * align;
    if (start + r > kHeapBase + kHeapSize) return nullptr;
    g_heap_top = start + r;
    Block* b = reinterpret_cast<Block*>(start) - 1;
    // Over-aligned blocks are never reused (class 0).
    b->cls = 0; b->magic = kMagicLive; b->size = n;
    memset(g_shadow + (start - kHeapBase) / 16, 1, (n + 15) / 16);
    ++g_live_blocks;
    return reinterpret_cast<void*>(start);
  }
  cls = ClassOf(n, &r);
  if (cls >= kClasses) return nullptr;
  void* p = g_free[cls];
  if (p) {
    g_free[cls] = *reinterpret_cast<void**>(p);
  } else {
    uintptr_t start = g_heap_top + 16;
    if (start + r > kHeapBase + kHeapSize) return nullptr;
    g_heap_top = start + r;
    p = reinterpret_cast<void*>(start);
  }
  Block* b = reinterpret_cast<Block*>(p) - 1;
  b->cls = cls; b->magic = kMagicLive; b->size = n;
  memset(g_shadow + (reinterpret_cast<uintptr_t>(p) - kHeapBase) / 16, 1, (n + 15) / 16);
  ++g_live_blocks;
  if (g_active) memset(p, g_fill, n < 4096 ? n : 4096);
  return p;
}

bool InHeap(const void* p) { return reinterpret_cast<uintptr_t>(p) - kHeapBase < kHeapSize; }

void HeapFree(void* p) {
  if (!p) return;
  if (!InHeap(p)) return;
  Block* b = reinterpret_cast<Block*>(p) - 1;
  if (b->magic != kMagicLive) {
    if (b->magic == kMagicFreed) sim::Fail("memory-double-free", "double free of %p", p);
    sim::Fail("memory-bad-free", "free of %p, which is not a block", p);
  }
  b->magic = kMagicFreed;
  --g_live_blocks;
  size_t n = b->size;
  memset(g_shadow + (reinterpret_cast<uintptr_t>(p) - kHeapBase) / 16, 2, (n + 15) / 16);
  if (b->cls == 0) return;
  if (!g_active) { ReallyFree(p); return; }
  memset(p, 0xDD, n < 4096 ? n : 4096);
  g_q[g_qt++ % kQMax].p = p;
  g_qbytes += n;
  while (g_qt - g_qh >= kQMax || g_qbytes > (size_t(64) << 20)) {
    void* q = g_q[g_qh++ % kQMax].p;
    g_qbytes -= (reinterpret_cast<Block*>(q) - 1)->size;
    ReallyFree(q);
  }
}

}  // namespace

extern "C" {
void* malloc(size_t n) { void* p = HeapAlloc(n); if (!p) errno = ENOMEM; return p; }
void free(void* p) { HeapFree(p); }
void cfree(void* p) { HeapFree(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = HeapAlloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  size_t old = (reinterpret_cast<Block*>(p) - 1)->size;
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* memalign(size_t a, size_t n) { return HeapAlloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return HeapAlloc(n, a); }
int posix_memalign(void** p, size_t a, size_t n) { *p = HeapAlloc(n, a); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return HeapAlloc(n, 4096); }
void* pvalloc(size_t n) { return HeapAlloc((n + 4095) / 4096 * 4096, 4096); }
size_t malloc_usable_size(void* p) { return p ? (reinterpret_cast<Block*>(p) - 1)->size : 0; }
}

// =====================================================================================================================
// Choices, hashing, logging.
// =====================================================================================================================
namespace {

constexpr int kMaxThreads = 1000;
constexpr uint64_t kNever = UINT64_MAX;

enum State { kRun, kBlocked, kDone };
struct Thread {
  int id = 0;
  State state = kRun;
  volatile int go = 0;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  const void* wait_obj = nullptr;
  const char* why = "";
  uint64_t wake_at = kNever;
  uint64_t stall_until = 0;
  bool signaled = false;
  bool detached = false, joined = false;
  int64_t prio = 0;
  uint32_t next_preempt = 0;
  int nopreempt = 0;
  uint64_t steps = 0;
  uint32_t nblocks = 0;
  uint32_t idx[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  struct Dtor { void (*f)(void*); void* obj; };
  Dtor dtors[64];
  int ndtors = 0;
};
Thread* g_threads[kMaxThreads];
int g_nthreads = 0;
Thread* g_cur = nullptr;

uint64_t g_start_ns = 0;
uint64_t g_now_ns = 0;        // Simulated monotonic clock.
int64_t g_wall_off_ns = 0;    // Wall clock minus monotonic.
uint64_t g_tick_ns = 200;
uint64_t g_steps = 0;
int64_t g_gap_given = 0;
uint64_t g_hash = 1469598103934665603ull;
uint64_t g_switches = 0;
uint64_t g_max_steps = 30000000, g_max_us = 3600ull * 1000000;
int g_mode = 0;
double g_gap_mean = 100;
int64_t g_low_prio = 0;
uint32_t g_idx[8];
sim::Knobs g_k;
int64_t g_coarse_wall = INT64_MIN;
bool g_exit_is_crash = false;
char g_sim_dir[] = "rundir";
uint64_t g_disk_errors = 0;
char g_disk_only[64] = "";

inline uint64_t Mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
  return x;
}
inline void H(uint64_t v) { g_hash = (g_hash ^ Mix(v + 0x9e3779b97f4a7c15ull)) * 1099511628211ull; }

uint32_t Lookup(uint64_t key) {
  if (g_spec.replay) {
    size_t lo = 0, hi = g_spec.n_entries;
    while (lo < hi) {
      size_t mid = (lo + hi) / 2;
      if (g_spec.entries[mid].key < key) lo = mid + 1; else hi = mid;
    }
    if (lo < g_spec.n_entries && g_spec.entries[lo].key == key) return g_spec.entries[lo].raw;
    return 0;
  }
  return static_cast<uint32_t>(Mix(Mix(g_spec.seed * 0x9e3779b97f4a7c15ull + key * 0xd1342543de82ef95ull)) >> 32);
}
void RecordKey(uint64_t key, uint32_t raw) {
  if (!g_res) return;
  uint64_t n = g_res->n_entries;
  if (n < sim::kMaxEntries) {
    g_res->entries[n].key = key;
    g_res->entries[n].raw = raw;
    g_res->n_entries = n + 1;
  } else {
    g_res->entries_overflow = 1;
  }
}
uint64_t NextKey(int stream) {
  Thread* t = g_cur;
  if (!t) return sim::EntryKey(g_spec.phase, stream, sim::kNoThread, g_idx[stream]++);
  return sim::EntryKey(g_spec.phase, stream, t->id, t->idx[stream]++);
}
uint64_t ChooseAt(uint64_t key, uint64_t n) {
  if (n <= 1) return 0;
  uint32_t raw = Lookup(key);
  uint64_t v = raw % n;
  if (v) RecordKey(key, raw);
  return v;
}
bool ChanceAt(uint64_t key, double p) {
  if (p <= 0) return false;
  uint32_t raw = Lookup(key);
  if (!raw) return false;
  // Large values mean "yes", so that 0 is a "no".
  bool yes = (4294967295.0 - raw) / 4294967296.0 < p;
  if (yes) RecordKey(key, raw);
  return yes;
}
uint64_t DoChoose(int stream, uint64_t n) { return n <= 1 ? 0 : ChooseAt(NextKey(stream), n); }
bool DoChance(int stream, double p) { return p > 0 && ChanceAt(NextKey(stream), p); }
uint32_t DoRaw(int stream) {
  uint64_t key = NextKey(stream);
  uint32_t raw = Lookup(key);
  if (raw) RecordKey(key, raw);
  return raw;
}
void Fired(int f) { if (g_res) ++g_res->fired[f]; }

[[noreturn]] void ExitProcess(int code) {
  ::syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

void FinishStats() {
  if (!g_res) return;
  g_res->hash = Mix(g_res->hash ^ g_hash);
  g_res->carry_now_ns = g_now_ns;
  g_res->carry_wall_off_ns = g_wall_off_ns;
  g_res->steps += g_steps;
  g_res->switches += g_switches;
  g_res->sim_us += (g_now_ns - g_start_ns) / 1000;
  g_res->threads = g_nthreads;
}

inline void Vlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void Vlog(const char* fmt, ...) {
  if (!g_verbose) return;
  char buf[2048];
  int n = snprintf(buf, sizeof buf, "[%d %10.6f t%d] ", g_spec.phase, g_now_ns * 1e-9, g_cur ? g_cur->id : -1);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  buf[n++] = '\n';
  (void)!::syscall(SYS_write, 2, buf, n);
}

// =====================================================================================================================
// The scheduler.
// =====================================================================================================================
void FutexWait(volatile int* addr, int val) { ::syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0); }
void FutexWake(volatile int* addr) { ::syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void DumpThreads(char* out, size_t cap) {
  size_t n = 0;
  for (int i = 0; i < g_nthreads && n + 100 < cap; ++i) {
    Thread* t = g_threads[i];
    if (t->state == kDone) continue;
    n += snprintf(out + n, cap - n, " t%d:%s%s", t->id, t->state == kRun ? "running/" : "", t->why);
  }
}

uint64_t HereKey(int stream) { return sim::EntryKey(g_spec.phase, stream, g_cur->id, static_cast<uint32_t>(g_cur->steps)); }

// Decides for how long `t`, which is about to run, runs before it is preempted.
void NewGap(Thread* t) {
  if (g_spec.replay) {
    // The next recorded preemption of this very thread.
    uint64_t key = sim::EntryKey(g_spec.phase, sim::kPreempt, t->id, static_cast<uint32_t>(t->steps + 1));
    size_t lo = 0, hi = g_spec.n_entries;
    while (lo < hi) {
      size_t mid = (lo + hi) / 2;
      if (g_spec.entries[mid].key < key) lo = mid + 1; else hi = mid;
    }
    g_gap_given = 60000;  // More than a run by seed lets a thread run for.
    t->next_preempt = 0;
    if (lo < g_spec.n_entries && (g_spec.entries[lo].key >> 30) == (key >> 30)) {
      uint64_t at = sim::KeyPosition(g_spec.entries[lo].key);
      if (at - t->steps <= 400000) {  // One long operation can take many steps.
        g_gap_given = at - t->steps;
        t->next_preempt = g_spec.entries[lo].raw;
      }
    }
  } else {
    uint32_t raw = Lookup(sim::EntryKey(g_spec.phase, sim::kSched, t->id, static_cast<uint32_t>(t->steps)));
    g_gap_given = 20000;
    if (raw && g_gap_mean > 0) {
      double g = -std::log((raw + 0.5) / 4294967296.0) * g_gap_mean;
      if (g < 20000) g_gap_given = 1 + static_cast<uint64_t>(g);
    }
  }
  g_countdown = static_cast<int64_t>(g_gap_given);
}

bool Eligible(Thread* t) {
  if (t->state == kDone) return false;
  if (t->stall_until > g_now_ns) return false;
  return t->state == kRun || t->wake_at <= g_now_ns;
}

void CheckLimits() {
  if (g_debug_stop_us && (g_now_ns - g_start_ns) / 1000 > g_debug_stop_us) {  // For debugging only.
    char buf[900]; DumpThreads(buf, sizeof buf);
    sim::Fail("debug-stop", "%s", buf);
  }
  if (g_steps > g_max_steps) {
    char buf[900]; DumpThreads(buf, sizeof buf);
    sim::Fail("liveness", "no end after %llu steps (simulated %.3f s):%s", (unsigned long long)g_steps, (g_now_ns - g_start_ns) * 1e-9, buf);
  }
  if ((g_now_ns - g_start_ns) / 1000 > g_max_us) {
    char buf[900]; DumpThreads(buf, sizeof buf);
    sim::Fail("liveness", "no end after %.3f simulated seconds:%s", (g_now_ns - g_start_ns) * 1e-9, buf);
  }
}

enum class Why { kBlock, kPreempt, kYield };

void AccountSteps() {
  uint64_t used = static_cast<uint64_t>(g_gap_given - g_countdown);
  g_steps += used;
  g_cur->steps += used;
  g_gap_given = g_countdown;
}
void Dispatch(Why why) {
  Thread* me = g_cur;
  AccountSteps();
  if (why != Why::kBlock && me->nopreempt) {
    if (g_spec.replay) NewGap(me);
    else g_countdown = g_gap_given = 200;
    return;
  }
  g_now_ns += g_tick_ns;
  // Preemptions are identified by where the thread is, and the other switches by how many of them it has had.
  const uint64_t pick_key = sim::EntryKey(g_spec.phase, why == Why::kPreempt ? sim::kPrio : sim::kPick, me->id,
                                          why == Why::kPreempt ? static_cast<uint32_t>(me->steps) : me->nblocks++);
  if (g_k.crash_at_point > 0 && ChanceAt(HereKey(sim::kCrashAt), g_k.crash_at_point)) {
    Fired(sim::kFCrashPoint);
    if (why == Why::kPreempt) RecordKey(HereKey(sim::kPreempt), me->id + 1);  // For the replay to get here at all.
    sim::CrashNow("crash at a scheduling point");
  }
  if (why == Why::kPreempt && g_k.stall > 0 && ChanceAt(HereKey(sim::kStallAt), g_k.stall)) {
    me->stall_until = g_now_ns + (1 + DoChoose(sim::kFault, g_k.stall_max_us)) * 1000;
    Fired(sim::kFStall);
  }
  if (g_k.time_leap > 0 && ChanceAt(HereKey(sim::kLeapAt), g_k.time_leap)) {
    uint64_t best = kNever;
    for (int i = 0; i < g_nthreads; ++i) {
      Thread* t = g_threads[i];
      if (t->state == kBlocked && t->wake_at > g_now_ns && t->wake_at < best) best = t->wake_at;
    }
    if (best != kNever && best - g_now_ns < 120ull * 1000000000ull) { g_now_ns = best; Fired(sim::kFTimeLeap); }
  }
  if (g_mode == 1 && why != Why::kBlock) me->prio = --g_low_prio;
  Thread* cand[kMaxThreads];
  int n = 0;
  while (true) {
    n = 0;
    for (int k = 1; k <= g_nthreads; ++k) {
      Thread* t = g_threads[(me->id + k) % g_nthreads];
      if (t == me && why == Why::kBlock && t->state != kRun && !(t->wake_at <= g_now_ns)) continue;
      if (Eligible(t)) cand[n++] = t;
    }
    if (n) break;
    uint64_t best = kNever;
    for (int i = 0; i < g_nthreads; ++i) {
      Thread* t = g_threads[i];
      if (t->state == kDone) continue;
      uint64_t w = t->state == kRun ? t->stall_until : (t->wake_at == kNever ? kNever : (t->wake_at > t->stall_until ? t->wake_at : t->stall_until));
      if (w < best) best = w;
    }
    if (best == kNever) {
      char buf[900]; buf[0] = 0; DumpThreads(buf, sizeof buf);
      sim::Fail("deadlock", "every thread is blocked for good:%s", buf);
    }
    if (best > g_now_ns) g_now_ns = best;
    CheckLimits();
  }
  Thread* next = cand[0];
  if (g_spec.replay) {
    uint32_t want = why == Why::kPreempt ? me->next_preempt : Lookup(pick_key);
    for (int i = 0; want && i < n; ++i) if (cand[i]->id == static_cast<int>(want) - 1) next = cand[i];
  } else if (g_mode == 1) {
    for (int i = 1; i < n; ++i) if (cand[i]->prio > next->prio) next = cand[i];
  } else {
    next = cand[n > 1 ? Lookup(pick_key) % n : 0];
  }
  if (why == Why::kPreempt) RecordKey(HereKey(sim::kPreempt), next->id + 1);
  else if (next != cand[0]) RecordKey(pick_key, next->id + 1);
  NewGap(next);
  CheckLimits();
  if (next->state == kBlocked) { next->state = kRun; next->wait_obj = nullptr; }
  if (next != me) {
    ++g_switches;
    H((uint64_t(next->id) << 32) ^ g_steps);
    if (g_res) g_res->sched_hash = Mix(g_res->sched_hash * 31 + (uint64_t(me->id) << 20) + next->id + (uint64_t(why) << 40));
    g_cur = next;
    next->go = 1;
    FutexWake(&next->go);
    while (!me->go) FutexWait(&me->go, 0);
    me->go = 0;
  }
}

// Called at every synchronisation operation and system call.
void Point(int weight) {
  if (!g_active || g_rt > 1) return;
  RT rt;
  g_now_ns += g_tick_ns / 4 + 1;
  g_countdown -= weight;
  if (g_countdown <= 0) {
    Dispatch(Why::kPreempt);
  }
}

void Block(const void* obj, uint64_t wake_at, const char* why) {
  Thread* me = g_cur;
  me->state = kBlocked;
  me->wait_obj = obj;
  me->wake_at = wake_at;
  me->why = why;
  me->signaled = false;
  Dispatch(Why::kBlock);
  me->wake_at = kNever;
  me->wait_obj = nullptr;
  me->why = "";
}
void WakeAll(const void* obj) {
  for (int i = 0; i < g_nthreads; ++i) {
    Thread* t = g_threads[i];
    if (t->state == kBlocked && t->wait_obj == obj) { t->state = kRun; t->signaled = true; }
  }
}

__attribute__((noinline, cold)) void SlowAccess() {
  if (!g_active) { g_countdown = INT64_MAX / 2; return; }
  if (g_rt) { AccountSteps(); g_countdown = 1; g_gap_given = 1; return; }
  RT rt;
  int saved_errno = errno;
  Dispatch(Why::kPreempt);
  errno = saved_errno;
}
__attribute__((noinline, cold)) void BadAccess(const void* p, size_t n, bool write) {
  if (!g_active) return;
  int s = g_shadow[(reinterpret_cast<uintptr_t>(p) - kHeapBase) / 16];
  sim::Fail(s == 2 ? "memory-use-after-free" : "memory-wild-access", "%s of %zu bytes at %p: the block %s", write ? "write" : "read", n, p,
            s == 2 ? "has been freed" : "has never been allocated");
}
inline __attribute__((always_inline)) void Access(const void* p, size_t n, bool write) {
  uintptr_t off = reinterpret_cast<uintptr_t>(p) - kHeapBase;
  if (__builtin_expect(off < kHeapSize, 1)) {
    if (__builtin_expect(g_shadow[off / 16] != 1, 0) && !g_rt) BadAccess(p, n, write);
  }
  if (__builtin_expect(--g_countdown <= 0, 0)) SlowAccess();
}
inline void AccessRange(const void* p, size_t n, bool write) {
  if (!n) return;
  Access(p, n, write);
  if (n > 16) Access(static_cast<const char*>(p) + n - 1, 1, write);
}

}  // namespace

// =====================================================================================================================
// TSan instrumentation entry points.
// =====================================================================================================================
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                         \
  void __tsan_read##N(void* p) { Access(p, N, false); }                               \
  void __tsan_write##N(void* p) { Access(p, N, true); }                               \
  void __tsan_unaligned_read##N(void* p) { Access(p, N, false); }                     \
  void __tsan_unaligned_write##N(void* p) { Access(p, N, true); }                     \
  void __tsan_read##N##_pc(void* p, void*) { Access(p, N, false); }                   \
  void __tsan_write##N##_pc(void* p, void*) { Access(p, N, true); }                   \
  void __tsan_read_write##N(void* p) { Access(p, N, true); }                          \
  void __tsan_unaligned_read_write##N(void* p) { Access(p, N, true); }                \
  void __tsan_volatile_read##N(void* p) { Access(p, N, false); }                      \
  void __tsan_volatile_write##N(void* p) { Access(p, N, true); }                      \
  void __tsan_unaligned_volatile_read##N(void* p) { Access(p, N, false); }            \
  void __tsan_unaligned_volatile_write##N(void* p) { Access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { AccessRange(p, n, false); }
void __tsan_write_range(void* p, size_t n) { AccessRange(p, n, true); }
void __tsan_vptr_update(void** p, void*) { Access(p, 8, true); }
void __tsan_vptr_read(void** p) { Access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { AccessRange(s, n, false); AccessRange(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { AccessRange(s, n, false); AccessRange(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { AccessRange(d, n, true); return memset(d, c, n); }

#define ATOMIC_POINT(p, n, w) do { g_countdown -= 4; Access((const void*)(p), n, w); } while (0)
#define ATOMICS(BITS, T)                                                                                              \
  T __tsan_atomic##BITS##_load(const volatile T* a, int) { ATOMIC_POINT(a, BITS / 8, false); return *a; }             \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); *a = v; ATOMIC_POINT(a, BITS / 8, false); } \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int) { ATOMIC_POINT(a, BITS / 8, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                             \
    ATOMIC_POINT(a, BITS / 8, true);                                                                                  \
    if (*a == *c) { *a = v; return 1; } else { *c = *a; return 0; } }                                                 \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                               \
    ATOMIC_POINT(a, BITS / 8, true);                                                                                  \
    if (*a == *c) { *a = v; return 1; } else { *c = *a; return 0; } }                                                 \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                   \
    ATOMIC_POINT(a, BITS / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// =====================================================================================================================
// Threads.
// =====================================================================================================================
namespace {
template <typename F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

void ThreadExit() {
  Thread* me = g_cur;
  // Thread-local destructors are user code.
  while (me->ndtors) {
    Thread::Dtor d = me->dtors[--me->ndtors];
    d.f(d.obj);
  }
  g_rt = 1;
  me->state = kDone;
  me->why = "done";
  WakeAll(me);
  Dispatch(Why::kBlock);  // Never returns: the thread is parked for good.
  for (;;) pause();
}

void* ThreadMain(void* p) {
  Thread* t = static_cast<Thread*>(p);
  while (!t->go) FutexWait(&t->go, 0);
  t->go = 0;
  g_rt = 0;
  t->ret = t->fn(t->arg);
  ThreadExit();
  return nullptr;
}

Thread* Spawn(void* (*fn)(void*), void* arg) {
  if (g_nthreads >= kMaxThreads) sim::Fail("runaway-threads", "more than %d threads have been started", kMaxThreads);
  Thread* t = new Thread();
  t->id = g_nthreads;
  t->fn = fn;
  t->arg = arg;
  g_threads[g_nthreads++] = t;
  t->prio = g_mode == 1 ? DoRaw(sim::kPrio) : 0;
  void* stack = reinterpret_cast<void*>(kStackBase + size_t(t->id) * (kStackSize + 65536));
  void* m = mmap(stack, kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (m != stack) sim::Fail("harness-limit", "can not map a stack");
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(&attr, stack, kStackSize);
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  int rc = real(&t->handle, &attr, ThreadMain, t);
  if (rc) sim::Fail("harness-limit", "pthread_create failed: %d", rc);
  pthread_attr_destroy(&attr);
  return t;
}

Thread* ByHandle(pthread_t h) {
  for (int i = 0; i < g_nthreads; ++i) if (g_threads[i]->handle == h) return g_threads[i];
  return nullptr;
}

void LockMutex(pthread_mutex_t* m) {
  int me = g_cur->id + 1;
  if (m->__data.__owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return; }
  while (m->__data.__lock) Block(m, kNever, "mutex");
  m->__data.__lock = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
}
void UnlockMutex(pthread_mutex_t* m) {
  if (m->__data.__owner != g_cur->id + 1) sim::Fail("mutex-misuse", "a mutex is unlocked by a thread which does not hold it");
  if (--m->__data.__count) return;
  m->__data.__owner = 0;
  m->__data.__lock = 0;
  WakeAll(m);
}
void MutexAccess(const void* m) {
  uintptr_t off = reinterpret_cast<uintptr_t>(m) - kHeapBase;
  if (off < kHeapSize && g_shadow[off / 16] != 1) BadAccess(m, 40, true);
}

uint64_t TsToNs(const struct timespec* ts) {
  if (ts->tv_sec < 0) return 0;
  if (ts->tv_sec > 4000000000ll) return kNever / 2;
  return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
}
uint64_t DeadlineMono(clockid_t c, const struct timespec* ts) {
  uint64_t v = TsToNs(ts);
  if (v >= kNever / 2) return kNever;
  if (c == CLOCK_REALTIME) {
    int64_t m = static_cast<int64_t>(v) - g_wall_off_ns;
    return m < 0 ? 0 : static_cast<uint64_t>(m);
  }
  return v;
}

int CondWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  MutexAccess(c);
  // A racing thread may slip in before the wait begins (the mutex is still held).
  Point(8);
  RT rt;
  if (m->__data.__owner != g_cur->id + 1) sim::Fail("mutex-misuse", "waiting on a condition variable without holding the mutex");
  unsigned count = m->__data.__count;
  m->__data.__count = 1;
  UnlockMutex(m);
  uint64_t wake = deadline;
  bool spurious = false;
  if (g_k.spurious_wakeup > 0 && DoChance(sim::kFault, g_k.spurious_wakeup)) {
    uint64_t at = g_now_ns + 1000 * DoChoose(sim::kFault, 2000);
    if (at < wake) { wake = at; spurious = true; }
  }
  Block(c, wake, "condition variable");
  MutexAccess(m);
  bool signaled = g_cur->signaled;
  if (spurious && !signaled) Fired(sim::kFSpurious);
  LockMutex(m);
  m->__data.__count = count;
  H(signaled ? 11 : 12);
  return (!signaled && !spurious) ? ETIMEDOUT : 0;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_active) {
    static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    return real(h, a, fn, arg);
  }
  {
    RT rt;
    Thread* t = Spawn(fn, arg);
    *h = t->handle;
    H(1000 + t->id);
  }
  Point(40);
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  if (!g_active) {
    static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
    return real(h, ret);
  }
  Point(10);
  RT rt;
  Thread* t = ByHandle(h);
  if (!t) return ESRCH;
  if (t == g_cur) return EDEADLK;
  if (t->joined || t->detached) sim::Fail("thread-misuse", "thread joined twice, or after it has been detached");
  while (t->state != kDone) Block(t, kNever, "join");
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t h) {
  if (!g_active) return 0;
  RT rt;
  Thread* t = ByHandle(h);
  if (t) t->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_active) { m->__data.__lock = 1; return 0; }
  MutexAccess(m);
  Point(10);
  MutexAccess(m);
  RT rt;
  LockMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_active) { m->__data.__lock = 1; return 0; }
  MutexAccess(m);
  Point(10);
  RT rt;
  if (m->__data.__lock && !(m->__data.__owner == g_cur->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
  LockMutex(m);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!g_active) { m->__data.__lock = 1; return 0; }
  Point(10);
  RT rt;
  uint64_t d = DeadlineMono(c, ts);
  while (m->__data.__lock && m->__data.__owner != g_cur->id + 1) {
    if (g_now_ns >= d) return ETIMEDOUT;
    Block(m, d, "mutex");
  }
  LockMutex(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_active) { m->__data.__lock = 0; return 0; }
  MutexAccess(m);
  {
    RT rt;
    UnlockMutex(m);
  }
  Point(10);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_active) return 0; return CondWait(c, m, kNever); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!g_active) return ETIMEDOUT;
  return CondWait(c, m, DeadlineMono(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!g_active) return ETIMEDOUT;
  return CondWait(c, m, DeadlineMono(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_active) return 0;
  MutexAccess(c);
  Point(10);
  MutexAccess(c);
  {
    RT rt;
    Thread* w[kMaxThreads];
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i) {
      Thread* t = g_threads[i];
      if (t->state == kBlocked && t->wait_obj == c) w[n++] = t;
    }
    if (n) {
      Thread* t = w[DoChoose(sim::kSched, n)];
      t->state = kRun;
      t->signaled = true;
    }
  }
  Point(5);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_active) return 0;
  MutexAccess(c);
  Point(10);
  MutexAccess(c);
  { RT rt; WakeAll(c); }
  Point(5);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!g_active) { if (!*o) { *o = 2; f(); } return 0; }
  Point(5);
  while (true) {
    if (*o == 2) return 0;
    if (*o == 0) {
      *o = 1;
      f();
      *o = 2;
      RT rt;
      WakeAll(o);
      return 0;
    }
    RT rt;
    Block(o, kNever, "once");
  }
}
int sched_yield() {
  if (!g_active) return 0;
  RT rt;
  g_now_ns += 500;
  Dispatch(Why::kYield);
  return 0;
}
int __cxa_thread_atexit(void (*f)(void*), void* obj, void*) {
  if (!g_active || !g_cur) return 0;
  if (g_cur->ndtors < 64) { g_cur->dtors[g_cur->ndtors].f = f; g_cur->dtors[g_cur->ndtors].obj = obj; ++g_cur->ndtors; }
  return 0;
}
// Function-local statics.  Byte 0: initialised; byte 1: being initialised.
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  if (!g_active) { if (b[0]) return 0; b[1] = 1; return 1; }
  Point(5);
  while (true) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    RT rt;
    Block(g, kNever, "static initialisation");
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  b[1] = 0;
  b[0] = 1;
  if (g_active) { RT rt; WakeAll(g); }
}
void __cxa_guard_abort(uint64_t* g) {
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  b[1] = 0;
  if (g_active) { RT rt; WakeAll(g); }
}
}

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  Point(10);
  RT rt;
  uint64_t d = kNever;
  if (has_timeout) { struct timespec ts; ts.tv_sec = s.count(); ts.tv_nsec = ns.count(); d = DeadlineMono(CLOCK_REALTIME, &ts); }
  if (*addr != val) return true;
  if (d <= g_now_ns) return false;
  Block(addr, d, "future");
  return g_cur->signaled || *addr != val;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  Point(10);
  RT rt;
  uint64_t d = kNever;
  if (has_timeout) { struct timespec ts; ts.tv_sec = s.count(); ts.tv_nsec = ns.count(); d = DeadlineMono(CLOCK_MONOTONIC, &ts); }
  if (*addr != val) return true;
  if (d <= g_now_ns) return false;
  Block(addr, d, "future");
  return g_cur->signaled || *addr != val;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (!g_active) return;
  { RT rt; WakeAll(addr); }
  Point(5);
}
}  // namespace std

// =====================================================================================================================
// Clocks, sleeping, randomness, process control.
// =====================================================================================================================
namespace {
int64_t ReadWall() {
  if (g_k.clock_jump > 0 && DoChance(sim::kTime, g_k.clock_jump)) {
    int64_t span = g_k.clock_jump_max_us;
    int64_t d = static_cast<int64_t>(DoChoose(sim::kTime, 2 * span + 1));
    d = (d & 1) ? -(d / 2 + 1) : d / 2;
    g_wall_off_ns += d * 1000;
    Fired(d < 0 ? sim::kFClockBack : sim::kFClockForward);
  }
  int64_t w = static_cast<int64_t>(g_now_ns) + g_wall_off_ns;
  if (g_k.clock_coarse) w -= w % 10000000;
  return w;
}
}  // namespace
extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_active) return static_cast<int>(::syscall(SYS_clock_gettime, c, ts));
  Point(3);
  RT rt;
  uint64_t v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v = static_cast<uint64_t>(ReadWall());
  else v = g_now_ns;
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!g_active) return static_cast<int>(::syscall(SYS_clock_nanosleep, c, flags, ts, rem));
  RT rt;
  uint64_t d = (flags & TIMER_ABSTIME) ? DeadlineMono(c, ts) : g_now_ns + TsToNs(ts);
  Block(nullptr, d, "sleep");
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!g_active) return static_cast<int>(::syscall(SYS_nanosleep, ts, rem));
  return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, nullptr);
}
int usleep(useconds_t us) {
  struct timespec ts;
  ts.tv_sec = us / 1000000;
  ts.tv_nsec = (us % 1000000) * 1000;
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) { usleep(s * 1000000u); return 0; }
// Chosen, yet never repeating: the minimiser setting choices to zero should not make "random" identifiers collide.
static uint32_t Entropy() {
  static uint64_t counter = 0;
  uint64_t x = (++counter + (static_cast<uint64_t>(sim::Phase()) << 32)) * 0x9e3779b97f4a7c15ull;
  x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29;
  return static_cast<uint32_t>(x) ^ DoRaw(sim::kConf);
}
ssize_t getrandom(void* p, size_t n, unsigned f) {
  if (!g_active) return ::syscall(SYS_getrandom, p, n, f);
  RT rt;
  for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = static_cast<uint8_t>(Entropy());
  return n;
}
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
void exit(int code) {
  if (g_active && g_exit_is_crash) sim::CrashNow("exit");
  if (g_active) sim::Fail("process-exit", "the code under test called exit(%d)", code);
  static auto real = Real<void (*)(int)>("exit");
  real(code);
  __builtin_unreachable();
}
void abort() {
  if (g_active) sim::Fail("process-abort", "the code under test called abort()");
  ::syscall(SYS_exit_group, 134);
  __builtin_unreachable();
}
FILE* popen(const char*, const char*) { if (g_active) sim::Fail("harness-limit", "popen"); return nullptr; }
int system(const char*) { if (g_active) sim::Fail("harness-limit", "system"); return -1; }
}
namespace std {
void random_device::_M_init(const std::string&) { this->_M_file = nullptr; }
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  if (!g_active) return 4;
  RT rt;
  return Entropy();
}
}  // namespace std

// =====================================================================================================================
// Disk.  Real files (on tmpfs) behind an injecting seam, for the paths below the run directory.
// =====================================================================================================================
namespace {
bool g_tracked[4096];
bool g_disk_target[4096];
bool PathTracked(const char* p) { return g_active && !strncmp(p, g_sim_dir, sizeof(g_sim_dir) - 1); }
bool PathTargeted(const char* p) { return !g_disk_only[0] || strstr(p, g_disk_only); }
void TrackFd(int fd, const char* path) {
  if (fd >= 0 && fd < 4096) { g_tracked[fd] = PathTracked(path); g_disk_target[fd] = g_tracked[fd] && PathTargeted(path); }
}
bool FdTracked(int fd) { return g_active && fd >= 0 && fd < 4096 && g_tracked[fd]; }

// Where a write of `n` bytes may be cut after `keep` of them: what is being overwritten in place changes sector by sector,
// what is being appended may be cut anywhere.
size_t CutWrite(int fd, size_t n, size_t keep) {
  if (keep >= n) return n;
  if (::syscall(SYS_fcntl, fd, F_GETFL, 0) & O_APPEND) return keep;
  const off_t at = ::syscall(SYS_lseek, fd, 0, SEEK_CUR);
  struct stat st;
  if (at < 0 || ::syscall(SYS_fstat, fd, &st) || at + static_cast<off_t>(keep) >= st.st_size) return keep;
  const off_t cut = (at + static_cast<off_t>(keep)) / 512 * 512;
  return cut > at ? cut - at : 0;
}
// By how much the file grows with the next `n` bytes.
size_t Growth(int fd, size_t n) {
  struct stat st;
  if ((::syscall(SYS_fcntl, fd, F_GETFL, 0) & O_APPEND) || ::syscall(SYS_fstat, fd, &st)) return n;
  const off_t at = ::syscall(SYS_lseek, fd, 0, SEEK_CUR);
  if (at < 0 || at >= st.st_size) return n;
  return at + static_cast<off_t>(n) > st.st_size ? at + n - st.st_size : 0;
}
// Returns the number of bytes to write, or -1 with errno set.
ssize_t WriteFault(int fd, const void* p, size_t n) {
  H(0x5700 + n);
  bool target = g_disk_target[fd];
  if (target && g_k.crash_at_write > 0 && DoChance(sim::kFault, g_k.crash_at_write)) {
    const size_t how = DoChoose(sim::kFault, 4);  // Before, after, torn, torn.
    const size_t keep = how == 0 ? 0 : how == 1 ? n : CutWrite(fd, n, DoChoose(sim::kFault, n + 1));
    Fired(keep == 0 ? sim::kFCrashBeforeWrite : keep == n ? sim::kFCrashAfterWrite : sim::kFTornWrite);
    if (keep) (void)!::syscall(SYS_write, fd, p, keep);
    sim::CrashNow("crash at a write");
  }
  if (target) {
    if (g_k.disk_eintr > 0 && DoChance(sim::kFault, g_k.disk_eintr)) { Fired(sim::kFDiskEintr); errno = EINTR; return -1; }
    if (g_k.disk_eio > 0 && DoChance(sim::kFault, g_k.disk_eio)) { Fired(sim::kFDiskEio); ++g_disk_errors; errno = EIO; return -1; }
    if (g_k.disk_enospc > 0 && DoChance(sim::kFault, g_k.disk_enospc)) { Fired(sim::kFDiskEnospc); ++g_disk_errors; errno = ENOSPC; return -1; }
    if (g_k.disk_short_write > 0 && n > 1 && DoChance(sim::kFault, g_k.disk_short_write)) {
      const size_t cut = CutWrite(fd, n, 1 + DoChoose(sim::kFault, n - 1));
      if (cut && cut < n) { n = cut; Fired(sim::kFDiskShortWrite); }
    }
    if (g_k.disk_capacity >= 0) {
      const size_t growth = Growth(fd, n);  // Overwriting what is there takes no space.
      if (growth == n && n && g_k.disk_capacity == 0) { Fired(sim::kFDiskEnospc); ++g_disk_errors; errno = ENOSPC; return -1; }
      if (static_cast<int64_t>(growth) > g_k.disk_capacity) { n -= growth - g_k.disk_capacity; Fired(sim::kFDiskShortWrite); }
      g_k.disk_capacity -= std::min<int64_t>(growth, g_k.disk_capacity);
    }
  }
  return n;
}
bool OpenFault(const char* path) {
  if (!PathTracked(path)) return false;
  if (PathTargeted(path) && g_k.disk_open_fail > 0 && DoChance(sim::kFault, g_k.disk_open_fail)) {
    Fired(sim::kFDiskOpen);
    ++g_disk_errors;
    errno = EMFILE;
    return true;
  }
  return false;
}
bool MetaFault(const char* path) {
  if (!PathTracked(path)) return false;
  if (PathTargeted(path) && g_k.disk_meta_fail > 0 && DoChance(sim::kFault, g_k.disk_meta_fail)) {
    Fired(sim::kFDiskMeta);
    ++g_disk_errors;
    errno = EIO;
    return true;
  }
  return false;
}
// Nothing outside of the run directory is created, changed or removed while a simulated life is on: neither by a path which
// leads there, nor through a symbolic link.  The code under test deletes files, so this is refused, and it is a violation.
void Contained(const char* path) {
  if (!g_active || !strncmp(path, "/dev/", 5)) return;
  char dir[4096], real[4096];
  const char* slash = strrchr(path, '/');
  const size_t n = slash ? slash - path : 0;
  if (n >= sizeof(dir)) sim::Fail("escape", "a path too long to check");
  if (n) { memcpy(dir, path, n); dir[n] = 0; } else { strcpy(dir, slash ? "/" : "."); }
  RT rt;
  const int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, dir, O_PATH | O_CLOEXEC));
  if (fd < 0) return;  // There is no such directory, the operation fails by itself.
  char link[64];
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  const ssize_t k = ::syscall(SYS_readlinkat, AT_FDCWD, link, real, sizeof(real) - 1);
  ::syscall(SYS_close, fd);
  static char root[4200];
  if (!root[0]) {
    if (::syscall(SYS_getcwd, root, 4096) <= 0) sim::Fail("escape", "no working directory");
    strcat(strcat(root, "/"), g_sim_dir);
  }
  const size_t base = strlen(root);
  if (k <= 0) sim::Fail("escape", "cannot tell where '%s' leads", path);
  real[k] = 0;
  const char* last = slash ? slash + 1 : path;
  if (strncmp(real, root, base) || (real[base] && real[base] != '/') || !strcmp(last, "..")) {
    sim::Fail("escape", "'%s' would be changed, which is outside of the run directory", path);
  }
}
// A crash may also hit between two metadata operations.
void MetaCrash(const char* path) {
  if (!PathTracked(path) || !PathTargeted(path)) return;
  if (g_k.crash_at_write > 0 && DoChance(sim::kFault, g_k.crash_at_write)) {
    Fired(sim::kFCrashBeforeWrite);
    sim::CrashNow("crash at a metadata operation");
  }
}
}  // namespace
namespace simnet { bool IsSock(int fd); int Close(int fd); ssize_t Send(int, const void*, size_t, int); ssize_t Recv(int, void*, size_t, int); }
extern "C" {
FILE* fopen(const char* path, const char* mode) {
  if (mode[0] != 'r' || strchr(mode, '+')) Contained(path);
  if (g_active && PathTracked(path)) { Point(10); RT rt; MetaCrash(path); if (OpenFault(path)) return nullptr; }
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen64");
  RT rt;
  FILE* f = real(path, mode);
  if (f && g_active) { TrackFd(fileno(f), path); H(0x0b); }
  return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fclose(FILE* f) {
  int fd = fileno(f);
  if (g_active && fd >= 0 && fd < 4096) g_tracked[fd] = false;
  static auto real = Real<int (*)(FILE*)>("fclose");
  return real(f);
}
int open(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) Contained(path);
  if (g_active && PathTracked(path)) { Point(10); RT rt; MetaCrash(path); if (OpenFault(path)) return -1; }
  int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  if (g_active) TrackFd(fd, path);
  return fd;
}
int open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return open(path, flags, mode);
}
ssize_t write(int fd, const void* p, size_t n) {
  if (g_active && simnet::IsSock(fd)) return simnet::Send(fd, p, n, 0);
  if (!FdTracked(fd)) return ::syscall(SYS_write, fd, p, n);
  Point(20);
  ssize_t k;
  { RT rt; k = WriteFault(fd, p, n); if (k > 0) k = ::syscall(SYS_write, fd, p, k); }
  Point(10);
  return k;
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  if (!FdTracked(fd)) return ::syscall(SYS_writev, fd, v, cnt);
  // One atomic `write` of the concatenation.
  size_t n = 0;
  for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
  char* b = static_cast<char*>(malloc(n ? n : 1));
  size_t o = 0;
  for (int i = 0; i < cnt; ++i) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  Point(20);
  ssize_t k;
  int e;
  { RT rt; k = WriteFault(fd, b, n); if (k > 0) k = ::syscall(SYS_write, fd, b, k); e = errno; }
  free(b);
  errno = e;
  Point(10);
  return k;
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t off) {
  if (!FdTracked(fd)) return ::syscall(SYS_pwrite64, fd, p, n, off);
  Point(20);
  RT rt;
  ssize_t k = WriteFault(fd, p, n);
  if (k > 0) k = ::syscall(SYS_pwrite64, fd, p, k, off);
  return k;
}
ssize_t read(int fd, void* p, size_t n) {
  if (g_active && simnet::IsSock(fd)) return simnet::Recv(fd, p, n, 0);
  if (!FdTracked(fd)) return ::syscall(SYS_read, fd, p, n);
  Point(10);
  RT rt;
  if (g_disk_target[fd]) {
    if (g_k.disk_read_eio > 0 && DoChance(sim::kFault, g_k.disk_read_eio)) { Fired(sim::kFDiskReadEio); ++g_disk_errors; errno = EIO; return -1; }
    if (g_k.disk_short_read > 0 && n > 1 && DoChance(sim::kFault, g_k.disk_short_read)) { n = 1 + DoChoose(sim::kFault, n - 1); Fired(sim::kFDiskShortRead); }
  }
  ssize_t k = ::syscall(SYS_read, fd, p, n);
  H(0x7200 + k);
  return k;
}
int close(int fd) {
  if (g_active && simnet::IsSock(fd)) return simnet::Close(fd);
  if (fd >= 0 && fd < 4096) g_tracked[fd] = false;
  return static_cast<int>(::syscall(SYS_close, fd));
}
int rename(const char* a, const char* b) {
  Contained(a);
  Contained(b);
  if (PathTracked(a)) { Point(10); RT rt; MetaCrash(a); if (MetaFault(a)) return -1; H(0x0c); }
  return static_cast<int>(::syscall(SYS_rename, a, b));
}
int unlink(const char* a) {
  Contained(a);
  if (PathTracked(a)) { Point(10); RT rt; MetaCrash(a); if (MetaFault(a)) return -1; H(0x0d); }
  return static_cast<int>(::syscall(SYS_unlink, a));
}
int rmdir(const char* a) {
  Contained(a);
  if (PathTracked(a)) { Point(10); RT rt; MetaCrash(a); if (MetaFault(a)) return -1; H(0x0e); }
  return static_cast<int>(::syscall(SYS_rmdir, a));
}
int remove(const char* a) {
  int r = unlink(a);
  if (r && (errno == EISDIR || errno == EPERM)) r = rmdir(a);
  return r;
}
int mkdir(const char* a, mode_t m) {
  Contained(a);
  if (PathTracked(a)) { Point(10); RT rt; MetaCrash(a); if (MetaFault(a)) return -1; H(0x0f); }
  return static_cast<int>(::syscall(SYS_mkdir, a, m));
}
// A directory is listed as of when it was opened, in a seeded order: what the order is, and whether what changes meanwhile
// is listed, is not for the code to rely upon.
struct SimDir { DIR* real; size_t n, at; bool shuffled; struct dirent e[256]; };
static SimDir* g_dirs[64];
static SimDir* FindDir(DIR* d) { for (SimDir* x : g_dirs) if (x && x->real == d) return x; return nullptr; }
DIR* opendir(const char* path) {
  static auto real = Real<DIR* (*)(const char*)>("opendir");
  static auto real_readdir = Real<struct dirent* (*)(DIR*)>("readdir64");
  if (!g_active || !PathTracked(path)) return real(path);
  Point(10);
  RT rt;
  MetaCrash(path);
  if (OpenFault(path)) return nullptr;
  DIR* d = real(path);
  if (!d) return nullptr;
  SimDir** slot = nullptr;
  for (SimDir*& x : g_dirs) if (!x) { slot = &x; break; }
  if (!slot) sim::Fail("harness-limit", "too many open directories");
  SimDir* x = static_cast<SimDir*>(malloc(sizeof(SimDir)));
  x->real = d; x->n = x->at = 0;
  while (struct dirent* e = real_readdir(d)) {
    if (x->n == 256) sim::Fail("harness-limit", "too many entries in a directory");
    memcpy(&x->e[x->n++], e, e->d_reclen < sizeof(struct dirent) ? e->d_reclen : sizeof(struct dirent));
  }
  // First by name, then at random.
  for (size_t i = 1; i < x->n; ++i) for (size_t j = i; j && strcmp(x->e[j].d_name, x->e[j - 1].d_name) < 0; --j) std::swap(x->e[j], x->e[j - 1]);
  for (size_t i = 0; i + 1 < x->n; ++i) std::swap(x->e[i], x->e[i + DoChoose(sim::kFault, x->n - i)]);
  *slot = x;
  H(0x12);
  return d;
}
struct dirent* readdir(DIR* d) {
  static auto real = Real<struct dirent* (*)(DIR*)>("readdir64");
  SimDir* x = g_active ? FindDir(d) : nullptr;
  if (!x) return real(d);
  Point(10);
  RT rt;
  if (g_k.disk_read_eio > 0 && DoChance(sim::kFault, g_k.disk_read_eio)) { Fired(sim::kFDiskReadEio); ++g_disk_errors; errno = EIO; return nullptr; }
  return x->at < x->n ? &x->e[x->at++] : nullptr;
}
struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
int closedir(DIR* d) {
  static auto real = Real<int (*)(DIR*)>("closedir");
  for (SimDir*& x : g_dirs) if (g_active && x && x->real == d) { RT rt; free(x); x = nullptr; }
  return real(d);
}
int fsync(int fd) { if (FdTracked(fd)) Point(10); return 0; }
int fdatasync(int fd) { if (FdTracked(fd)) Point(10); return 0; }
int ftruncate(int fd, off_t n) { return static_cast<int>(::syscall(SYS_ftruncate, fd, n)); }
int truncate(const char* path, off_t n) {
  Contained(path);
  if (PathTracked(path)) { Point(10); RT rt; MetaCrash(path); if (MetaFault(path)) return -1; H(0x11); }
  return static_cast<int>(::syscall(SYS_truncate, path, n));
}
}

// =====================================================================================================================
// Network: TCP-like streams inside the process.
// =====================================================================================================================
namespace simnet {
namespace {
constexpr int kFdBase = 20000, kMaxSocks = 200000;
struct Seg { uint64_t at; char* data; size_t len, off; Seg* next; };
struct Sock {
  int fd;
  bool listener = false, connected = false, closed = false, reset = false, bound = false;
  bool fin_rcvd = false, shut_wr = false, shut_rd = false, connecting = false;
  uint64_t fin_at = 0;
  uint16_t lport = 0, rport = 0;
  uint32_t lip = 0, rip = 0;
  Sock* peer = nullptr;
  Seg* head = nullptr; Seg* tail = nullptr;
  size_t rx_bytes = 0;
  uint64_t last_at = 0;
  int backlog[64]; int nbacklog = 0;
  uint64_t backlog_at[64];
};
Sock* g_socks[kMaxSocks];
int g_nsocks = 0;
Sock* g_bound[256];  // The ones which were ever bound, the closed ones are reused.
int g_nbound = 0;
uint16_t g_ephemeral = 40000;
bool g_partition = false;
char g_net_event;  // Everybody who waits for the partition to heal waits on this address.

Sock* S(int fd) {
  int i = fd - kFdBase;
  if (i < 0 || i >= g_nsocks) return nullptr;
  Sock* s = g_socks[i];
  return s && !s->closed ? s : nullptr;
}
void DropRx(Sock* s) {
  while (s->head) { Seg* g = s->head; s->head = g->next; free(g->data); free(g); }
  s->tail = nullptr;
  s->rx_bytes = 0;
}
void Reset(Sock* s) {  // `s` receives an RST.
  if (s->reset) return;
  s->reset = true;
  DropRx(s);
  WakeAll(s);
}
uint64_t Delay() {
  if (g_k.net_delay > 0 && DoChance(sim::kNet, g_k.net_delay)) { Fired(sim::kFNetDelay); return 1000 * (1 + DoChoose(sim::kNet, g_k.net_delay_max_us)); }
  return 0;
}
bool PortTaken(uint16_t p) {
  for (int i = 0; i < g_nbound; ++i) if (!g_bound[i]->closed && g_bound[i]->lport == p) return true;
  return false;
}
Sock* Listener(uint16_t port) {
  for (int i = 0; i < g_nbound; ++i) if (!g_bound[i]->closed && g_bound[i]->listener && g_bound[i]->lport == port) return g_bound[i];
  return nullptr;
}
Sock* NewSock() {
  if (g_nsocks >= kMaxSocks) sim::Fail("runaway-sockets", "more than %d sockets have been opened", kMaxSocks);
  Sock* s = new Sock();
  s->fd = kFdBase + g_nsocks;
  g_socks[g_nsocks++] = s;
  return s;
}
void Push(Sock* to, const char* p, size_t n, uint64_t at) {
  Seg* g = static_cast<Seg*>(malloc(sizeof(Seg)));
  g->data = static_cast<char*>(malloc(n));
  memcpy(g->data, p, n);
  g->len = n; g->off = 0; g->next = nullptr;
  if (at < to->last_at) at = to->last_at;
  to->last_at = at;
  g->at = at;
  if (to->tail) to->tail->next = g; else to->head = g;
  to->tail = g;
  to->rx_bytes += n;
}
void MaybeReset(Sock* s) {
  if (g_k.net_reset > 0 && s->connected && !s->reset && DoChance(sim::kNet, g_k.net_reset)) {
    Fired(sim::kFNetReset);
    Vlog("net: RST between ports %d and %d", s->lport, s->rport);
    if (s->peer) Reset(s->peer);
    Reset(s);
  }
}
}  // namespace

bool IsSock(int fd) { return fd >= kFdBase && fd < kFdBase + kMaxSocks; }

ssize_t Send(int fd, const void* p, size_t n, int) {
  Point(15);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  if (!s->connected) { errno = ENOTCONN; return -1; }
  MaybeReset(s);
  const char* c = static_cast<const char*>(p);
  size_t left = n;
  while (left) {
    if (s->closed) { errno = EBADF; return -1; }
    if (s->reset || s->shut_wr) { errno = EPIPE; return -1; }
    Sock* to = s->peer;
    if (!to || to->closed) {  // The peer is gone: the data goes nowhere, and an RST comes back.
      s->reset = true;
      H(0x50);
      return n;
    }
    if (to->rx_bytes >= g_k.net_sndbuf && g_k.net_eintr > 0 && DoChance(sim::kNet, g_k.net_eintr)) {  // A signal while blocked.
      Fired(sim::kFNetEintr);
      if (left != n) { H(0x5e10); return n - left; }
      errno = EINTR;
      return -1;
    }
    if (to->rx_bytes >= g_k.net_sndbuf) { Fired(sim::kFNetBackpressure); Block(s, kNever, "send: the buffer is full"); continue; }
    size_t k = left;
    if (k > g_k.net_sndbuf - to->rx_bytes) k = g_k.net_sndbuf - to->rx_bytes;
    size_t done = 0;
    while (done < k) {
      size_t part = k - done;
      if (g_k.net_segment > 0 && part > 1 && DoChance(sim::kNet, g_k.net_segment)) { part = 1 + DoChoose(sim::kNet, part - 1); Fired(sim::kFNetSegment); }
      Push(to, c, part, g_now_ns + Delay());
      c += part;
      done += part;
    }
    left -= k;
    WakeAll(to);
  }
  H(0x5e00 + n);
  return n;
}

ssize_t Recv(int fd, void* p, size_t n, int flags) {
  Point(15);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  if (!s->connected) { errno = ENOTCONN; return -1; }
  MaybeReset(s);
  char* out = static_cast<char*>(p);
  size_t got = 0;
  size_t want = n;
  while (got < want) {
    if (s->closed) { errno = EBADF; return -1; }
    if (s->reset) { if (got) break; errno = ECONNRESET; return -1; }
    if (s->shut_rd) break;
    if (g_partition) { Block(&g_net_event, kNever, "recv: partitioned"); continue; }
    if (s->head && s->head->at <= g_now_ns) {
      Seg* g = s->head;
      size_t k = g->len - g->off;
      if (k > want - got) k = want - got;
      bool stop = false;
      if (!(flags & MSG_WAITALL) && k > 1 && g_k.net_short_recv > 0 && DoChance(sim::kNet, g_k.net_short_recv)) {
        k = 1 + DoChoose(sim::kNet, k - 1);
        Fired(sim::kFNetShortRecv);
        stop = true;
      }
      memcpy(out + got, g->data + g->off, k);
      if (flags & MSG_PEEK) { got += k; break; }
      g->off += k;
      got += k;
      s->rx_bytes -= k;
      if (g->off == g->len) { s->head = g->next; if (!s->head) s->tail = nullptr; free(g->data); free(g); }
      if (s->peer) WakeAll(s->peer);
      if (stop) break;
      continue;
    }
    if (got && !(flags & MSG_WAITALL)) break;
    if (s->fin_rcvd && !s->head && s->fin_at <= g_now_ns) break;
    if (g_k.net_eintr > 0 && DoChance(sim::kNet, g_k.net_eintr)) {  // A signal while blocked.
      Fired(sim::kFNetEintr);
      if (got) break;
      errno = EINTR;
      return -1;
    }
    uint64_t wake = kNever;
    if (s->head) wake = s->head->at; else if (s->fin_rcvd) wake = s->fin_at;
    Block(s, wake, "recv");
  }
  H(0x5f00 + got);
  return got;
}

int Shutdown(int fd, int how) {
  Point(10);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  if (s->listener) { s->shut_rd = true; WakeAll(s); return 0; }
  if (!s->connected) { errno = ENOTCONN; return -1; }
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) {
    s->shut_wr = true;
    if (s->peer && !s->peer->closed && !s->reset) {
      s->peer->fin_rcvd = true;
      uint64_t at = g_now_ns + Delay();
      if (at < s->peer->last_at) at = s->peer->last_at;
      s->peer->fin_at = at;
      WakeAll(s->peer);
    }
  }
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  WakeAll(s);
  return 0;
}

int Close(int fd) {
  Point(10);
  RT rt;
  Sock* s = S(fd);
  if (!s) { sim::Fail("fd-misuse", "close of a socket which is not open"); }
  if (s->connected && s->peer && !s->peer->closed && !s->reset) {
    if (s->rx_bytes) {
      Reset(s->peer);  // Closing with unread data sends an RST.
      Fired(sim::kFNetRstOnClose);
    } else if (!s->shut_wr) {
      s->peer->fin_rcvd = true;
      uint64_t at = g_now_ns + Delay();
      if (at < s->peer->last_at) at = s->peer->last_at;
      s->peer->fin_at = at;
    }
    WakeAll(s->peer);
  }
  if (s->listener) {
    for (int i = 0; i < s->nbacklog; ++i) {
      Sock* b = S(s->backlog[i]);
      if (b) { if (b->peer) Reset(b->peer); b->closed = true; }
    }
    s->nbacklog = 0;
  }
  DropRx(s);
  WakeAll(s);
  s->closed = true;
  H(0x5c);
  return 0;
}
}  // namespace simnet

extern "C" {
using simnet::S;
using simnet::Sock;
int socket(int d, int t, int p) {
  if (!g_active) return static_cast<int>(::syscall(SYS_socket, d, t, p));
  Point(5);
  RT rt;
  return simnet::NewSock()->fd;
}
int setsockopt(int fd, int, int, const void*, socklen_t) { if (!g_active) return 0; if (!S(fd)) { errno = EBADF; return -1; } return 0; }
int getsockopt(int, int, int, void* v, socklen_t* l) { if (v && l) memset(v, 0, *l); return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) {
  Point(5);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  uint16_t port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  if (!port) { do { port = simnet::g_ephemeral++; } while (simnet::PortTaken(port)); }
  else if (simnet::PortTaken(port)) { errno = EADDRINUSE; return -1; }
  s->lport = port;
  s->lip = htonl(INADDR_LOOPBACK);
  if (!s->bound) {
    int i = 0;
    while (i < simnet::g_nbound && !simnet::g_bound[i]->closed) ++i;
    if (i == 256) sim::Fail("harness-limit", "too many bound sockets");
    simnet::g_bound[i] = s;
    if (i == simnet::g_nbound) ++simnet::g_nbound;
  }
  s->bound = true;
  return 0;
}
int listen(int fd, int) {
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  s->listener = true;
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  Point(10);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  while (true) {
    if (s->closed || s->shut_rd) { errno = EINVAL; return -1; }
    if (simnet::g_partition) { Block(&simnet::g_net_event, kNever, "accept: partitioned"); continue; }
    if (s->nbacklog && s->backlog_at[0] <= g_now_ns) break;
    Block(s, s->nbacklog ? s->backlog_at[0] : kNever, "accept");
  }
  int cfd = s->backlog[0];
  --s->nbacklog;
  for (int i = 0; i < s->nbacklog; ++i) { s->backlog[i] = s->backlog[i + 1]; s->backlog_at[i] = s->backlog_at[i + 1]; }
  Sock* c = S(cfd);
  sockaddr_in* in = reinterpret_cast<sockaddr_in*>(a);
  if (in) { memset(in, 0, sizeof(*in)); in->sin_family = AF_INET; in->sin_port = htons(c->rport); in->sin_addr.s_addr = c->rip; if (l) *l = sizeof(*in); }
  H(0xacc);
  return cfd;
}
int connect(int fd, const struct sockaddr* a, socklen_t) {
  Point(10);
  RT rt;
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  uint16_t port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  uint64_t give_up = g_now_ns + 60ull * 1000000000ull;
  while (simnet::g_partition) {
    if (g_now_ns >= give_up) { errno = ETIMEDOUT; return -1; }
    Block(&simnet::g_net_event, give_up, "connect: partitioned");
  }
  if (g_k.net_refuse > 0 && DoChance(sim::kNet, g_k.net_refuse)) { Fired(sim::kFNetRefuse); errno = ECONNREFUSED; return -1; }
  Sock* ls = simnet::Listener(port);
  if (!ls || ls->nbacklog >= 64) {
    char nobody;
    const uint64_t until = g_now_ns + 100000;
    while (g_now_ns < until) Block(&nobody, until, "connect: refused");
    errno = ECONNREFUSED;
    return -1;
  }
  Sock* c = simnet::NewSock();
  c->connected = s->connected = true;
  c->peer = s; s->peer = c;
  c->lport = port;
  if (!s->lport) s->lport = simnet::g_ephemeral++;
  c->rport = s->lport; s->rport = port;
  c->lip = c->rip = s->lip = s->rip = htonl(INADDR_LOOPBACK);
  ls->backlog[ls->nbacklog] = c->fd;
  uint64_t at = g_now_ns + simnet::Delay();
  if (ls->nbacklog && at < ls->backlog_at[ls->nbacklog - 1]) at = ls->backlog_at[ls->nbacklog - 1];
  ls->backlog_at[ls->nbacklog++] = at;
  WakeAll(ls);
  H(0xc0);
  // Takes some time, so that whatever keeps connecting does not stop the clock.
  char nobody;
  const uint64_t until = g_now_ns + 20000;
  while (g_now_ns < until) Block(&nobody, until, "connect");
  return 0;
}
ssize_t send(int fd, const void* p, size_t n, int f) { return simnet::Send(fd, p, n, f); }
ssize_t recv(int fd, void* p, size_t n, int f) { return simnet::Recv(fd, p, n, f); }
int shutdown(int fd, int how) { return simnet::Shutdown(fd, how); }
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  Sock* s = S(fd);
  if (!s) { errno = EBADF; return -1; }
  sockaddr_in* in = reinterpret_cast<sockaddr_in*>(a);
  memset(in, 0, sizeof(*in));
  in->sin_family = AF_INET;
  in->sin_port = htons(s->lport);
  in->sin_addr.s_addr = s->lip;
  *l = sizeof(*in);
  return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  Sock* s = S(fd);
  if (!s || !s->connected) { errno = ENOTCONN; return -1; }
  sockaddr_in* in = reinterpret_cast<sockaddr_in*>(a);
  memset(in, 0, sizeof(*in));
  in->sin_family = AF_INET;
  in->sin_port = htons(s->rport);
  in->sin_addr.s_addr = s->rip;
  *l = sizeof(*in);
  return 0;
}
int getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res) {
  struct Both { addrinfo ai; sockaddr_in in; };
  Both* b = static_cast<Both*>(calloc(1, sizeof(Both)));
  b->ai.ai_family = AF_INET;
  b->ai.ai_socktype = SOCK_STREAM;
  b->ai.ai_addrlen = sizeof(sockaddr_in);
  b->ai.ai_addr = reinterpret_cast<sockaddr*>(&b->in);
  b->in.sin_family = AF_INET;
  b->in.sin_port = htons(service ? static_cast<uint16_t>(atoi(service)) : 0);
  b->in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (node) { struct in_addr x; if (inet_pton(AF_INET, node, &x) == 1) b->in.sin_addr = x; }
  *res = &b->ai;
  return 0;
}
void freeaddrinfo(struct addrinfo* r) { free(r); }
}

// =====================================================================================================================
// The API.
// =====================================================================================================================
namespace sim {

uint32_t Raw(Stream s) { RT rt; return DoRaw(s); }
uint64_t Choose(Stream s, uint64_t n) { RT rt; return DoChoose(s, n); }
bool Chance(Stream s, double p) { RT rt; return DoChance(s, p); }
std::string WBytes(size_t max_len) {
  size_t n = W(max_len + 1);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += static_cast<char>(Raw(kWork) & 255);
  return s;
}
Knobs& K() { return g_k; }
void FaultsOff() {
  uint64_t sndbuf = g_k.net_sndbuf;
  g_k = Knobs();
  g_k.net_sndbuf = sndbuf;
  NetPartition(false);
  Log("faults off");
}
int Phase() { return g_spec.phase; }
void ExitIsCrash(bool on) { g_exit_is_crash = on; }
bool FinalPhase() { return g_spec.phase + 1 >= g_spec.max_phases; }

void CrashNow(const char* why) {
  RT rt;
  if (g_spec.phase + 1 >= g_spec.max_phases) Fail("harness-limit", "a crash in the final phase");
  Vlog("CRASH: %s", why);
  g_active = false;
  g_res->status = kStCrashed;
  FinishStats();
  ExitProcess(0);
}
void EndRun() {
  RT rt;
  g_active = false;
  if (g_res) { g_res->status = kStPass; FinishStats(); }
  ExitProcess(0);
}
void Fail(const char* kind, const char* fmt, ...) {
  g_active = false;
  g_rt = 1;
  if (g_res) {
    snprintf(g_res->kind, sizeof g_res->kind, "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_res->message, sizeof g_res->message, fmt, ap);
    va_end(ap);
    Vlog("FAIL %s: %s", kind, g_res->message);
    if (g_verbose) { void* bt[48]; int nb = backtrace(bt, 48); backtrace_symbols_fd(bt, nb, 2); }
    uint64_t hh = 0;
    for (const char* c = g_res->kind; *c; ++c) hh = hh * 131 + *c;
    H(hh);
    g_res->status = kStFail;
    FinishStats();
    if (getenv("SIM_TRAP")) { signal(SIGTRAP, SIG_DFL); __builtin_trap(); }
    ExitProcess(1);
  }
  char buf[600];
  int n = snprintf(buf, sizeof buf, "sim: %s outside of a run: ", kind);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  buf[n++] = '\n';
  (void)!::syscall(SYS_write, 2, buf, n);
  ExitProcess(98);
}
void Log(const char* fmt, ...) {
  RT rt;
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  uint64_t hh = 7;
  for (int i = 0; i < n && i < (int)sizeof(buf) - 1; ++i) hh = hh * 131 + static_cast<uint8_t>(buf[i]);
  H(hh);
  Vlog("%s", buf);
}
void Cover(uint64_t h) {
  RT rt;
  if (!g_res) return;
  if (g_res->n_cover < kMaxCover) g_res->cover[g_res->n_cover++] = Mix(h);
}
void Cover(const std::string& s) {
  uint64_t hh = 99;
  for (char c : s) hh = hh * 131 + static_cast<uint8_t>(c);
  Cover(hh);
}
void Count(const char* what, uint64_t n) {
  RT rt;
  if (!g_res) return;
  for (int i = 0; i < kMaxCounters; ++i) {
    if (!g_res->counters[i].name[0]) snprintf(g_res->counters[i].name, sizeof g_res->counters[i].name, "%s", what);
    if (!strncmp(g_res->counters[i].name, what, sizeof(g_res->counters[i].name) - 1)) { g_res->counters[i].n += n; return; }
  }
}
const std::string& RunDir() { static std::string* s = new std::string(g_sim_dir); return *s; }
void HistoryAppend(const std::string& r) {
  RT rt;
  uint32_t n = static_cast<uint32_t>(r.size());
  if (g_res->history_bytes + n + 4 > kMaxHistory) Fail("harness-limit", "the history is too long");
  memcpy(g_res->history + g_res->history_bytes, &n, 4);
  memcpy(g_res->history + g_res->history_bytes + 4, r.data(), n);
  g_res->history_bytes += n + 4;
}
std::vector<std::string> History() {
  std::vector<std::string> v;
  for (size_t i = 0; i < g_res->history_bytes;) {
    uint32_t n;
    memcpy(&n, g_res->history + i, 4);
    v.emplace_back(g_res->history + i + 4, n);
    i += 4 + n;
  }
  return v;
}
void SetLimits(uint64_t s, uint64_t us) { g_max_steps = s; g_max_us = us; }
uint64_t NowUs() { return g_now_ns / 1000; }
int64_t WallUs() { return (static_cast<int64_t>(g_now_ns) + g_wall_off_ns) / 1000; }
void SetWall(int64_t us) { g_wall_off_ns = us * 1000 - static_cast<int64_t>(g_now_ns); }
void SleepUs(uint64_t us) { RT rt; Block(nullptr, g_now_ns + us * 1000, "sleep (scenario)"); }
void Yield() { sched_yield(); }
bool WaitUntil(const std::function<bool()>& pred, uint64_t max_us, uint64_t poll_us) {
  uint64_t deadline = g_now_ns / 1000 + max_us;
  while (true) {
    if (pred()) return true;
    if (g_now_ns / 1000 >= deadline) return false;
    SleepUs(poll_us);
  }
}
uint64_t Steps() { return g_steps; }
int ThreadId() { return g_cur ? g_cur->id : -1; }
void NoPreempt(bool on) { if (g_cur) g_cur->nopreempt += on ? 1 : -1; }
int LiveThreads() { int n = 0; for (int i = 0; i < g_nthreads; ++i) n += g_threads[i]->state != kDone; return n; }
void NetPartition(bool on) {
  RT rt;
  if (on == simnet::g_partition) return;
  simnet::g_partition = on;
  if (on) Fired(kFNetPartition);
  Vlog("net: partition %s", on ? "starts" : "heals");
  WakeAll(&simnet::g_net_event);
  if (on) for (int i = 0; i < simnet::g_nsocks; ++i) if (simnet::g_socks[i]) WakeAll(simnet::g_socks[i]);
}
void NetResetAll() {
  RT rt;
  for (int i = 0; i < simnet::g_nsocks; ++i) {
    simnet::Sock* s = simnet::g_socks[i];
    if (s && !s->closed && s->connected && !s->reset) { simnet::Reset(s); Fired(kFNetReset); }
  }
}
size_t NetOpenStreams() {
  size_t n = 0;
  for (int i = 0; i < simnet::g_nsocks; ++i) { simnet::Sock* s = simnet::g_socks[i]; n += s && !s->closed && s->connected; }
  return n;
}
size_t HeapLiveBlocks() { return g_live_blocks; }
void DiskErrorsOnlyFor(const std::string& s) { snprintf(g_disk_only, sizeof g_disk_only, "%s", s.c_str()); }
uint64_t InjectedDiskErrors() { return g_disk_errors; }

static void OnTerminate() {
  const char* what = "std::terminate";
  char buf[700];
  buf[0] = 0;
  try {
    std::exception_ptr e = std::current_exception();
    if (e) std::rethrow_exception(e);
  } catch (const std::exception& e) {
    std::type_info* t = __cxxabiv1::__cxa_current_exception_type();
    snprintf(buf, sizeof buf, "uncaught %s: %s", t ? t->name() : "?", e.what());
    what = buf;
  } catch (...) {
    what = "an uncaught exception of an unknown type";
  }
  Fail("process-terminate", "%s", what);
}

static void OnSignal(int sig, siginfo_t* si, void*) {
  Fail("process-crash", "signal %d, address %p", sig, si->si_addr);
}

static void (*g_fn)();
static void* ScenarioMain(void*) {
  g_fn();
  g_rt = 1;
  EndRun();
  return nullptr;
}

// Called in the run process (a fork of the driver's worker): never returns.
void RunInThisProcess(void (*fn)()) {
  std::set_terminate(OnTerminate);
  if (!getenv("SIM_TRAP")) {
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = OnSignal;
      sa.sa_flags = SA_SIGINFO | SA_NODEFER;
      sigaction(sig, &sa, nullptr);
    }
  }
  signal(SIGPIPE, SIG_IGN);
  setenv("TZ", "UTC", 1);
  tzset();
  // Per-run configuration of the scheduler.
  g_now_ns = 1000000000ull * (1 + DoChoose(kConf, 100000));
  g_wall_off_ns = 1600000000ull * 1000000000ull;
  if (g_spec.phase) {  // The host has kept running while the process was down.
    g_now_ns += g_res->carry_now_ns;
    g_wall_off_ns = g_res->carry_wall_off_ns;
  }
  g_start_ns = g_now_ns;
  static const uint64_t kTicks[] = {200, 1000, 50, 5000, 20000};
  g_tick_ns = kTicks[DoChoose(kConf, 5)];
  static const double kGaps[] = {60, 15, 30, 120, 300, 1000, 4000, 20000};
  g_gap_mean = kGaps[DoChoose(kConf, 8)];
  g_mode = DoChoose(kConf, 4) == 1 ? 1 : 0;
  if (g_mode == 1) g_gap_mean *= 4;
  static const uint8_t kFills[] = {0xA5, 0x00, 0xFF, 0x01, 0x7F};
  g_fill = kFills[DoChoose(kConf, 5)];
  // Every run starts from the same heap, whatever the driver did before: a fixed top, and no free lists.
  memset(g_free, 0, sizeof g_free);
  g_heap_top = kHeapBase + (size_t(1) << 30);
  g_steps = 0;
  g_fn = fn;
  g_rt = 1;
  Thread* t = Spawn(ScenarioMain, nullptr);
  g_cur = t;
  NewGap(t);
  g_active = true;
  t->go = 1;
  FutexWake(&t->go);
  for (;;) pause();
}

}  // namespace sim
