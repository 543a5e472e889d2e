// Deterministic simulator: the driver.  Explores seeds with a pool of worker processes; every run is a fresh process.
// A violation is re-run from its seed, minimised, written to a replay file, and replayed from fresh processes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "sim_internal.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace sim;

namespace {
struct Reg { const char* property; Scenario s; };
std::vector<Reg>& Regs() { static std::vector<Reg>* v = new std::vector<Reg>(); return *v; }

double RealNow() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
uint64_t Mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
  return x;
}

std::string g_property, g_only_scenario;
std::vector<Scenario> g_scenarios;
double g_total_weight = 0;

const Scenario* PickScenario(uint64_t seed) {
  double u = (Mix64(seed ^ 0x5ce7a110) >> 11) * (1.0 / 9007199254740992.0) * g_total_weight;
  for (const Scenario& s : g_scenarios) { if (u < s.weight) return &s; u -= s.weight; }
  return &g_scenarios.back();
}

void RemoveTree(const char* path) {
  struct stat st;
  if (lstat(path, &st)) return;
  if (S_ISDIR(st.st_mode)) {
    DIR* d = opendir(path);
    if (d) {
      while (struct dirent* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        RemoveTree((std::string(path) + "/" + e->d_name).c_str());
      }
      closedir(d);
    }
    rmdir(path);
  } else {
    unlink(path);
  }
}

std::string g_base_dir;
void MakeBase() {
  for (const char* root : {"/dev/shm", "/tmp", "."}) {
    std::string t = std::string(root) + "/c5tsim.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data())) { g_base_dir = b.data(); return; }
  }
  fprintf(stderr, "sim: no scratch directory\n");
  _exit(97);
}

template <typename T> T* Shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
  return static_cast<T*>(p);
}

constexpr size_t kSet = 1 << 22;
struct HashSet {
  uint64_t n, slots[kSet];
  void Add(uint64_t h) {
    if (!h) h = 1;
    if (n > kSet / 2) return;
    for (size_t i = h % kSet;; i = (i + 1) % kSet) {
      uint64_t cur = __atomic_load_n(&slots[i], __ATOMIC_RELAXED);
      if (cur == h) return;
      if (!cur) {
        uint64_t z = 0;
        if (__atomic_compare_exchange_n(&slots[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED); return; }
        if (z == h) return;
      }
    }
  }
};

struct Stats {
  uint64_t next_index, runs, nontrivial, phases, crashes, steps, switches, sim_us, threads, fired[kFNum], faulted_runs, rerun_checked, stop;
  uint64_t scenario_runs[64];
  struct { char name[40]; uint64_t n; } counters[128];
  int lock;
  int have_violation;  // 1: yes.  2: harness error.
  uint64_t v_seed, v_hash;
  char v_scenario[64], v_kind[64], v_message[2000];
  uint64_t known_hits[64];
  struct { uint64_t seed, steps, switches, hash, sim_us, choices; char scenario[48]; int lives; } samples[8];
  HashSet sched, cover;
};
Stats* g_stats;

// Runs one simulated history (all of its phases) in child processes of this one.  Returns false on a real-time hang or a harness problem.
struct Outcome { bool ok = false; int phases = 0; int wstatus = 0; bool hang = false; };
Outcome RunOnce(SharedResult* res, const Scenario& s, uint64_t seed, const std::vector<Entry>* replay, double limit_s) {
  Outcome o;
  size_t head = offsetof(SharedResult, entries);
  memset(static_cast<void*>(res), 0, head);
  res->hash = 88172645463325252ull;
  RemoveTree("rundir");
  mkdir("rundir", 0755);
  for (int phase = 0; phase < s.max_phases; ++phase) {
    res->status = kStNone;
    ++o.phases;
    g_res = res;
    g_spec.seed = seed;
    g_spec.phase = phase;
    g_spec.max_phases = s.max_phases;
    g_spec.replay = replay != nullptr;
    g_spec.entries = replay ? replay->data() : nullptr;
    g_spec.n_entries = replay ? replay->size() : 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return o; }
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGALRM, SIG_DFL);
      signal(SIGTERM, SIG_DFL);
      signal(SIGINT, SIG_DFL);
      struct itimerval it;
      memset(&it, 0, sizeof it);
      it.it_value.tv_sec = static_cast<long>(limit_s) + 1;
      setitimer(ITIMER_REAL, &it, nullptr);
      if (!g_verbose) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1);
        dup2(fd, 2);
        dup2(fd, 0);
        if (fd > 2) close(fd);
      }
      RunInThisProcess(s.fn);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    o.wstatus = st;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.hang = true; return o; }
    if (res->status == kStCrashed && phase + 1 < s.max_phases) continue;
    o.ok = res->status == kStPass || res->status == kStFail;
    return o;
  }
  return o;
}

bool IsHarnessKind(const char* k) { return !strncmp(k, "harness-", 8); }

struct Known { std::string scenario, kind, match, text; };
std::vector<Known> g_known;
void LoadKnown(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) return;
  char line[4000];
  while (fgets(line, sizeof line, f)) {
    // finding: property=<id> scenario=<s> kind=<k> match=<substring without blanks> <text>
    char prop[64], sc[64], kind[64], match[200];
    int off = 0;
    if (sscanf(line, "finding: property=%63s scenario=%63s kind=%63s match=%199s %n", prop, sc, kind, match, &off) >= 4 && g_property == prop) {
      std::string text = line + off;
      while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back();
      g_known.push_back({sc, kind, match, text});
    }
  }
  fclose(f);
}
int MatchKnown(const char* scenario, const char* kind, const char* message) {
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i].scenario == scenario && g_known[i].kind == kind && strstr(message, g_known[i].match.c_str())) return static_cast<int>(i);
  return -1;
}

void Lock() { while (__atomic_exchange_n(&g_stats->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void Unlock() { __atomic_store_n(&g_stats->lock, 0, __ATOMIC_RELEASE); }

void ReportViolation(int what, uint64_t seed, const char* scenario, const char* kind, const char* msg, uint64_t hash) {
  Lock();
  if (!g_stats->have_violation || (g_stats->have_violation == 2 && what == 1)) {
    g_stats->have_violation = what;
    g_stats->v_seed = seed;
    g_stats->v_hash = hash;
    snprintf(g_stats->v_scenario, sizeof g_stats->v_scenario, "%s", scenario);
    snprintf(g_stats->v_kind, sizeof g_stats->v_kind, "%s", kind);
    snprintf(g_stats->v_message, sizeof g_stats->v_message, "%s", msg);
  }
  g_stats->stop = 1;
  Unlock();
}

void Pin(int w) {
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all);
  if (n <= 0) return;
  int want = w % n;
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &all) && want-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); return; }
}

void EnterDir(const std::string& name) {
  std::string d = g_base_dir + "/" + name;
  mkdir(d.c_str(), 0755);
  if (chdir(d.c_str())) { perror("chdir"); _exit(97); }
}

double g_hang_s = 60;
bool g_check_replay = false;

void Worker(int w, uint64_t base_seed, double deadline, uint64_t max_runs) {
  Pin(w);
  EnterDir("w" + std::to_string(w));
  SharedResult* res = Shared<SharedResult>();
  while (!__atomic_load_n(&g_stats->stop, __ATOMIC_RELAXED) && RealNow() < deadline) {
    uint64_t i = __atomic_fetch_add(&g_stats->next_index, 1, __ATOMIC_RELAXED);
    if (max_runs && i >= max_runs) break;
    uint64_t seed = Mix64(base_seed * 0x100000001b3ull + i);
    const Scenario* s = PickScenario(seed);
    Outcome o = RunOnce(res, *s, seed, nullptr, g_hang_s);
    if (!o.ok) {
      char b[300];
      snprintf(b, sizeof b, "the run process ended without a result (%s, wait status %d, phase %d)", o.hang ? "real-time hang" : "died", o.wstatus, o.phases - 1);
      if (o.hang) {
        o = RunOnce(res, *s, seed, nullptr, g_hang_s * 3);
      }
      if (!o.ok) { ReportViolation(2, seed, s->name, "harness-no-result", b, 0); break; }
    }
    if (res->status == kStFail) {
      int k = MatchKnown(s->name, res->kind, res->message);
      if (k >= 0 && k < 64) {
        __atomic_fetch_add(&g_stats->known_hits[k], 1, __ATOMIC_RELAXED);
      } else {
        ReportViolation(IsHarnessKind(res->kind) ? 2 : 1, seed, s->name, res->kind, res->message, res->hash);
        break;
      }
    }
    uint64_t hash = res->hash;
    uint64_t nf = 0;
    for (int f = 0; f < kFNum; ++f) nf += res->fired[f];
    Lock();
    Stats& st = *g_stats;
    if (i < 8) {
      auto& x = st.samples[i];
      x.seed = seed; x.steps = res->steps; x.switches = res->switches; x.hash = hash; x.sim_us = res->sim_us; x.choices = res->n_entries; x.lives = o.phases;
      snprintf(x.scenario, sizeof x.scenario, "%s", s->name);
    }
    ++st.runs;
    st.phases += o.phases;
    st.crashes += o.phases - 1;
    st.steps += res->steps;
    st.switches += res->switches;
    st.sim_us += res->sim_us;
    if (res->threads > st.threads) st.threads = res->threads;
    st.faulted_runs += nf != 0;
    for (int f = 0; f < kFNum; ++f) st.fired[f] += res->fired[f];
    for (size_t k = 0; k < g_scenarios.size() && k < 64; ++k) if (g_scenarios[k].fn == s->fn) ++st.scenario_runs[k];
    for (auto& c : res->counters) {
      if (!c.name[0]) break;
      for (auto& d : st.counters) {
        if (!d.name[0]) memcpy(d.name, c.name, sizeof d.name);
        if (!strncmp(d.name, c.name, sizeof d.name)) { d.n += c.n; break; }
      }
    }
    Unlock();
    st.sched.Add(res->switches ? res->sched_hash : res->hash);  // See the "rule" in the evidence.
    for (uint64_t c = 0; c < res->n_cover; ++c) st.cover.Add(res->cover[c]);
    // Determinism, proven as we go: some of the seeds are run twice.
    if (i % 64 < 2) {
      bool had_fail = res->status == kStFail;
      Outcome o2 = RunOnce(res, *s, seed, nullptr, g_hang_s);
      if (!o2.ok || res->hash != hash || (res->status == kStFail) != had_fail) {
        char b[200];
        snprintf(b, sizeof b, "seed %llu gave two different executions (%016llx, %016llx)", (unsigned long long)seed, (unsigned long long)hash, (unsigned long long)res->hash);
        ReportViolation(2, seed, s->name, "harness-nondeterminism", b, hash);
        break;
      }
      __atomic_fetch_add(&g_stats->rerun_checked, 1, __ATOMIC_RELAXED);
      if (g_check_replay && !res->entries_overflow) {  // For testing the simulator: the recorded choices must give the very same execution.
        const std::vector<Entry> e(res->entries, res->entries + res->n_entries);
        std::vector<Entry> sorted = e;
        std::sort(sorted.begin(), sorted.end(), [](const Entry& a, const Entry& b) { return a.key < b.key; });
        o2 = RunOnce(res, *s, seed, &sorted, g_hang_s);
        if (!o2.ok || res->hash != hash) {
          char b[200];
          snprintf(b, sizeof b, "seed %llu is not reproduced by its recorded choices (%016llx, %016llx)", (unsigned long long)seed, (unsigned long long)hash, (unsigned long long)res->hash);
          ReportViolation(2, seed, s->name, "harness-replay", b, hash);
          break;
        }
      }
    }
  }
  if (chdir("/")) {}
  _exit(0);
}

// ---- Minimisation --------------------------------------------------------------------------------------------------
constexpr int kMaxPar = 16;
int g_jobs = 8;
struct EvalSlot { SharedResult* res; int* verdict; };
std::vector<EvalSlot> g_slots;

// Returns, per candidate, 1 if it fails with the same kind.
std::vector<int> EvalBatch(const Scenario& s, const std::vector<std::vector<Entry>>& cands, const std::string& kind) {
  std::vector<pid_t> pids;
  for (size_t i = 0; i < cands.size(); ++i) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Pin(static_cast<int>(i));
      EnterDir("m" + std::to_string(i));
      Outcome o = RunOnce(g_slots[i].res, s, 0, &cands[i], 20);
      *g_slots[i].verdict = o.ok && g_slots[i].res->status == kStFail && kind == g_slots[i].res->kind;
      _exit(0);
    }
    pids.push_back(pid);
  }
  std::vector<int> out;
  for (size_t i = 0; i < cands.size(); ++i) {
    int st;
    while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
    out.push_back(WIFEXITED(st) && WEXITSTATUS(st) == 0 ? *g_slots[i].verdict : 0);
  }
  return out;
}

std::vector<Entry> EntriesOf(SharedResult* r) {
  std::vector<Entry> e(r->entries, r->entries + r->n_entries);
  std::sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.key < b.key; });
  return e;
}

std::vector<Entry> Minimise(const Scenario& s, std::vector<Entry> cur, const std::string& kind, double deadline, size_t* evals) {
  g_slots.clear();
  for (int i = 0; i < g_jobs; ++i) g_slots.push_back({Shared<SharedResult>(), Shared<int>()});
  // Whole streams first, in the order of how little we want to see them in a counterexample.
  for (int stream : {int(kStallAt), int(kLeapAt), int(kTime), int(kNet), int(kFault), int(kCrashAt), int(kPick), int(kPreempt), int(kConf), int(kPrio), int(kWork)}) {
    for (int phase = 0; phase < s.max_phases && RealNow() < deadline; ++phase) {
      std::vector<Entry> c;
      for (auto& e : cur) if (KeyStream(e.key) != stream || KeyPhase(e.key) != phase) c.push_back(e);
      if (c.size() == cur.size()) continue;
      ++*evals;
      if (EvalBatch(s, {c}, kind)[0]) cur = c;
    }
  }
  size_t chunk = std::max<size_t>(1, cur.size() / 2);
  bool progress = true;
  while (RealNow() < deadline && !cur.empty()) {
    progress = false;
    size_t pos = 0;
    while (pos < cur.size() && RealNow() < deadline) {
      std::vector<std::vector<Entry>> cands;
      std::vector<size_t> at;
      for (int i = 0; i < g_jobs && pos + i * chunk < cur.size(); ++i) {
        size_t b = pos + i * chunk, e = std::min(cur.size(), b + chunk);
        std::vector<Entry> c(cur.begin(), cur.begin() + b);
        c.insert(c.end(), cur.begin() + e, cur.end());
        cands.push_back(c);
        at.push_back(b);
      }
      *evals += cands.size();
      std::vector<int> v = EvalBatch(s, cands, kind);
      size_t hit = v.size();
      for (size_t i = 0; i < v.size(); ++i) if (v[i]) { hit = i; break; }
      if (hit < v.size()) {
        // Several candidates may be removable at once: try all of those that worked together first.
        std::vector<Entry> all;
        size_t removed = 0;
        for (size_t k = 0; k < cur.size(); ++k) {
          bool drop = false;
          for (size_t i = 0; i < v.size(); ++i) if (v[i] && k >= at[i] && k < at[i] + chunk) drop = true;
          if (!drop) all.push_back(cur[k]); else ++removed;
        }
        ++*evals;
        if (removed > chunk && EvalBatch(s, {all}, kind)[0]) { cur = all; pos = at[0]; }
        else { cur = cands[hit]; pos = at[hit]; }
        progress = true;
      } else {
        pos += chunk * v.size();
      }
    }
    if (chunk == 1) { if (!progress) break; }
    else chunk = std::max<size_t>(1, chunk / 2);
  }
  return cur;
}

bool WriteReplay(const std::string& path, const Scenario& s, uint64_t seed, const char* kind, const char* message, uint64_t hash, const std::vector<Entry>& e, bool by_seed = false) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  std::string m = message;
  for (char& c : m) if (c == '\n') c = ' ';
  fprintf(f, "sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nkind %s\nhash %016llx\nmessage %s\nentries %zu\n", g_property.c_str(), s.name, (unsigned long long)seed, kind,
          (unsigned long long)hash, m.c_str(), e.size());
  if (by_seed) fprintf(f, "# by seed: too many choices to list\n");
  fprintf(f, "# life stream thread position value\n");
  for (auto& x : e) fprintf(f, "%d %s %d %u %u\n", KeyPhase(x.key), kStreamNames[KeyStream(x.key)], KeyThread(x.key), KeyPosition(x.key), x.raw);
  return !fclose(f);
}
struct Replay { std::string property, scenario, kind, message; uint64_t seed = 0, hash = 0; std::vector<Entry> entries; bool by_seed = false; };
bool ReadReplay(const char* path, Replay* r) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char line[4000];
  size_t n = 0;
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    char a[3000];
    unsigned long long u;
    if (!strncmp(line, "# by seed", 9)) r->by_seed = true;
    else if (in) {
      int ph, tid;
      unsigned raw, pos;
      char nm[32];
      if (sscanf(line, "%d %31s %d %u %u", &ph, nm, &tid, &pos, &raw) == 5)
        for (int i = 0; i < kNumStreams; ++i) if (!strcmp(nm, kStreamNames[i])) r->entries.push_back({EntryKey(ph, i, tid, pos), raw, 0});
    } else if (sscanf(line, "property %100s", a) == 1) r->property = a;
    else if (sscanf(line, "scenario %100s", a) == 1) r->scenario = a;
    else if (sscanf(line, "seed %llu", &u) == 1) r->seed = u;
    else if (sscanf(line, "kind %100s", a) == 1) r->kind = a;
    else if (sscanf(line, "hash %llx", &u) == 1) r->hash = u;
    else if (sscanf(line, "message %2999[^\n]", a) == 1) r->message = a;
    else if (sscanf(line, "entries %zu", &n) == 1) in = true;
  }
  fclose(f);
  std::sort(r->entries.begin(), r->entries.end(), [](const Entry& a, const Entry& b) { return a.key < b.key; });
  return in && r->entries.size() == n;
}

std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

char g_self[4096];
char g_real_components[8000] = "", g_stub_components[8000] = "", g_assumptions[8000] = "";

void CleanupBase() {
  if (!g_base_dir.empty()) { if (chdir("/")) {} RemoveTree(g_base_dir.c_str()); }
}
void OnTerm(int) { CleanupBase(); _exit(96); }

}  // namespace

namespace sim {
void Register(const char* property, const Scenario& s) { Regs().push_back({property, s}); }
}

int main(int argc, char** argv) {
  // A fixed layout for the shared libraries too, where it is allowed.
  if (!getenv("SIM_NO_PERSONALITY")) {
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_PERSONALITY", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  ssize_t sl = readlink("/proc/self/exe", g_self, sizeof g_self - 1);
  if (sl > 0) g_self[sl] = 0;
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k.substr(0, 2) == "--") {
      if (i + 1 < argc && std::string(argv[i + 1]).substr(0, 2) != "--") { a[k.substr(2)] = argv[i + 1]; ++i; }
      else a[k.substr(2)] = "1";
    }
  }
  g_verbose = a.count("verbose");
  if (a.count("stop-at-us")) g_debug_stop_us = strtoull(a["stop-at-us"].c_str(), nullptr, 10);
  g_property = a["property"];
  g_only_scenario = a["scenario"];
  Replay rp;
  if (a.count("replay")) {
    if (!ReadReplay(a["replay"].c_str(), &rp)) { fprintf(stderr, "can not read the replay file\n"); return 2; }
    g_property = rp.property;
    g_only_scenario = rp.scenario;
  }
  for (auto& r : Regs())
    if (g_property == r.property && (g_only_scenario.empty() || g_only_scenario == r.s.name)) { g_scenarios.push_back(r.s); g_total_weight += r.s.weight; }
  if (g_scenarios.empty()) { fprintf(stderr, "no scenario for the property '%s'\n", g_property.c_str()); return 2; }
  if (a.count("jobs")) g_jobs = atoi(a["jobs"].c_str());
  else { g_jobs = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN)); }
  if (g_jobs < 1) g_jobs = 1;
  if (g_jobs > kMaxPar) g_jobs = kMaxPar;
  MakeBase();
  signal(SIGTERM, OnTerm);
  signal(SIGINT, OnTerm);

  if (a.count("replay") || a.count("one")) {
    EnterDir("one");
    SharedResult* res = Shared<SharedResult>();
    uint64_t seed = a.count("one") ? strtoull(a["one"].c_str(), nullptr, 10) : rp.seed;
    const Scenario* s = a.count("one") ? PickScenario(seed) : &g_scenarios[0];
    Outcome o = RunOnce(res, *s, seed, a.count("replay") && !rp.by_seed ? &rp.entries : nullptr, 300);
    int rc = 0;
    if (!o.ok) { printf("no result (%s, wait status %d)\n", o.hang ? "hang" : "died", o.wstatus); rc = 2; }
    else {
      printf("%s scenario=%s kind=%s hash=%016llx phases=%d steps=%llu switches=%llu sim_s=%.3f entries=%llu threads=%llu\n", res->status == kStFail ? "FAIL" : "PASS", s->name,
             res->kind[0] ? res->kind : "-", (unsigned long long)res->hash, o.phases, (unsigned long long)res->steps, (unsigned long long)res->switches, res->sim_us * 1e-6,
             (unsigned long long)res->n_entries, (unsigned long long)res->threads);
      for (auto& c : res->counters) if (c.name[0]) printf("  %s=%llu\n", c.name, (unsigned long long)c.n);
      for (int f = 0; f < kFNum; ++f) if (res->fired[f]) printf("  fault %s=%llu\n", kFaultNames[f], (unsigned long long)res->fired[f]);
      if (a.count("record")) WriteReplay(a["record"], *s, seed, res->kind, res->message, res->hash, EntriesOf(res));
      if (res->status == kStFail) {
        printf("%s\n", res->message);
        rc = 1;
        if (a.count("replay")) {
          if (rp.kind != res->kind || rp.hash != res->hash) { printf("NOT the recorded execution (expected kind=%s hash=%016llx)\n", rp.kind.c_str(), (unsigned long long)rp.hash); rc = 3; }
          else printf("VIOLATION property=%s replay=%s\n", g_property.c_str(), a["replay"].c_str());
        }
      }
    }
    fflush(stdout);
    CleanupBase();
    _exit(rc);
  }

  g_check_replay = a.count("check-replay");
  if (a.count("known")) LoadKnown(a["known"].c_str());
  double t0 = RealNow();
  double budget = a.count("time") ? atof(a["time"].c_str()) : 20;
  uint64_t base_seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
  uint64_t max_runs = a.count("runs") ? strtoull(a["runs"].c_str(), nullptr, 10) : 0;
  std::string tier = a.count("tier") ? a["tier"] : "quick";
  g_stats = Shared<Stats>();
  double deadline = t0 + budget;
  std::vector<pid_t> pids;
  for (int w = 0; w < g_jobs; ++w) {
    pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); Worker(w, base_seed, deadline, max_runs); }
    pids.push_back(pid);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double explored_s = RealNow() - t0;
  Stats& st = *g_stats;

  int rc = 0;
  std::string violation_line;
  std::string vj = "[]";
  if (st.have_violation == 2) {
    fprintf(stderr, "HARNESS ERROR: scenario=%s seed=%llu %s: %s\n", st.v_scenario, (unsigned long long)st.v_seed, st.v_kind, st.v_message);
    rc = 2;
  } else if (st.have_violation == 1) {
    const Scenario* s = nullptr;
    for (auto& x : g_scenarios) if (!strcmp(x.name, st.v_scenario)) s = &x;
    fprintf(stderr, "violation found: scenario=%s seed=%llu kind=%s after %llu runs, %.1f s: %s\n", s->name, (unsigned long long)st.v_seed, st.v_kind, (unsigned long long)st.runs, explored_s, st.v_message);
    std::string cwd0;
    { char b[4096]; if (getcwd(b, sizeof b)) cwd0 = b; }
    std::string dir = a.count("replay-dir") ? a["replay-dir"] : cwd0 + "/replays";
    mkdir(dir.c_str(), 0755);
    if (dir[0] != '/') dir = cwd0 + "/" + dir;
    SharedResult* res = Shared<SharedResult>();
    std::string kind = st.v_kind;
    EnterDir("again");
    Outcome o = RunOnce(res, *s, st.v_seed, nullptr, g_hang_s * 3);
    if (!o.ok || res->status != kStFail || kind != res->kind || res->hash != st.v_hash) {
      fprintf(stderr, "HARNESS ERROR: the violation did not reproduce from its seed (%s, %s)\n", o.ok ? res->kind : "no result", res->message);
      rc = 2;
    } else {
      std::vector<Entry> all = EntriesOf(res);
      size_t evals = 0;
      bool by_seed = false;
      if (res->entries_overflow) {
        // Too many choices to list all of them. Either the listed ones are sufficient, or it is to be replayed from the seed.
        EnterDir("again");
        o = RunOnce(res, *s, st.v_seed, &all, g_hang_s * 3);
        by_seed = !o.ok || res->status != kStFail || kind != res->kind;
        if (by_seed) all.clear();
      }
      std::vector<Entry> min = by_seed ? all : Minimise(*s, all, kind, RealNow() + (a.count("minimise-time") ? atof(a["minimise-time"].c_str()) : 20), &evals);
      EnterDir("again");
      o = RunOnce(res, *s, st.v_seed, by_seed ? nullptr : &min, by_seed ? g_hang_s * 3 : g_hang_s);
      if (by_seed) {
      } else if (!o.ok || res->status != kStFail || kind != res->kind) {
        // Keep the recorded one.
        min = all;
        o = RunOnce(res, *s, st.v_seed, &min, g_hang_s * 3);
        if (!o.ok || res->status != kStFail || kind != res->kind) {
          // The recorded choices do not lead there; the seed does.
          by_seed = true;
          all.clear();
          min.clear();
          o = RunOnce(res, *s, st.v_seed, nullptr, g_hang_s * 3);
        }
      }
      std::string path = dir + "/" + g_property + "-" + s->name + "-" + std::to_string(st.v_seed) + ".replay";
      bool same = o.ok && res->status == kStFail && kind == res->kind;
      std::string message = res->message;
      if (same) same = WriteReplay(path, *s, st.v_seed, res->kind, res->message, res->hash, min, by_seed);
      for (int i = 0; i < 2 && same; ++i) {
        pid_t pid = fork();
        if (pid == 0) {
          int fd = open("/dev/null", O_RDWR);
          dup2(fd, 1);
          execl(g_self, g_self, "--replay", path.c_str(), nullptr);
          _exit(99);
        }
        int ws;
        while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
        same = WIFEXITED(ws) && WEXITSTATUS(ws) == 1;
      }
      if (!same) {
        fprintf(stderr, "HARNESS ERROR: the replay file does not reproduce the violation\n");
        rc = 2;
      } else {
        fprintf(stderr, "minimised: %zu -> %zu choices, %zu executions tried\n%s: %s\n", all.size(), min.size(), evals, kind.c_str(), message.c_str());
        violation_line = "VIOLATION property=" + g_property + " replay=" + path;
        vj = "[{\"kind\": \"" + JsonEsc(kind) + "\", \"scenario\": \"" + s->name + "\", \"seed\": \"" + std::to_string(st.v_seed) + "\", \"choices_recorded\": " + std::to_string(all.size()) +
             ", \"choices_minimised\": " + std::to_string(min.size()) + ", \"replay\": \"" + JsonEsc(path) + "\", \"message\": \"" + JsonEsc(message) + "\"}]";
        rc = 1;
      }
    }
  }
  for (size_t i = 0; i < g_known.size(); ++i)
    if (i < 64 && st.known_hits[i]) printf("KNOWN-FINDING: property=%s %s\n", g_property.c_str(), g_known[i].text.c_str());

  double wall = RealNow() - t0;
  if (a.count("evidence")) {
    FILE* f = fopen(a["evidence"].c_str(), "w");
    if (!f) { perror("evidence"); rc = 2; }
    else {
      double compile_s = a.count("compile-s") ? atof(a["compile-s"].c_str()) : 0;
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", g_property.c_str(), tier.c_str(), (unsigned long long)base_seed,
              a.count("level") ? a["level"].c_str() : "exploration");
      fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)st.runs, (unsigned long long)st.sched.n);
      fprintf(f, "  \"rule\": \"%s\",\n", "one evaluation is one whole simulated history, decided by one seed; histories count as distinct when the hash of their sequence of (scheduling point, thread switched from, thread switched to) differs, or, for the histories where there is nothing to switch between, the hash of their system calls, with the results of them, and of what the scenario logged");
      fprintf(f, "  \"samples\": [");
      int k = 0;
      for (auto& x : st.samples)
        if (x.scenario[0])
          fprintf(f, "%s\n   {\"seed\": \"%llu\", \"scenario\": \"%s\", \"lives\": %d, \"choices_off_default\": %llu, \"scheduling_points\": %llu, \"context_switches\": %llu, \"simulated_us\": %llu, \"run_hash\": \"%016llx\"}", k++ ? "," : "",
                  (unsigned long long)x.seed, x.scenario, x.lives, (unsigned long long)x.choices, (unsigned long long)x.steps, (unsigned long long)x.switches, (unsigned long long)x.sim_us, (unsigned long long)x.hash);
      fprintf(f, "],\n  \"additional\": {\n");
      fprintf(f, "   \"seeds_per_hour\": %.0f,\n", explored_s > 0 ? st.runs * 3600.0 / explored_s : 0.0);
      fprintf(f, "   \"simulated_seconds\": %.3f,\n   \"real_seconds_exploring\": %.3f,\n   \"compile_seconds\": %.1f,\n", st.sim_us * 1e-6, explored_s, compile_s);
      fprintf(f, "   \"scheduling_points_executed\": %llu,\n   \"context_switches\": %llu,\n   \"max_threads_in_a_run\": %llu,\n", (unsigned long long)st.steps, (unsigned long long)st.switches, (unsigned long long)st.threads);
      fprintf(f, "   \"process_lives\": %llu,\n   \"process_crashes\": %llu,\n   \"runs_with_a_fault\": %llu,\n   \"runs_without_a_fault\": %llu,\n", (unsigned long long)st.phases, (unsigned long long)st.crashes,
              (unsigned long long)st.faulted_runs, (unsigned long long)(st.runs - st.faulted_runs));
      fprintf(f, "   \"distinct_states\": %llu,\n   \"states_measure\": \"distinct values of the abstract outcome vector the scenario reports at the end of its steps\",\n", (unsigned long long)st.cover.n);
      fprintf(f, "   \"seeds_run_twice_and_found_identical\": %llu,\n", (unsigned long long)st.rerun_checked);
      fprintf(f, "   \"faults_injected\": {");
      k = 0;
      for (int i = 0; i < kFNum; ++i) if (st.fired[i]) fprintf(f, "%s\"%s\": %llu", k++ ? ", " : "", kFaultNames[i], (unsigned long long)st.fired[i]);
      fprintf(f, "},\n   \"runs_per_scenario\": {");
      k = 0;
      for (size_t i = 0; i < g_scenarios.size() && i < 64; ++i) fprintf(f, "%s\"%s\": %llu", k++ ? ", " : "", g_scenarios[i].name, (unsigned long long)st.scenario_runs[i]);
      fprintf(f, "},\n   \"observations\": {");
      k = 0;
      for (auto& c : st.counters) if (c.name[0]) fprintf(f, "%s\"%s\": %llu", k++ ? ", " : "", c.name, (unsigned long long)c.n);
      fprintf(f, "},\n   \"real_code\": \"%s\",\n   \"stubbed\": \"%s\"\n  }\n },\n", JsonEsc(a["real"]).c_str(),
              "kernel scheduler, pthread primitives, clocks and timers, the TCP stack, the allocator, entropy (all simulated); file system calls run on a real tmpfs directory behind the fault-injecting seam");
      fprintf(f, " \"assumptions\": [\"sequentially consistent memory: relaxed-atomics reorderings are not explored\", \"preemption is possible before every memory access and atomic operation of instrumented code, and at every call into pthreads, clocks, sockets and files; the precompiled C++ and C libraries run without preemption between those\", \"a crash preserves what write(2) has accepted, with at most one torn write; loss of the page cache is not modelled, as the code does not call fsync\"],\n");
      fprintf(f, " \"wall_s\": %.3f,\n \"violations\": %d,\n \"violation_details\": %s\n}\n", wall + compile_s, vj == "[]" ? 0 : 1, vj.c_str());
      fclose(f);
    }
  }
  printf("%s %s: %llu runs (%llu lives), %llu distinct interleavings, %llu states, %.1f simulated s, %.1f real s, faulted runs %llu\n", g_property.c_str(), tier.c_str(), (unsigned long long)st.runs,
         (unsigned long long)st.phases, (unsigned long long)st.sched.n, (unsigned long long)st.cover.n, st.sim_us * 1e-6, wall, (unsigned long long)st.faulted_runs);
  if (!violation_line.empty()) printf("%s\n", violation_line.c_str());
  fflush(stdout);
  CleanupBase();
  _exit(rc);
}
