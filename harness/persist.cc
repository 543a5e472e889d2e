// P01, P02, P03: the persistence layer.
#include "common.h"
#include "/repo/blocks/persistence/file.h"
#include "/repo/blocks/persistence/memory.h"

using namespace current;
using current::persistence::File;
using current::persistence::Memory;

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(id, uint64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(Rec)(uint64_t id = 0, std::string s = "") : id(id), s(std::move(s)) {}
};

namespace {
using std::chrono::microseconds;
const ss::StreamNamespaceName kNs("Sim", "Rec");
size_t Len() {
  switch (sim::W(32)) {
    default: return sim::W(40);
    case 27: case 28: case 29: return sim::W(600);
    case 30: return 8100 + sim::W(200);  // Around the size of the buffer of a stream.
    case 31: return sim::W(30000);
  }
}
struct Seen { uint64_t index; int64_t us; uint64_t id; std::string s; };
template <typename P> std::vector<Seen> ReadAll(P& p) {
  std::vector<Seen> v;
  for (const auto& e : p.Iterate()) v.push_back({e.idx_ts.index, e.idx_ts.us.count(), e.entry.id, e.entry.s});
  return v;
}
template <typename P> std::vector<Seen> ReadAllUnsafe(P& p) {
  std::vector<Seen> v;
  for (const auto& l : p.IterateUnsafe()) {
    const size_t tab = l.find('\t');
    SIM_CHECK(tab != std::string::npos, "bad-line", "a raw line without a tab");
    const auto i = ParseJSON<idxts_t>(l.substr(0, tab));
    const auto r = ParseJSON<Rec>(l.substr(tab + 1));
    v.push_back({i.index, i.us.count(), r.id, r.s});
  }
  return v;
}
void Same(const Seen& a, uint64_t index, const Seen& b, const char* what) {
  SIM_CHECK(a.index == index && a.us == b.us && a.id == b.id && a.s == b.s, "wrong-entry",
            "%s: at %llu, expected id %llu us %lld (%zu bytes), got index %llu id %llu us %lld (%zu bytes)", what, (unsigned long long)index, (unsigned long long)b.id,
            (long long)b.us, b.s.size(), (unsigned long long)a.index, (unsigned long long)a.id, (long long)a.us, a.s.size());
}

// ---- P01 -----------------------------------------------------------------------------------------------------------
// The observer's notebook: `I <id> <len>` before a publish, `A <id> <index> <us>` right after it has returned, `H <us>`
// after a head update has returned, `O <id> <index> <us>` for what a restart has seen (and which must stay).
struct Ledger {
  std::map<uint64_t, uint64_t> len;                 // By ID.
  std::map<uint64_t, std::pair<uint64_t, int64_t>> durable;  // Index -> (id, us).
  int64_t head = -1;
  std::set<int64_t> handed_in = {-1};  // The timestamps and the heads handed in explicitly.
  Ledger() {
    for (const auto& r : sim::History()) {
      unsigned long long a, b;
      long long c;
      if (sscanf(r.c_str(), "I %llu %llu", &a, &b) == 2) len[a] = b;
      else if (sscanf(r.c_str(), "A %llu %llu %lld", &a, &b, &c) == 3) { durable[b] = {a, c}; head = std::max<int64_t>(head, c); }
      else if (sscanf(r.c_str(), "O %llu %llu %lld", &a, &b, &c) == 3) { durable[b] = {a, c}; head = std::max<int64_t>(head, c); }
      else if (sscanf(r.c_str(), "H %lld", &c) == 1) head = std::max<int64_t>(head, c);
      else if (sscanf(r.c_str(), "U %lld", &c) == 1) handed_in.insert(c);
    }
  }
};
std::string Str(const char* fmt, unsigned long long a, unsigned long long b = 0, long long c = 0) {
  char x[128];
  snprintf(x, sizeof x, fmt, a, b, c);
  return x;
}

template <typename P> void CheckAgainstLedger(P& p, const Ledger& l, const char* what, bool explicit_timestamps) {
  std::vector<Seen> v = ReadAll(p);
  std::vector<Seen> u = ReadAllUnsafe(p);
  SIM_CHECK(v.size() == p.Size() && u.size() == v.size(), "size", "%s: %zu entries, %zu raw lines, Size() = %llu", what, v.size(), u.size(), (unsigned long long)p.Size());
  int64_t prev = -1;
  std::set<uint64_t> ids;
  for (size_t i = 0; i < v.size(); ++i) {
    SIM_CHECK(v[i].index == i && v[i].us > prev, "order", "%s: position %zu has the index %llu and the timestamp %lld after %lld", what, i, (unsigned long long)v[i].index, (long long)v[i].us, (long long)prev);
    prev = v[i].us;
    Same(u[i], i, v[i], "raw iteration vs iteration");
    auto it = l.len.find(v[i].id);
    SIM_CHECK(it != l.len.end(), "invented", "%s: entry %zu has an ID nobody has published, %llu", what, i, (unsigned long long)v[i].id);
    SIM_CHECK(v[i].s == h::Payload(v[i].id, it->second), "corrupted", "%s: entry %zu (id %llu) does not have the contents it was published with: %zu bytes vs %llu", what, i,
              (unsigned long long)v[i].id, v[i].s.size(), (unsigned long long)it->second);
    SIM_CHECK(ids.insert(v[i].id).second, "duplicate", "%s: the entry with ID %llu is there twice", what, (unsigned long long)v[i].id);
  }
  for (const auto& d : l.durable) {
    SIM_CHECK(d.first < v.size(), "lost", "%s: entry %llu (id %llu) had been acknowledged, and is gone; there are %zu entries", what, (unsigned long long)d.first, (unsigned long long)d.second.first, v.size());
    SIM_CHECK(v[d.first].id == d.second.first && v[d.first].us == d.second.second, "changed", "%s: entry %llu had been id %llu us %lld, and is now id %llu us %lld", what,
              (unsigned long long)d.first, (unsigned long long)d.second.first, (long long)d.second.second, (unsigned long long)v[d.first].id, (long long)v[d.first].us);
  }
  if (!v.empty()) {
    const auto last = p.LastPublishedIndexAndTimestamp();
    SIM_CHECK(last.index == v.size() - 1 && last.us.count() == v.back().us, "last", "%s: the last entry is misreported", what);
  }
  const int64_t head = p.CurrentHead().count();
  SIM_CHECK(head >= prev && head >= l.head, "head", "%s: the head is %lld, while the last entry is at %lld, and the last acknowledged head is %lld", what, (long long)head, (long long)prev, (long long)l.head);
  if (explicit_timestamps) SIM_CHECK(l.handed_in.count(head), "invented", "%s: the head is %lld, which nobody has handed in", what, (long long)head);
}

void CrashBody(bool with_head) {
  const std::string file = sim::RunDir() + "/log";
  sim::SetLimits(200000000, 3600ull * 1000000);
  // With explicit timestamps only, the observer knows each value the head could possibly have. All the lives agree on it.
  bool explicit_timestamps = with_head && sim::CB();
  if (sim::Phase() == 0) sim::HistoryAppend(explicit_timestamps ? "explicit" : "default");
  else explicit_timestamps = sim::History()[0] == "explicit";
  h::Chaos();
  if (!sim::FinalPhase()) {
    static const double kP[] = {0.05, 0.01, 0.2, 0.5};
    if (sim::C(4)) sim::K().crash_at_write = kP[sim::C(4)];
    if (sim::C(4) == 0) sim::K().crash_at_point = 0.01;
  }
  // Opening may crash too.
  std::mutex mutex;
  auto p = std::make_unique<File<Rec>>(mutex, kNs, file);
  {
    Ledger l;
    CheckAgainstLedger(*p, l, "after a restart", explicit_timestamps);
    for (const auto& e : ReadAll(*p)) if (!l.durable.count(e.index)) { sim::HistoryAppend(Str("O %llu %llu %lld", e.id, e.index, e.us)); sim::Count("unacknowledged_but_durable"); }
    sim::Cover(Str("restart %llu %llu", sim::Phase(), p->Size()));
  }
  const int n = 1 + sim::C(3);
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&, i]() {
        const int ops = 1 + sim::W(12);
        const auto next_us = [&]() {
          static const uint64_t kStep[] = {10, 1000, 100000, 1000000000};
          return std::max(p->CurrentHead(), microseconds(0)) + microseconds(1 + sim::W(kStep[sim::W(4)]));
        };
        for (int k = 0; k < ops; ++k) {
          while (with_head && sim::WB(0.4)) {
            try {
              if (explicit_timestamps) {
                const auto us = next_us();
                sim::HistoryAppend(Str("U %llu", us.count()));
                p->UpdateHead(us);
                sim::HistoryAppend(Str("H %llu", us.count()));
              } else {
                p->UpdateHead();
              }
              sim::HistoryAppend(Str("H %llu", p->CurrentHead().count()));
            } catch (const ss::InconsistentTimestampException&) {
            }
          }
          const uint64_t id = uint64_t(sim::Phase()) * 1000000 + i * 1000 + k;
          size_t len = Len();
          if (explicit_timestamps && sim::WB(0.3)) {
            // Make it likely for the head, which follows the entry and is later overwritten in place, to cross the border of
            // a sector.
            const uint64_t size = std::filesystem::file_size(file);
            const size_t index_len = JSON(p->HeadAndLastPublishedIndexAndTimestamp().head.count()).size() + JSON(p->Size()).size();
            const std::string payload = h::Payload(id, 600);
            uint64_t digits = size + JSON(Rec(id, "")).size() + index_len + strlen("{\"index\":,\"us\":}\t\n#head ");
            for (len = 0; len < 600 && !(digits % 512 >= 495 && digits % 512 < 502); ++len) digits += strchr("\"\\\n\t", payload[len]) ? 2 : 1;
          }
          sim::HistoryAppend(Str("I %llu %llu", id, len));
          idxts_t idxts;
          if (explicit_timestamps) {
            const auto us = next_us();
            sim::HistoryAppend(Str("U %llu", us.count()));
            try {
              idxts = p->Publish(Rec(id, h::Payload(id, len)), us);
            } catch (const ss::InconsistentTimestampException&) {
              continue;  // Another thread was faster.
            }
          } else {
            idxts = p->Publish(Rec(id, h::Payload(id, len)));
          }
          sim::HistoryAppend(Str("A %llu %llu %lld", id, idxts.index, idxts.us.count()));
          sim::Count("acknowledged");
          if (sim::WB(0.2)) sim::SleepUs(sim::W(3000));
        }
      });
    }
  }
  CheckAgainstLedger(*p, Ledger(), "before a shutdown", explicit_timestamps);
  if (!sim::FinalPhase() && sim::WB()) sim::CrashNow("killed while idle");
  sim::FaultsOff();
  const auto head_before = p->CurrentHead();
  const auto size_before = p->Size();
  p = nullptr;
  p = std::make_unique<File<Rec>>(mutex, kNs, file);
  CheckAgainstLedger(*p, Ledger(), "after a clean restart", explicit_timestamps);
  SIM_CHECK(p->CurrentHead() == head_before, "head", "the head is %lld after a clean restart from %lld", (long long)p->CurrentHead().count(), (long long)head_before.count());
  SIM_CHECK(p->Size() == size_before, "size", "%llu entries after a clean restart from %llu", (unsigned long long)p->Size(), (unsigned long long)size_before);
}
}  // namespace

SIM_SCENARIO("P01", file_crash_restart, 2.0, 4) { CrashBody(false); }
SIM_SCENARIO("P01", file_crash_restart_with_heads, 1.0, 4) { CrashBody(true); }

// ---- P02 -----------------------------------------------------------------------------------------------------------
namespace {
struct Acked { uint64_t index; int64_t us; uint64_t id; size_t len; };
void DiskFaults() {
  auto& k = sim::K();
  switch (sim::C(6)) {
    case 0: k.disk_enospc = 0.1; break;
    case 1: k.disk_eio = 0.1; break;
    case 2: k.disk_capacity = sim::C(40000); break;
    case 3: k.disk_enospc = 0.05; k.disk_short_write = 0.3; break;
    case 4: k.disk_short_write = 0.5; k.disk_eintr = 0.2; k.disk_short_read = 0.5; break;
    case 5: k.disk_capacity = sim::C(2000); k.disk_short_write = 0.2; break;
  }
}
}  // namespace
SIM_SCENARIO("P02", file_disk_errors, 2.0) {
  const std::string file = sim::RunDir() + "/log";
  sim::SetLimits(200000000, 3600ull * 1000000);
  h::Chaos();
  std::vector<Acked> acked;
  std::map<uint64_t, size_t> refused;
  std::mutex mutex;
  uint64_t next_id = 1;
  int64_t head = -1;  // Acknowledged; exact between the lives.
  const bool heads = sim::CB();
  const int lives = 1 + sim::C(3);
  for (int life = 0; life < lives; ++life) {
    std::unique_ptr<File<Rec>> p;
    if (sim::C(3)) DiskFaults();
    const std::string opened = h::Throws([&]() { p = std::make_unique<File<Rec>>(mutex, kNs, file); });
    SIM_CHECK(opened.empty() || sim::InjectedDiskErrors(), "open", "can not open the file: %s", opened.c_str());
    if (p) {
      SIM_CHECK(p->CurrentHead().count() == head, "head", "the head is %lld after a restart, and %lld before it", (long long)p->CurrentHead().count(), (long long)head);
      DiskFaults();
      const int n = 1 + sim::C(3);
      h::Threads t;
      for (int i = 0; i < n; ++i) {
        t.Go([&]() {
          const int ops = 1 + sim::W(10);
          for (int k = 0; k < ops; ++k) {
            while (heads && sim::WB(0.4)) {
              try {
                const auto before = p->CurrentHead();
                p->UpdateHead();
                SIM_CHECK(p->CurrentHead() > before, "head", "updating the head does not move it");
                sim::Count("heads_acknowledged");
              } catch (const current::Exception&) {
                SIM_CHECK(sim::InjectedDiskErrors(), "refused", "a head update is refused, and no disk error has been injected");
                sim::Count("heads_refused");
              }
            }
            uint64_t id;
            { sim::Atomic a; id = next_id++; }
            const size_t len = Len();
            try {
              const auto r = p->Publish(Rec(id, h::Payload(id, len)));
              sim::Atomic a;
              acked.push_back({r.index, r.us.count(), id, len});
              sim::Count("acknowledged");
            } catch (const current::Exception&) {
              sim::Atomic a;
              SIM_CHECK(sim::InjectedDiskErrors(), "refused", "a publish is refused, and no disk error has been injected");
              refused[id] = len;
              sim::Count("refused");
            }
          }
        });
      }
    }
    sim::FaultsOff();
    if (p) {
      // With no faults any more, the very process which has seen them must see what it has acknowledged, and nothing else.
      const std::vector<Seen> now = ReadAll(*p);
      SIM_CHECK(now.size() == acked.size() && p->Size() == acked.size() && ReadAllUnsafe(*p).size() == acked.size(), "size",
                "%zu entries were acknowledged, %zu are there, and the size is %llu", acked.size(), now.size(), (unsigned long long)p->Size());
      SIM_CHECK(p->Empty() == acked.empty(), "size", "misreported as empty or not empty");
      if (!now.empty()) {
        const auto last = p->LastPublishedIndexAndTimestamp();
        SIM_CHECK(last.index == now.back().index && last.us.count() == now.back().us, "last", "the last entry is misreported after a disk error");
      }
      const int64_t head_now = p->CurrentHead().count();
      SIM_CHECK(head_now >= head && (now.empty() || head_now >= now.back().us), "head", "the head goes from %lld to %lld", (long long)head, (long long)head_now);
      head = head_now;
      for (int k = 0; k < 3 && !now.empty(); ++k) {
        // Looked up by its time, each entry is what it is too.
        const Seen& e = now[sim::W(now.size())];
        size_t found = 0;
        for (const auto& x : p->Iterate(microseconds(e.us), microseconds(e.us))) {
          SIM_CHECK(x.idx_ts.index == e.index && x.entry.id == e.id, "by-time", "the entry %llu at %lld is looked up by its time as the entry %llu", (unsigned long long)e.index, (long long)e.us, (unsigned long long)x.idx_ts.index);
          ++found;
        }
        SIM_CHECK(found == 1, "by-time", "the entry %llu at %lld is looked up by its time %zu times", (unsigned long long)e.index, (long long)e.us, found);
      }
      for (const auto& e : now) SIM_CHECK(!refused.count(e.id), "refused-yet-published", "the publish of id %llu was reported as failed, and the entry is there", (unsigned long long)e.id);
    }
    p = nullptr;
  }
  auto p = std::make_unique<File<Rec>>(mutex, kNs, file);
  SIM_CHECK(p->CurrentHead().count() == head, "head", "the head is %lld after a restart, and %lld before it", (long long)p->CurrentHead().count(), (long long)head);
  std::vector<Seen> v = ReadAll(*p);
  std::sort(acked.begin(), acked.end(), [](const Acked& a, const Acked& b) { return a.index < b.index; });
  std::map<uint64_t, const Seen*> by_id;
  for (size_t i = 0; i < v.size(); ++i) {
    SIM_CHECK(v[i].index == i, "order", "position %zu has the index %llu", i, (unsigned long long)v[i].index);
    SIM_CHECK(by_id.insert({v[i].id, &v[i]}).second, "duplicate", "ID %llu is there twice", (unsigned long long)v[i].id);
    SIM_CHECK(!refused.count(v[i].id), "refused-yet-published", "the publish of id %llu was reported as failed, and the entry is there", (unsigned long long)v[i].id);
  }
  for (const auto& a : acked) {
    auto it = by_id.find(a.id);
    SIM_CHECK(it != by_id.end(), "lost", "the publish of id %llu (index %llu) was reported as a success, and the entry is not in the file; %zu entries are", (unsigned long long)a.id, (unsigned long long)a.index, v.size());
    const Seen& s = *it->second;
    SIM_CHECK(s.index == a.index && s.us == a.us && s.s == h::Payload(a.id, a.len), "changed", "the entry with id %llu is not what had been acknowledged", (unsigned long long)a.id);
  }
  SIM_CHECK(v.size() == acked.size(), "invented", "%zu entries, %zu published", v.size(), acked.size());
  // And the file is good for further use.
  const auto r = p->Publish(Rec(1u << 30, "last"));
  SIM_CHECK(r.index == v.size(), "order", "the next index is wrong");
  p = nullptr;
  p = std::make_unique<File<Rec>>(mutex, kNs, file);
  v = ReadAll(*p);
  SIM_CHECK(v.size() == r.index + 1 && v.back().s == "last", "lost", "an entry published after the disk has recovered is lost");
  sim::Cover(Str("%llu %llu", acked.size(), refused.size()));
}

// Opening the file while reads or opens fail: either it throws, or what is there is intact, and stays so.
SIM_SCENARIO("P02", file_open_errors, 1.0) {
  const std::string file = sim::RunDir() + "/log";
  sim::SetLimits(200000000, 3600ull * 1000000);
  std::mutex mutex;
  std::vector<Acked> acked;
  uint64_t next_id = 1;
  const int rounds = 2 + sim::C(3);
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      switch (sim::C(3)) {
        case 0: sim::K().disk_open_fail = 0.4; break;
        case 1: sim::K().disk_read_eio = 0.3; break;
        case 2: sim::K().disk_open_fail = 0.2; sim::K().disk_read_eio = 0.1; sim::K().disk_short_read = 0.4; break;
      }
    }
    std::unique_ptr<File<Rec>> p;
    const uint64_t before = sim::InjectedDiskErrors();
    const std::string e = h::Throws([&]() { p = std::make_unique<File<Rec>>(mutex, kNs, file); });
    SIM_CHECK(e.empty() || sim::InjectedDiskErrors() > before, "open", "can not open the file: %s", e.c_str());
    sim::FaultsOff();
    sim::Count(p ? "opened" : "open_refused");
    if (!p) continue;
    const int ops = sim::W(6);
    for (int k = 0; k < ops; ++k) {
      const uint64_t id = next_id++;
      const size_t len = Len();
      try {
        const auto r = p->Publish(Rec(id, h::Payload(id, len)));
        acked.push_back({r.index, r.us.count(), id, len});
      } catch (const current::Exception&) {
      }
    }
  }
  File<Rec> p(mutex, kNs, file);
  std::vector<Seen> v = ReadAll(p);
  SIM_CHECK(v.size() == acked.size(), "lost", "%zu entries were acknowledged, %zu are there", acked.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) Same(v[i], i, Seen{acked[i].index, acked[i].us, acked[i].id, h::Payload(acked[i].id, acked[i].len)}, "after the errors");
  sim::Cover(Str("open %llu", v.size()));
}

// What has been read from a log stays readable, and the log stays there, until whoever is reading it is done.
namespace {
template <typename MAKE> void CloseWhileReading(MAKE make) {
  sim::SetLimits(200000000, 3600ull * 1000000);
  h::Chaos();
  std::mutex mutex;
  auto p = make(mutex);
  const int n = 1 + sim::C(8);
  for (int i = 0; i < n; ++i) p->Publish(Rec(i, h::Payload(i, sim::W(50))));
  const int readers = 1 + sim::C(3);
  int reading = 0;
  {
    h::Threads t;
    for (int r = 0; r < readers; ++r) {
      const uint64_t begin = sim::W(n), end = begin + 1 + sim::W(n - begin);
      const auto go = [&reading, begin, end](auto range, auto check) {
        { sim::Atomic a; ++reading; }
        return [&reading, begin, end, check, holder = std::make_shared<std::unique_ptr<decltype(range)>>(std::make_unique<decltype(range)>(std::move(range)))]() {
          uint64_t i = begin;
          for (const auto& e : **holder) {
            check(e, i++);
            if (sim::WB(0.3)) sim::SleepUs(sim::W(300));
          }
          SIM_CHECK(i == end, "range", "%llu entries of %llu are read", (unsigned long long)(i - begin), (unsigned long long)(end - begin));
          { sim::Atomic a; --reading; }
          *holder = nullptr;
        };
      };
      if (sim::WB()) t.Go(go(p->Iterate(begin, end), [](const auto& e, uint64_t i) { SIM_CHECK(e.idx_ts.index == i && e.entry.id == i && e.entry.s == h::Payload(i, e.entry.s.size()), "wrong-entry", "%llu", (unsigned long long)i); }));
      else t.Go(go(p->IterateUnsafe(begin, end), [](const std::string& l, uint64_t i) { SIM_CHECK(ParseJSON<Rec>(l.substr(l.find('\t') + 1)).id == i, "wrong-entry", "%llu", (unsigned long long)i); }));
    }
    if (sim::WB()) sim::SleepUs(sim::W(1000));
    p = nullptr;
    sim::Atomic a;
    SIM_CHECK(reading == 0, "closed-while-reading", "the log is gone with %d iterations in progress", reading);
  }
  sim::Cover(Str("close %llu %llu", n, readers));
}
}  // namespace
SIM_SCENARIO("P03", file_closed_while_being_read, 0.5) {
  CloseWhileReading([](std::mutex& mutex) { return std::make_unique<File<Rec>>(mutex, kNs, sim::RunDir() + "/log"); });
}
SIM_SCENARIO("P03", memory_closed_while_being_read, 0.5) {
  CloseWhileReading([](std::mutex& mutex) { return std::make_unique<Memory<Rec>>(mutex, kNs); });
}

// ---- P03 -----------------------------------------------------------------------------------------------------------
namespace {
// What a reader has got, to be compared with the complete history in the end.
struct Moment { int64_t head_before; uint64_t size_before; int64_t index, us, head; uint64_t size_after; };
struct Read { bool by_time; int64_t a, b; uint64_t size_before, size_after; std::vector<Seen> got; bool threw; };

template <typename P> void ReadersAndWriters(P& p, bool raw_allowed_ids) {
  std::vector<Seen> published;  // By index.
  std::vector<Read> reads;
  std::vector<Moment> moments;
  std::set<int64_t> heads;
  static_cast<void>(raw_allowed_ids);
  const int writers = 1 + sim::C(3), readers = 1 + sim::C(3);
  const bool own_ts = sim::CB(0.3);
  // At times there is plenty in the log already, so that what is kept in memory is moved around as it grows.
  const int prefill = sim::CB(0.4) ? sim::CB() ? 24 + sim::C(14) : sim::C(100) : 0;
  for (int k = 0; k < prefill; ++k) {
    const uint64_t id = 100000 + k;
    const idxts_t r = p.Publish(Rec(id, ""));
    published.push_back(Seen{r.index, r.us.count(), id, ""});
  }
  {
    h::Threads t;
    for (int w = 0; w < writers; ++w) {
      t.Go([&, w]() {
        const int ops = 2 + sim::W(14);
        for (int k = 0; k < ops; ++k) {
          const uint64_t id = w * 1000 + k;
          const std::string s = h::Payload(id, sim::W(4) ? sim::W(30) : Len());
          try {
            idxts_t r = (own_ts && writers == 1) ? p.Publish(Rec(id, s), p.CurrentHead() + microseconds(1 + sim::W(50))) : p.Publish(Rec(id, s));
            sim::Atomic a;
            if (published.size() <= r.index) published.resize(r.index + 1, Seen{0, -1, 0, ""});
            SIM_CHECK(published[r.index].us == -1, "index-reused", "two publishers were both given the index %llu", (unsigned long long)r.index);
            published[r.index] = Seen{r.index, r.us.count(), id, s};
          } catch (const ss::InconsistentTimestampException&) {
            sim::Fail("refused", "a publish with the default timestamp is refused");
          }
          if (own_ts && writers == 1 && sim::WB(0.1)) {
            const auto us = p.CurrentHead() + microseconds(1 + sim::W(10));
            { sim::Atomic a; heads.insert(us.count()); }
            p.UpdateHead(us);
          }
        }
      });
    }
    for (int w = 0; w < readers; ++w) {
      t.Go([&]() {
        const int ops = 1 + sim::W(6);
        for (int k = 0; k < ops; ++k) {
          if (sim::WB(0.4)) {
            // The last entry and the head, as of one moment in time.
            Moment m;
            m.head_before = p.CurrentHead().count();
            m.size_before = p.Size();
            const auto last = p.HeadAndLastPublishedIndexAndTimestamp();
            m.head = last.head.count();
            m.index = Exists(last.idxts) ? static_cast<int64_t>(Value(last.idxts).index) : -1;
            m.us = Exists(last.idxts) ? Value(last.idxts).us.count() : -1;
            const auto head_after = p.CurrentHead().count();
            SIM_CHECK(head_after >= m.head && m.head >= m.us, "head", "the head is %lld, then %lld, with the last entry at %lld", (long long)m.head, (long long)head_after, (long long)m.us);
            m.size_after = p.Size();
            if (m.size_after) {
              const auto idxts = p.LastPublishedIndexAndTimestamp();
              SIM_CHECK(idxts.index + 1 >= m.size_after && idxts.us.count() >= m.us, "last", "the last entry is %llu, with %llu entries there", (unsigned long long)idxts.index, (unsigned long long)m.size_after);
              SIM_CHECK(!p.Empty(), "size", "the log is reported to be empty");
              sim::Atomic a;
              moments.push_back({-1, m.size_after, static_cast<int64_t>(idxts.index), idxts.us.count(), -2, ~0ull});
            }
            sim::Atomic a;
            moments.push_back(m);
          }
          Read r;
          r.size_before = p.Size();
          r.by_time = sim::WB(0.4);
          r.threw = false;
          const bool unsafe = sim::WB(0.4);
          if (r.by_time) {
            const int64_t now = sim::WallUs();
            const int64_t base = p.Empty() ? now : p.LastPublishedIndexAndTimestamp().us.count();
            r.a = sim::WB(0.3) ? 0 : base - static_cast<int64_t>(sim::W(2000));
            r.b = sim::WB(0.2) ? -1 : (sim::WB(0.5) ? base : base + static_cast<int64_t>(sim::W(300)));
          } else {
            r.a = r.size_before > 30 && sim::WB(0.7) ? r.size_before - sim::W(10) : sim::W(r.size_before + 2);
            r.b = sim::WB(0.3) ? -1 : static_cast<int64_t>(sim::W(r.size_before + 3));
          }
          try {
            if (unsafe) {
              auto go = [&](auto&& range) {
                for (const auto& l : range) {
                  const size_t tab = l.find('\t');
                  SIM_CHECK(tab != std::string::npos, "bad-line", "a raw line without a tab");
                  const auto i = ParseJSON<idxts_t>(l.substr(0, tab));
                  const auto e = ParseJSON<Rec>(l.substr(tab + 1));
                  r.got.push_back({i.index, i.us.count(), e.id, e.s});
                }
              };
              if (r.by_time) go(p.IterateUnsafe(microseconds(r.a), microseconds(r.b)));
              else go(p.IterateUnsafe(static_cast<uint64_t>(r.a), static_cast<uint64_t>(r.b)));
            } else {
              auto go = [&](auto&& range) {
                for (const auto& e : range) r.got.push_back({e.idx_ts.index, e.idx_ts.us.count(), e.entry.id, e.entry.s});
              };
              if (r.by_time) go(p.Iterate(microseconds(r.a), microseconds(r.b)));
              else go(p.Iterate(static_cast<uint64_t>(r.a), static_cast<uint64_t>(r.b)));
            }
          } catch (const persistence::InvalidIterableRangeException&) {
            r.threw = true;
          }
          r.size_after = p.Size();
          sim::Atomic a;
          reads.push_back(r);
        }
      });
    }
  }
  const uint64_t n = published.size();
  SIM_CHECK(p.Size() == n, "size", "%llu published, Size() = %llu", (unsigned long long)n, (unsigned long long)p.Size());
  for (uint64_t i = 0; i < n; ++i) {
    SIM_CHECK(published[i].us >= 0, "gap", "no publisher was given the index %llu", (unsigned long long)i);
    SIM_CHECK(!i || published[i].us > published[i - 1].us, "order", "timestamps do not increase at %llu", (unsigned long long)i);
  }
  for (const Moment& m : moments) {
    SIM_CHECK(m.index + 1 >= static_cast<int64_t>(m.size_before) && m.index < static_cast<int64_t>(std::min(m.size_after, n)), "last", "the last entry is %lld, with the size of %llu before, and of %llu after", (long long)m.index,
              (unsigned long long)m.size_before, (unsigned long long)m.size_after);
    SIM_CHECK(m.us == (m.index < 0 ? -1 : published[m.index].us), "last", "the last entry, %lld, is reported with the timestamp %lld", (long long)m.index, (long long)m.us);
    SIM_CHECK(m.head == -2 || m.head >= m.head_before, "head", "the head is %lld, and then %lld", (long long)m.head_before, (long long)m.head);
    SIM_CHECK(m.head == -2 || m.head == m.us || heads.count(m.head), "head", "the head is %lld, with the last entry at %lld", (long long)m.head, (long long)m.us);
    SIM_CHECK(m.index + 1 >= static_cast<int64_t>(n) || m.head < published[m.index + 1].us, "head", "the head is %lld with the last entry of %lld, the next one is at %lld", (long long)m.head, (long long)m.index,
              (long long)published[m.index + 1].us);
  }
  sim::Count("moments", moments.size());
  std::vector<Seen> v = ReadAll(p);
  std::vector<Seen> u = ReadAllUnsafe(p);
  SIM_CHECK(v.size() == n && u.size() == n, "size", "%llu published, %zu and %zu read", (unsigned long long)n, v.size(), u.size());
  for (uint64_t i = 0; i < n; ++i) { Same(v[i], i, published[i], "iteration"); Same(u[i], i, published[i], "raw iteration"); }
  for (const Read& r : reads) {
    sim::Count(r.threw ? "range_errors" : "ranges_read");
    sim::Count("entries_read", r.got.size());
    uint64_t begin, end_min, end_max;
    if (!r.by_time) {
      begin = r.a;
      if (r.b == -1) { end_min = r.size_before; end_max = r.size_after; } else { end_min = end_max = r.b; }
      // An out-of-bounds range is refused, and a valid one never is.
      if (r.threw) {
        const bool could = begin > end_min || end_max > r.size_before;
        SIM_CHECK(could, "range-refused", "the range [%lld, %lld) of %llu entries is refused", (long long)r.a, (long long)r.b, (unsigned long long)r.size_before);
        continue;
      }
      SIM_CHECK(end_min <= r.size_after, "range-accepted", "the range [%lld, %lld) is accepted with %llu entries only", (long long)r.a, (long long)r.b, (unsigned long long)r.size_after);
      SIM_CHECK(r.b == -1 || begin <= static_cast<uint64_t>(r.b), "range-accepted", "the range [%lld, %lld) is accepted", (long long)r.a, (long long)r.b);
    } else {
      SIM_CHECK(r.threw == (r.b > 0 && r.b < r.a), "range-refused", "the time range [%lld, %lld] of is %s", (long long)r.a, (long long)r.b, r.threw ? "refused" : "accepted");
      if (r.threw) continue;
      begin = 0;
      while (begin < n && published[begin].us < r.a) ++begin;
      uint64_t till = n;
      if (r.b > 0) { till = 0; while (till < n && published[till].us <= r.b) ++till; }
      end_min = std::min(till, r.size_before);
      end_max = std::min(till, r.size_after);
      if (begin > end_min) end_min = begin;
      if (end_max < end_min) end_max = end_min;
      if (begin >= r.size_after) { SIM_CHECK(r.got.empty(), "range", "a time range in the future is not empty"); continue; }
    }
    SIM_CHECK(r.got.size() + begin >= end_min && (r.got.empty() || r.got.size() + begin <= end_max), "range",
              "%s [%lld, %lld]: got %zu entries from %llu, expected up to between %llu and %llu; the size was %llu, then %llu", r.by_time ? "time range" : "range", (long long)r.a,
              (long long)r.b, r.got.size(), (unsigned long long)(r.got.empty() ? 0 : r.got[0].index), (unsigned long long)end_min, (unsigned long long)end_max, (unsigned long long)r.size_before,
              (unsigned long long)r.size_after);
    for (size_t i = 0; i < r.got.size(); ++i) Same(r.got[i], begin + i, published[begin + i], "range iteration");
  }
  sim::Cover(Str("%llu %llu", n, reads.size()));
}
}  // namespace
SIM_SCENARIO("P03", file_readers_and_writers, 2.0) {
  sim::SetLimits(200000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.2)) sim::K().disk_short_read = 0.3;
  if (sim::CB(0.2)) sim::K().disk_short_write = 0.3;
  if (sim::CB(0.2)) sim::K().clock_jump = 0.01;
  std::mutex mutex;
  auto p = std::make_unique<File<Rec>>(mutex, kNs, sim::RunDir() + "/log");
  if (sim::CB(0.3)) {  // Begin with a history, reopened.
    const int n = sim::C(12);
    for (int i = 0; i < n; ++i) { p->Publish(Rec(900000 + i, h::Payload(i, sim::W(50)))); if (sim::WB(0.3)) p->UpdateHead(); }
    const auto before = ReadAll(*p);
    p = nullptr;
    p = std::make_unique<File<Rec>>(mutex, kNs, sim::RunDir() + "/log");
    const auto after = ReadAll(*p);
    SIM_CHECK(before.size() == after.size(), "size", "reopening changed the size");
    for (size_t i = 0; i < before.size(); ++i) Same(after[i], i, before[i], "reopened");
    if (n) return;
  }
  ReadersAndWriters(*p, true);
}
SIM_SCENARIO("P03", memory_readers_and_writers, 1.0) {
  sim::SetLimits(200000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.2)) sim::K().clock_jump = 0.01;
  std::mutex mutex;
  Memory<Rec> p(mutex, kNs);
  ReadersAndWriters(p, true);
}
