// S01, S02, S03, S04: streams, publishers and subscribers.
#include "stream_common.h"

namespace {
// ---- S01 -----------------------------------------------------------------------------------------------------------
template <typename S> void ConcurrentPublishers() {
  sim::SetLimits(100000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.4)) { sim::K().clock_jump = 0.05; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  if (sim::CB(0.3)) sim::K().clock_coarse = true;
  const bool own_ts = sim::CB(0.5);
  const int n = 2 + sim::C(3);
  auto stream = Make<S>::Go();
  Model m;
  int64_t max_head = -1;
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&]() {
        const int ops = 1 + sim::W(10);
        int64_t seen = -1;
        for (int k = 0; k < ops; ++k) {
          const uint64_t id = m.NewId();
          const int64_t head0 = stream->Data()->CurrentHead().count();
          SIM_CHECK(head0 >= seen, "head", "the head has moved back, from %lld to %lld", (long long)seen, (long long)head0);
          seen = head0;
          const int how = own_ts ? sim::W(10) : sim::W(3) == 2 ? 9 : sim::W(2);
          const int64_t us = how == 2 ? head0 : how == 3 ? head0 + 1 : how == 4 ? head0 + 1 + sim::W(100) : how == 5 ? head0 - static_cast<int64_t>(sim::W(5)) : 0;
          try {
            if (how < 2) {
              std::unique_ptr<Borrowed<typename S::publisher_t>> b;
              if (how) { b = std::make_unique<Borrowed<typename S::publisher_t>>(stream->BorrowPublisher()); m.Done(id, Pub(**b, id)); }
              else m.Done(id, Pub(*stream->Publisher(), id));
            } else if (how < 6) {
              const auto r = Pub(*stream->Publisher(), id, microseconds(us));
              m.Done(id, r);
              SIM_CHECK(r.us.count() == us, "timestamp", "published at %lld, with the timestamp of %lld", (long long)r.us.count(), (long long)us);
              SIM_CHECK(us > head0, "timestamp-accepted", "an entry at %lld is accepted past the head of %lld", (long long)us, (long long)head0);
            } else if (how == 6) {
              const int64_t h = head0 + static_cast<int64_t>(sim::W(20)) - 5;
              stream->Publisher()->UpdateHead(microseconds(h));
              SIM_CHECK(h > head0, "timestamp-accepted", "a head of %lld is accepted past the head of %lld", (long long)h, (long long)head0);
              sim::Atomic a;
              max_head = std::max(max_head, h);
            } else if (how == 8) {
              // The way an entry is replicated: as a line of the log, with the index and the timestamp in it.
              const uint64_t size0 = stream->Data()->Size();
              const uint64_t index = size0 + (sim::W(4) ? 0 : sim::W(3));
              const int64_t at = head0 + static_cast<int64_t>(sim::W(30)) - (sim::W(3) ? 0 : 4);
              const std::string line = JSON(idxts_t(index, microseconds(at))) + '\t' + JSON(MakeEv(id));
              try {
                const auto r = sim::WB() ? stream->Publisher()->PublishUnsafe(line) : stream->Publisher()->PublishUnsafe(std::string(line));
                m.Done(id, r);
                SIM_CHECK(r.index == index && r.us.count() == at, "timestamp", "the line for (%llu, %lld) is published as (%llu, %lld)", (ull)index, (long long)at, (ull)r.index, (long long)r.us.count());
                SIM_CHECK(at > head0, "timestamp-accepted", "a line at %lld is accepted past the head of %lld", (long long)at, (long long)head0);
                sim::Count("lines_published");
              } catch (const persistence::UnsafePublishBadIndexTimestampException&) {
                SIM_CHECK(index != size0 || stream->Data()->Size() > index, "refused", "the line for the entry %llu is refused, with the size of %llu", (ull)index, (ull)size0);
              } catch (const ss::InconsistentTimestampException&) {
                const int64_t head1 = stream->Data()->CurrentHead().count();
                SIM_CHECK(at <= head1, "refused", "a line at %lld is refused, with the head at %lld", (long long)at, (long long)head1);
              }
            } else if (how == 9) {
              if (sim::WB()) stream->Publisher()->UpdateHead(); else stream->BorrowPublisher()->UpdateHead();
              const int64_t head1 = stream->Data()->CurrentHead().count();
              SIM_CHECK(head1 > head0, "head", "the head is %lld past an update, and was %lld before it", (long long)head1, (long long)head0);
            } else {
              m.Done(id, Pub(*stream->Publisher(), id));
            }
          } catch (const ss::InconsistentTimestampException&) {
            // Only legal if somebody does use timestamps of their own.
            sim::Count("refused");
            SIM_CHECK(own_ts, "refused", "a publish or an update of the head with the default timestamp is refused");
            const int64_t head1 = stream->Data()->CurrentHead().count();
            if (how == 2 || how == 3 || how == 4 || how == 5) SIM_CHECK(us <= head1, "refused", "an entry at %lld is refused, with the head at %lld", (long long)us, (long long)head1);
          }
          if (sim::WB(0.2)) sim::SleepUs(sim::W(2000));
        }
      });
    }
  }
  m.CheckComplete();
  m.CheckStored(stream);
  SIM_CHECK(stream->Data()->CurrentHead().count() >= max_head, "head", "a head update is lost");
  sim::Cover(Str("%llu %llu %llu", n, m.Size(), m.attempted.size() - m.Size()));
  sim::Count("published", m.Size());
}
}  // namespace
SIM_SCENARIO("S01", memory_concurrent_publishers, 1.0) { ConcurrentPublishers<MemStream>(); }
SIM_SCENARIO("S01", file_concurrent_publishers, 1.0) { ConcurrentPublishers<FileStream>(); }

// ---- Subscribers ---------------------------------------------------------------------------------------------------
namespace {
struct Log {
  struct E { uint64_t index; int64_t us; uint64_t id; uint64_t last; int64_t last_us; };
  std::vector<E> entries;
  std::vector<std::pair<size_t, int64_t>> heads;  // (entries before it, head).
  bool gone = false;          // The scope has been destroyed: no more calls.
  bool said_done = false;     // The subscriber has asked to be called no more.
  bool said_terminate = false;
  uint64_t terminate_calls = 0;
  int in_call = 0;
  // What it does.
  uint64_t done_after = 0;    // Entries; 0: never.
  uint64_t heads_done_after = 0;
  bool done_if_no_more = false;  // For those filtered by type.
  struct NoMore { size_t entries; uint64_t acknowledged; };
  std::vector<NoMore> no_more;   // (entries before it, how many entries were in the stream the previous time it was called, or when it has subscribed).
  uint64_t acknowledged = 0;
  const Model* m = nullptr;
  void Passed() { if (m) acknowledged = m->by_index.size(); }
  bool wait_on_terminate = false;
  uint64_t slow_us = 0;
  int64_t owner = -1;         // The thread.
  uint64_t done_callbacks = 0;
};
struct Guard {
  Log& l;
  explicit Guard(Log& l, const char* what) : l(l) {
    SIM_CHECK(!l.gone, "called-after-scope", "a subscriber is called (%s) after its scope is gone", what);
    SIM_CHECK(!l.said_done, "called-after-done", "a subscriber is called (%s) after it has asked for no more", what);
    SIM_CHECK(!l.said_terminate, "called-after-terminate", "a subscriber is called (%s) after it has agreed to terminate", what);
    SIM_CHECK(l.in_call++ == 0, "concurrent-calls", "a subscriber is called (%s) concurrently with itself", what);
    SIM_CHECK(l.owner < 0 || l.owner == sim::ThreadId(), "two-threads", "a subscriber is called from two threads");
    l.owner = sim::ThreadId();
  }
  ~Guard() { --l.in_call; }
};
template <typename T> struct SubImpl {
  Log& l;
  SubImpl(Log& l) : l(l) {}
  ss::EntryResponse Got(uint64_t index, int64_t us, uint64_t id, idxts_t last) {
    if (l.slow_us) sim::SleepUs(l.slow_us);
    sim::Atomic x;
    l.entries.push_back({index, us, id, last.index, last.us.count()});
    l.Passed();
    if (l.done_after && l.entries.size() >= l.done_after) { l.said_done = true; return ss::EntryResponse::Done; }
    if (l.terminate_calls) { l.said_done = true; return ss::EntryResponse::Done; }
    return ss::EntryResponse::More;
  }
  ss::EntryResponse operator()(const T& e, idxts_t cur, idxts_t last) {
    Guard g(l, "entry");
    CheckEv(e);
    return Got(cur.index, cur.us.count(), IdOfAny(e), last);
  }
  ss::EntryResponse operator()(const std::string& raw, uint64_t index, idxts_t last) {
    Guard g(l, "raw entry");
    const size_t tab = raw.find('\t');
    SIM_CHECK(tab != std::string::npos, "bad-line", "a raw line without a tab");
    const auto it = ParseJSON<idxts_t>(raw.substr(0, tab));
    const auto e = ParseJSON<Ev>(raw.substr(tab + 1));
    CheckEv(e);
    SIM_CHECK(it.index == index, "wrong-index", "a raw line with the index %llu is passed as %llu", (ull)it.index, (ull)index);
    return Got(index, it.us.count(), IdOf(e), last);
  }
  ss::EntryResponse operator()(microseconds head) {
    Guard g(l, "head");
    sim::Atomic x;
    l.heads.push_back({l.entries.size(), head.count()});
    if (l.heads_done_after && l.heads.size() >= l.heads_done_after) { l.said_done = true; return ss::EntryResponse::Done; }
    if (l.terminate_calls) { l.said_done = true; return ss::EntryResponse::Done; }
    return ss::EntryResponse::More;
  }
  ss::EntryResponse EntryResponseIfNoMorePassTypeFilter() const {
    Guard g(l, "no more");
    sim::Atomic x;
    l.no_more.push_back({l.entries.size(), l.acknowledged});
    l.Passed();
    if (l.done_if_no_more) { l.said_done = true; return ss::EntryResponse::Done; }
    if (l.terminate_calls) { l.said_done = true; return ss::EntryResponse::Done; }
    return ss::EntryResponse::More;
  }
  ss::TerminationResponse Terminate() {
    Guard g(l, "Terminate");
    SIM_CHECK(++l.terminate_calls == 1, "terminate-twice", "Terminate() is called twice");
    if (l.wait_on_terminate) return ss::TerminationResponse::Wait;
    l.said_terminate = true;
    return ss::TerminationResponse::Terminate;
  }
  static uint64_t IdOfAny(const Ev& e) { return IdOf(e); }
  static uint64_t IdOfAny(const EvA& e) { return e.id; }
  static uint64_t IdOfAny(const EvB& e) { return e.id; }
};
template <typename T> using Sub = ss::StreamSubscriber<SubImpl<T>, T>;

// A subscriber of any kind, to be created and destroyed from one place.
struct AnySub {
  Log log;
  int kind;  // 0: checked, 1: unchecked, 2: EvA only, 3: EvB only.
  uint64_t begin;
  std::unique_ptr<Sub<Ev>> all;
  std::unique_ptr<Sub<EvA>> a;
  std::unique_ptr<Sub<EvB>> b;
  stream::SubscriberScope scope;
  int64_t from_us = 0;
  AnySub(int kind, uint64_t begin) : kind(kind), begin(begin) {}
  template <typename S> void Start(S& stream) {
    { sim::Atomic x; log.Passed(); }
    auto done = [this]() { ++log.done_callbacks; };
    if (kind <= 1) all = std::make_unique<Sub<Ev>>(log);
    if (kind == 2) a = std::make_unique<Sub<EvA>>(log);
    if (kind == 3) b = std::make_unique<Sub<EvB>>(log);
    if (kind == 0) scope = stream->Subscribe(*all, begin, microseconds(from_us), done);
    if (kind == 1) scope = stream->SubscribeUnchecked(*all, begin, microseconds(from_us), done);
    if (kind == 2) scope = stream->template Subscribe<EvA>(*a, begin, microseconds(from_us), done);
    if (kind == 3) scope = stream->template Subscribe<EvB>(*b, begin, microseconds(from_us), done);
  }
  void Stop() {
    scope = nullptr;
    sim::Atomic x;
    log.gone = true;
    SIM_CHECK(log.in_call == 0, "still-in-call", "the scope is gone while the subscriber is in a call");
    SIM_CHECK(log.done_callbacks == 1, "done-callback", "the done callback was called %llu times", (ull)log.done_callbacks);
  }
  bool Wants(uint64_t id) const { return kind <= 1 || (kind == 2) == (id % 2 == 1); }
  // What it has got is the prefix of what it should get, given the complete history.
  uint64_t Check(const Model& m) const {
    size_t k = 0;
    for (const auto& e : m.by_index) {
      if (e.first < begin || !Wants(e.second.id)) continue;
      if (k == log.entries.size()) break;
      const auto& g = log.entries[k];
      SIM_CHECK(g.index == e.first && g.us == e.second.us && g.id == e.second.id, "delivery", "delivery %zu of a subscriber of kind %d from %llu is (%llu, %lld, id %llu), expected (%llu, %lld, id %llu)",
                k, kind, (ull)begin, (ull)g.index, (long long)g.us, (ull)g.id, (ull)e.first, (long long)e.second.us, (ull)e.second.id);
      SIM_CHECK(g.last >= g.index && m.by_index.count(g.last) && m.by_index.at(g.last).us == g.last_us, "last", "along with %llu, the last entry is said to be (%llu, %lld)", (ull)g.index, (ull)g.last,
                (long long)g.last_us);
      if (k) SIM_CHECK(g.last >= log.entries[k - 1].last, "last", "the last entry goes back");
      ++k;
    }
    SIM_CHECK(k == log.entries.size(), "delivery", "%zu entries delivered, only %zu of them have been published", log.entries.size(), k);
    for (const auto& n : log.no_more) {
      // It is called past an entry of another type, which was the last one of the stream at that moment.
      const uint64_t after = n.entries ? log.entries[n.entries - 1].index : begin, before = n.entries < log.entries.size() ? log.entries[n.entries].index : m.by_index.size();
      SIM_CHECK(kind >= 2, "no-more", "a subscriber to all the types is told that there are no more entries of its type");
      bool ok = false;
      for (uint64_t j = std::max(after, n.acknowledged ? n.acknowledged - 1 : 0); j < before && !ok; ++j) ok = !Wants(m.by_index.at(j).id);
      SIM_CHECK(ok, "no-more", "a subscriber of kind %d from %llu is told that there are no more entries of its type between the entries %llu and %llu, while there were %llu entries", kind, (ull)begin, (ull)after, (ull)before,
                (ull)n.acknowledged);
    }
    int64_t prev = from_us - 1;
    for (const auto& h : log.heads) {
      SIM_CHECK(h.second > prev, "heads", "the heads delivered do not increase: %lld after %lld", (long long)h.second, (long long)prev);
      prev = h.second;
      if (h.first) SIM_CHECK(h.second > log.entries[h.first - 1].us, "heads", "the head of %lld is delivered after the entry at %lld", (long long)h.second, (long long)log.entries[h.first - 1].us);
      if (h.first < log.entries.size())
        SIM_CHECK(h.second < log.entries[h.first].us, "heads", "the entry at %lld is delivered after the head of %lld", (long long)log.entries[h.first].us, (long long)h.second);
    }
    return k;
  }
  uint64_t Expected(const Model& m) const {
    uint64_t n = 0;
    if (log.said_done) return log.entries.size();
    for (const auto& e : m.by_index) n += (e.first >= begin && Wants(e.second.id));
    return log.done_after ? std::min(n, log.done_after) : n;
  }
};

template <typename S> void Subscribers() {
  sim::SetLimits(200000000, 3600ull * 1000000);
  h::Chaos();
  auto stream = Make<S>::Go();
  Model m;
  const int pre = sim::C(2) ? sim::C(8) : 0;
  for (int i = 0; i < pre; ++i) { const uint64_t id = m.NewId(); m.Done(id, Pub(*stream->Publisher(), id)); }
  std::vector<std::unique_ptr<AnySub>> subs;
  const int nsubs = 1 + sim::C(3);
  for (int i = 0; i < nsubs; ++i) {
    subs.push_back(std::make_unique<AnySub>(sim::C(4), sim::C(3) ? 0 : sim::C(pre + 6)));
    if (!sim::C(4)) subs.back()->log.done_after = 1 + sim::C(6);
    if (!sim::C(4)) subs.back()->log.slow_us = sim::C(3000);
    if (!sim::C(6)) subs.back()->log.heads_done_after = 1 + sim::C(3);
    subs.back()->log.done_if_no_more = !sim::C(3);
    subs.back()->log.m = &m;
    if (!sim::C(5)) subs.back()->from_us = current::time::Now().count() + static_cast<int64_t>(sim::C(8000)) - 2000;
  }
  const bool heads = sim::CB(0.4);
  const bool own_locks = sim::CB(0.3);  // The way the storage publishes: with the mutex of the stream already locked.
  {
    h::Threads t;
    const int np = 1 + sim::C(3);
    for (int i = 0; i < np; ++i) {
      t.Go([&]() {
        const int ops = 1 + sim::W(12);
        for (int k = 0; k < ops; ++k) {
          if (heads && sim::WB(0.3)) { try { stream->Publisher()->UpdateHead(); } catch (const ss::InconsistentTimestampException&) { } continue; }
          const uint64_t id = m.NewId();
          if (own_locks) {
            std::lock_guard<std::mutex> lock(stream->Impl()->publishing_mutex);
            auto& p = *stream->template Publisher<locks::MutexLockStatus::AlreadyLocked>();
            m.Done(id, id % 2 ? p.template Publish<locks::MutexLockStatus::AlreadyLocked>(EvA(id, TextOf(id)))
                              : p.template Publish<locks::MutexLockStatus::AlreadyLocked>(EvB(id, id * 17)));
          } else {
            m.Done(id, Pub(*stream->Publisher(), id));
          }
          if (sim::WB(0.3)) sim::SleepUs(sim::W(2000));
        }
      });
    }
    for (auto& s : subs) { if (sim::WB(0.5)) sim::SleepUs(sim::W(3000)); s->Start(stream); }
  }
  sim::FaultsOff();
  m.CheckComplete();
  // Everything must get delivered.
  for (auto& s : subs) {
    const uint64_t want = stream->Data()->CurrentHead().count() < s->from_us ? 0 : s->Expected(m);  // Nothing is passed before the head gets to where it is to begin from.
    const bool ok = sim::WaitUntil([&]() { sim::Atomic a; return s->log.entries.size() >= want || s->log.said_done; }, 2000000);
    SIM_CHECK(ok, "not-delivered", "a subscriber of kind %d from %llu has got %zu entries of %llu", s->kind, (ull)s->begin, s->log.entries.size(), (ull)want);
    if (s->kind >= 2 && s->log.done_if_no_more && m.by_index.size() > s->begin && stream->Data()->CurrentHead().count() >= s->from_us && !s->Wants(m.by_index.rbegin()->second.id)) {
      SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return s->log.said_done; }, 2000000), "not-asked", "the subscriber of kind %d has not been asked whether to go on past the last entry", s->kind);
    }
    bool said_done;
    { sim::Atomic a; said_done = s->log.said_done; }
    if (said_done) {
      SIM_CHECK(sim::WaitUntil([&]() { return !s->scope; }, 2000000), "not-done", "the subscription whose subscriber is done is still on");
    } else if (heads && want && s->kind <= 1 && !s->log.done_after && !s->log.heads_done_after && m.by_index.size() > s->begin) {
      // The head gets there too.
      const int64_t head = stream->Data()->CurrentHead().count();
      const bool hok = sim::WaitUntil([&]() { sim::Atomic a; return (s->log.heads.empty() ? -1 : s->log.heads.back().second) == head || s->log.entries.back().us == head; }, 2000000);
      SIM_CHECK(hok, "head-not-delivered", "the head of %lld has not been delivered", (long long)head);
    }
  }
  sim::SleepUs(100000);
  uint64_t total = 0;
  for (auto& s : subs) {
    total += s->Check(m);
    const uint64_t want = stream->Data()->CurrentHead().count() < s->from_us ? 0 : s->Expected(m);
    SIM_CHECK(s->log.entries.size() == want, "delivery", "%zu entries instead of %llu", s->log.entries.size(), (ull)want);
    if (s->log.said_done) sim::Count("asked_for_no_more");
  }
  for (auto& s : subs) s->Stop();
  sim::Count("delivered", total);
  sim::Cover(Str("%llu %llu %llu", nsubs, m.Size(), total));
}
}  // namespace
SIM_SCENARIO("S02", memory_subscribers, 1.0) { Subscribers<MemStream>(); }
SIM_SCENARIO("S02", file_subscribers, 1.0) { Subscribers<FileStream>(); }

// ---- S03 -----------------------------------------------------------------------------------------------------------
namespace {
template <typename S> void Termination() {
  sim::SetLimits(200000000, 600ull * 1000000);
  h::Chaos();
  auto stream = std::make_unique<Owned<S>>(Make<S>::Go());
  Model m;
  std::vector<std::unique_ptr<AnySub>> subs;
  const int nsubs = 1 + sim::C(4);
  bool any_wait = false;
  for (int i = 0; i < nsubs; ++i) {
    subs.push_back(std::make_unique<AnySub>(sim::C(4), sim::C(3) ? 0 : sim::C(6)));
    if (!sim::C(4)) subs.back()->log.done_after = 1 + sim::C(6);
    if (!sim::C(3)) subs.back()->log.slow_us = sim::C(3000);
    if (!sim::C(4)) { subs.back()->log.wait_on_terminate = true; any_wait = true; }
  }
  // The subscribers which would rather wait only leave upon the next entry or head, so those must keep coming.
  std::atomic_bool stop(false);
  {
    h::Threads pubs;
    const int np = any_wait ? 1 + sim::C(2) : sim::C(3);
    for (int i = 0; i < np; ++i) {
      pubs.Go([&]() {
        const int ops = 1 + sim::W(10);
        for (int k = 0; k < ops || (any_wait && !stop); ++k) {
          // A waiting subscriber to one type must also see entries of the other type, hence the strict alternation.
          const uint64_t id = m.NewId();
          m.Done(id, Pub(*(*stream)->Publisher(), id));
          sim::SleepUs(k < ops ? sim::W(1000) : 20000);
        }
      });
    }
    {
      h::Threads t;
      for (auto& s : subs) {
        AnySub* p = s.get();
        t.Go([p, &stream]() {
          if (sim::WB(0.5)) sim::SleepUs(sim::W(4000));
          p->Start(*stream);
          if (sim::WB(0.7)) sim::SleepUs(sim::W(8000));
          if (sim::WB(0.3)) { stream::SubscriberScope moved(std::move(p->scope)); p->scope = std::move(moved); }
          const uint64_t t0 = sim::NowUs();
          if (sim::WB(0.3)) {
            // From two threads, while one more asks whether the subscription is on.
            std::thread other([p]() { p->scope = nullptr; sim::Atomic x; SIM_CHECK(!p->log.in_call, "still-in-call", "the scope is gone while the subscriber is in a call"); });
            std::thread asks([p]() { if (!p->scope && p->scope) sim::Fail("back-on", "a subscription which is over is on again"); });
            p->Stop();
            other.join();
            asks.join();
          } else {
            p->Stop();
          }
          const uint64_t took = sim::NowUs() - t0;
          SIM_CHECK(took < 60000000, "slow-stop", "it took %llu us to stop a subscriber", (ull)took);
          sim::Count("stopped");
        });
      }
    }
    stop = true;
  }
  sim::FaultsOff();
  for (auto& s : subs) s->Check(m);
  sim::SleepUs(50000);
  m.CheckComplete();
  m.CheckStored(*stream);
  stream = nullptr;
  sim::Cover(Str("%llu %llu", nsubs, m.Size()));
}

// The stream goes away while there are subscribers, the scopes of which are dropped from other threads.
template <typename S> void StreamDestruction() {
  sim::SetLimits(200000000, 600ull * 1000000);
  h::Chaos();
  auto stream = std::make_unique<Owned<S>>(Make<S>::Go());
  Model m;
  std::vector<std::unique_ptr<AnySub>> subs;
  const int nsubs = 1 + sim::C(3);
  for (int i = 0; i < nsubs; ++i) {
    subs.push_back(std::make_unique<AnySub>(sim::C(4), sim::C(3)));
    if (!sim::C(4)) subs.back()->log.done_after = 1 + sim::C(4);
    if (!sim::C(3)) subs.back()->log.slow_us = sim::C(3000);
  }
  for (auto& s : subs) s->Start(*stream);
  const int pubs = sim::C(10);
  h::Threads t;
  for (auto& s : subs) {
    AnySub* p = s.get();
    // It keeps the scope for as long as the subscription is on, so that the stream being destroyed is what ends it.
    t.Go([p]() {
      SIM_CHECK(sim::WaitUntil([p]() { return !p->scope; }, 400000000), "not-terminated", "the stream is being destroyed, and the subscription is still on");
      p->Stop();
    });
  }
  for (int i = 0; i < pubs; ++i) {
    const uint64_t id = m.NewId();
    m.Done(id, Pub(*(*stream)->Publisher(), id));
    if (sim::WB(0.3)) sim::SleepUs(sim::W(2000));
  }
  stream = nullptr;
  { sim::Atomic a; for (auto& s : subs) SIM_CHECK(!s->log.in_call, "still-in-call", "the stream is gone while a subscriber is in a call"); }
  t.Join();
  for (auto& s : subs) s->Check(m);
  sim::Count("destroyed");
  sim::Cover(Str("%llu %llu", nsubs, m.Size()));
}
}  // namespace
SIM_SCENARIO("S03", memory_subscriptions_end, 1.0) { Termination<MemStream>(); }
SIM_SCENARIO("S03", file_subscriptions_end, 1.0) { Termination<FileStream>(); }
SIM_SCENARIO("S03", memory_stream_destroyed, 1.0) { StreamDestruction<MemStream>(); }
SIM_SCENARIO("S03", file_stream_destroyed, 1.0) { StreamDestruction<FileStream>(); }

// ---- S04 -----------------------------------------------------------------------------------------------------------
namespace {
template <typename S> void Exclusivity() {
  sim::SetLimits(200000000, 600ull * 1000000);
  h::Chaos();
  auto stream = Make<S>::Go();
  using publisher_t = typename S::publisher_t;
  Model m;
  // The epoch is who may publish: it is incremented each time the publisher changes hands.
  uint64_t epoch = 1;
  std::atomic_bool stop(false);
  {
    h::Threads t;
    const int n = 1 + sim::C(3);
    for (int i = 0; i < n; ++i) {
      t.Go([&]() {
        while (!stop) {
          try {
            Borrowed<publisher_t> p = stream->BorrowPublisher();
            uint64_t my_epoch;
            { sim::Atomic a; my_epoch = epoch; }
            const int ops = 1 + sim::W(5);
            for (int k = 0; k < ops && p; ++k) {
              const uint64_t id = m.NewId();
              const auto r = Pub(*p, id);
              m.Done(id, r);
              // While this borrowed publisher is alive, nobody may take the publisher over.
              { sim::Atomic a; SIM_CHECK(epoch == my_epoch, "not-exclusive", "a publisher borrowed in epoch %llu has published in epoch %llu", (ull)my_epoch, (ull)epoch); }
              if (sim::WB(0.3)) sim::SleepUs(sim::W(1000));
            }
          } catch (const stream::PublisherNotAvailableException&) {
            sim::Count("not_available");
          }
          sim::SleepUs(1 + sim::W(1500));
        }
      });
    }
    const int flips = 1 + sim::W(4);
    for (int f = 0; f < flips; ++f) {
      sim::SleepUs(sim::W(4000));
      const uint64_t t0 = sim::NowUs();
      {
        Borrowed<publisher_t> mine = stream->BecomeFollowingStream();
        // From now on only `mine` may publish.
        uint64_t size;
        { sim::Atomic a; ++epoch; size = m.by_index.size(); }
        SIM_CHECK(!stream->IsMasterStream(), "not-following", "BecomeFollowingStream() has returned, and it is a master stream");
        const uint64_t stored = stream->Data()->Size();
        SIM_CHECK(!h::Throws([&]() { stream->Publisher(); }).empty(), "publisher-available", "the publisher of a following stream is available");
        const int own = sim::W(6);
        for (int k = 0; k < own; ++k) {
          const uint64_t id = m.NewId();
          const auto r = Pub(*mine, id);
          SIM_CHECK(r.index == stored + k, "not-exclusive", "somebody else has published into a following stream: index %llu, expected %llu (of %llu)", (ull)r.index, (ull)(stored + k), (ull)size);
          m.Done(id, r);
          if (sim::WB(0.3)) sim::SleepUs(sim::W(2000));
        }
        SIM_CHECK(stream->Data()->Size() == stored + own, "not-exclusive", "somebody else has published into a following stream");
        { sim::Atomic a; ++epoch; }
      }
      stream->BecomeMasterStream();
      SIM_CHECK(stream->IsMasterStream(), "not-master", "BecomeMasterStream() has returned, and it is not a master stream");
      { const uint64_t id = m.NewId(); m.Done(id, Pub(*stream->Publisher(), id)); }
      SIM_CHECK(sim::NowUs() - t0 < 100000000, "slow-flip", "a flip took %llu us", (ull)(sim::NowUs() - t0));
      sim::Count("flips");
    }
    stop = true;
  }
  sim::FaultsOff();
  m.CheckComplete();
  m.CheckStored(stream);
  sim::Cover(Str("%llu %llu", epoch, m.Size()));
}

// The publisher changes hands from several threads at a time.
template <typename S> void ConcurrentChanges() {
  sim::SetLimits(200000000, 600ull * 1000000);
  h::Chaos();
  auto stream = Make<S>::Go();
  using publisher_t = typename S::publisher_t;
  Model m;
  // The changes, in the order they begin. Once one has returned, all the publishers borrowed before it has begun must have been released.
  std::vector<char> change_done;
  const auto Begun = [&]() { sim::Atomic a; return change_done.size(); };
  const auto StillMine = [&](size_t borrowed_at) {
    sim::Atomic a;
    for (size_t i = borrowed_at; i < change_done.size(); ++i) SIM_CHECK(!change_done[i], "not-exclusive", "a publisher borrowed before the change %zu has begun is in use past it", i);
  };
  std::atomic_int changers(2 + sim::C(2));
  {
    h::Threads t;
    const int n = 1 + sim::C(2);
    for (int i = 0; i < n; ++i) {
      t.Go([&]() {
        while (changers) {
          try {
            Borrowed<publisher_t> p = stream->BorrowPublisher();
            const size_t at = Begun();
            const int ops = 1 + sim::W(5);
            for (int k = 0; k < ops && p; ++k) {
              const uint64_t id = m.NewId();
              m.Done(id, Pub(*p, id));
              StillMine(at);
              if (sim::WB(0.3)) sim::SleepUs(sim::W(500));
            }
          } catch (const stream::PublisherNotAvailableException&) {
            sim::Count("not_available");
          }
          sim::SleepUs(1 + sim::W(500));
        }
      });
    }
    const int nc = changers;
    for (int i = 0; i < nc; ++i) {
      t.Go([&]() {
        const int ops = 1 + sim::W(4);
        for (int f = 0; f < ops; ++f) {
          sim::SleepUs(sim::W(2000));
          size_t me;
          { sim::Atomic a; me = change_done.size(); change_done.push_back(0); }
          if (sim::WB()) {
            Borrowed<publisher_t> mine = stream->BecomeFollowingStream();
            { sim::Atomic a; change_done[me] = 1; }
            const size_t at = Begun();
            SIM_CHECK(!stream->IsMasterStream(), "not-following", "its publisher is with its only holder, and it is a master stream");
            SIM_CHECK(!h::Throws([&]() { stream->Publisher(); }).empty(), "publisher-available", "the publisher of a following stream is available");
            const uint64_t stored = stream->Data()->Size();
            const int own = sim::W(4);
            int k = 0;
            for (; k < own && mine; ++k) {
              const uint64_t id = m.NewId();
              const auto r = Pub(*mine, id);
              m.Done(id, r);
              SIM_CHECK(r.index == stored + k, "not-exclusive", "somebody else has published into a following stream: index %llu, expected %llu", (ull)r.index, (ull)(stored + k));
              StillMine(at);
              if (sim::WB(0.3)) sim::SleepUs(sim::W(500));
            }
            SIM_CHECK(stream->Data()->Size() == stored + k, "not-exclusive", "somebody else has published into a following stream");
          } else {
            stream->BecomeMasterStream();
            sim::Atomic a;
            change_done[me] = 1;
          }
          sim::Count("changes");
        }
        --changers;
      });
    }
  }
  sim::FaultsOff();
  stream->BecomeMasterStream();
  SIM_CHECK(stream->IsMasterStream(), "not-master", "BecomeMasterStream() has returned, and it is not a master stream");
  { const uint64_t id = m.NewId(); m.Done(id, Pub(*stream->Publisher(), id)); }
  m.CheckComplete();
  m.CheckStored(stream);
  sim::Cover(Str("%llu %llu", change_done.size(), m.Size()));
}
}  // namespace
SIM_SCENARIO("S04", memory_concurrent_changes, 0.7) { ConcurrentChanges<MemStream>(); }
SIM_SCENARIO("S04", file_concurrent_changes, 0.7) { ConcurrentChanges<FileStream>(); }
SIM_SCENARIO("S04", memory_exclusive_publisher, 1.0) { Exclusivity<MemStream>(); }
SIM_SCENARIO("S04", file_exclusive_publisher, 1.0) { Exclusivity<FileStream>(); }
