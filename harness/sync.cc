// B01, B02, B03, Q01, Q02: ownership, synchronisation, time, and in-process message queues.
#include "common.h"
#include "/repo/bricks/sync/owned_borrowed.h"
#include "/repo/bricks/sync/waitable_atomic.h"
#include "/repo/bricks/time/chrono.h"
#include "/repo/bricks/util/waitable_terminate_signal.h"
#include "/repo/blocks/mmq/mmq.h"
#include "/repo/blocks/mmq/mmpq.h"
#include "/repo/ripcurrent/ripcurrent.h"

using namespace current;
using std::chrono::microseconds;
using ull = unsigned long long;

namespace {
std::string Str(const char* fmt, ull a, ull b = 0, ull c = 0, ull d = 0) {
  char x[128];
  snprintf(x, sizeof x, fmt, a, b, c, d);
  return x;
}

// ---- B01: Owned and Borrowed ---------------------------------------------------------------------------------------
struct Obj {
  uint64_t magic = 0x1234567890abcdefull;
  int64_t counter = 0;
  int64_t counter2 = 0;  // Equals to `counter` unless it is being changed.
  std::atomic<uint64_t> uses{0};
  int* alive;
  int* borrowers;
  explicit Obj(int* alive, int* borrowers) : alive(alive), borrowers(borrowers) { ++*alive; }
  ~Obj() {
    SIM_CHECK(*borrowers == 0, "destroyed-while-borrowed", "the object is destroyed with %d borrowers still there", *borrowers);
    magic = 0;
    --*alive;
  }
};
struct Shared { int alive = 0; int borrowers = 0; bool owner_leaving = false; uint64_t callbacks = 0; uint64_t callbacks_due = 0; };
// Accounts for one live borrower; constructed after the real one, destroyed before it.
struct Mark {
  Shared* s;
  explicit Mark(Shared& s) : s(&s) { sim::Atomic a; ++s.borrowers; SIM_CHECK(s.alive == 1, "dangling", "borrowed an object which is gone"); }
  ~Mark() { sim::Atomic a; SIM_CHECK(s->alive == 1, "dangling", "the object is gone before its borrower"); --s->borrowers; }
};
// All the four flavors of an exclusive use. Returns the value of the counter.
inline int64_t Increment(Obj& o) {
  SIM_CHECK(o.counter == o.counter2, "exclusive", "an exclusive use overlaps another one");
  const int64_t c = o.counter;
  o.counter = c + 1;
  if (sim::WB(0.6)) sim::Yield();
  SIM_CHECK(o.counter == c + 1 && o.counter2 == c, "exclusive", "an exclusive use overlaps another one");
  o.counter2 = c + 1;
  return c + 1;
}
inline int64_t Read(const Obj& o) {
  const int64_t c = o.counter;
  SIM_CHECK(o.counter2 == c, "exclusive", "an exclusive read overlaps a change");
  if (sim::WB(0.6)) sim::Yield();
  SIM_CHECK(o.counter2 == c && o.counter == c, "exclusive", "an exclusive read overlaps a change");
  return c;
}
template <typename B> int64_t ExclusiveIncrement(B& b) {
  sim::Count("exclusive_uses");
  int64_t r = 0;
  if (sim::WB()) b.ExclusiveUse([&r](Obj& o) { r = Increment(o); });
  else r = b.template ExclusiveUse<int64_t>([](Obj& o) { return Increment(o); });
  return r;
}
template <typename B> int64_t ExclusiveRead(const B& b) {
  int64_t r = 0;
  if (sim::WB()) b.ExclusiveUse([&r](const Obj& o) { r = Read(o); });
  else r = b.template ExclusiveUse<int64_t>([](const Obj& o) { return Read(o); });
  return r;
}
template <typename B> void Use(B& b, Shared& s) {
  SIM_CHECK(b->magic == 0x1234567890abcdefull, "dangling", "a borrowed object is gone");
  ++b->uses;
  if (sim::WB(0.3)) ExclusiveIncrement(b);
  if (sim::WB(0.2)) ExclusiveRead(b);
  SIM_CHECK(s.alive == 1, "dangling", "a borrowed object is gone");
}
void Ownership() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  Shared s;
  auto owned = std::make_unique<Owned<Obj>>(MakeOwned<Obj>(&s.alive, &s.borrowers));
  if (sim::CB(0.3)) { Owned<Obj> tmp(std::move(*owned)); owned = std::make_unique<Owned<Obj>>(std::move(tmp)); }
  const int n = 1 + sim::C(4);
  uint64_t exclusive = 0;
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      // Each of the threads starts with a borrowed object of its own, as there is no other legal way.
      auto first = std::make_shared<std::unique_ptr<Borrowed<Obj>>>(std::make_unique<Borrowed<Obj>>(*owned));
      const bool with_callback = sim::WB(0.4);
      const bool wait_for_callback = with_callback && sim::WB(0.7);
      t.Go([first, with_callback, wait_for_callback, &s]() {
        std::unique_ptr<Borrowed<Obj>> b = std::move(*first);
        {
          Mark m(s);
          const int ops = sim::W(6);
          for (int k = 0; k < ops; ++k) {
            switch (sim::W(6)) {
              case 0: Use(*b, s); break;
              case 1: { Borrowed<Obj> c(*b); Mark m2(s); Use(c, s); break; }
              case 2: { Borrowed<Obj> c(*b); { Mark m2(s); Use(c, s); } c = nullptr; SIM_CHECK(!c, "valid", "a released borrower is valid"); break; }
              case 3: { Borrowed<Obj> c(*b); Borrowed<Obj> d(std::move(c)); Mark m2(s); SIM_CHECK(!c, "valid", "a moved away borrower is valid"); Use(d, s); break; }
              case 4: { Borrowed<Obj> c(*b); *b = std::move(c); Use(*b, s); break; }
              default: if (*b) Use(*b, s); sim::SleepUs(sim::W(200)); break;
            }
          }
        }
        if (with_callback) {
          // Hands the borrowing over to one with a callback, to learn that the owner is leaving.
          struct Cb { bool called = false; bool gone = false; uint64_t pad[16]; };
          auto cb = std::make_unique<Cb>();
          Cb* p = cb.get();
          bool was_called;
          {
            const bool by_move = sim::WB();
            auto callback = [p, &s]() {
              SIM_CHECK(!p->gone, "callback-after-release", "the callback of a released borrower is called");
              SIM_CHECK(!p->called, "callback-twice", "the callback of a borrower is called twice");
              SIM_CHECK(s.owner_leaving, "callback-early", "a callback is called while the owner is not leaving");
              if (sim::WB(0.5)) sim::SleepUs(sim::W(300));
              SIM_CHECK(!p->gone, "callback-after-release", "the borrower is released while its callback is being called");
              p->called = true;
            };
            std::unique_ptr<BorrowedWithCallback<Obj>> bc;
            if (by_move) bc = std::make_unique<BorrowedWithCallback<Obj>>(std::move(*b), callback);
            else bc = std::make_unique<BorrowedWithCallback<Obj>>(*b, callback);
            b = nullptr;
            {
              Mark m(s);
              if (wait_for_callback) {
                // No borrower which waits for the callback may be left without one: that would be a deadlock.
                SIM_CHECK(sim::WaitUntil([p]() { return p->called; }, 400000000), "no-callback", "the owner is leaving, and the callback of its borrower is not called");
                SIM_CHECK(!*bc, "valid", "the owner is leaving, and the borrower is valid");
              } else {
                sim::SleepUs(sim::W(400));
              }
              Use(*bc, s);
            }
            bc = nullptr;
            was_called = p->called;
          }
          { sim::Atomic a; p->gone = true; }
          if (sim::WB()) sim::SleepUs(sim::W(300));
          SIM_CHECK(p->called == was_called, "callback-after-release", "the callback of a released borrower is called");
          sim::Count(was_called ? "callbacks" : "no_callbacks");
          // `cb` is freed here: a late call of the callback is a use after free.
        } else {
          b = nullptr;
        }
      });
    }
    if (sim::WB(0.6)) sim::SleepUs(sim::W(1500));
    if (sim::WB(0.3)) { const size_t now = owned->NumberOfActiveBorrowers(); SIM_CHECK(now <= owned->TotalBorrowersSpawnedThroughoutLifetime(), "count", "%zu active borrowers", now); }
    Use(*owned, s);
    s.owner_leaving = true;
    owned = nullptr;
    sim::Atomic a;
    SIM_CHECK(s.alive == 0 && s.borrowers == 0, "not-destroyed", "the owner is gone, and the object is not");
  }
  (void)exclusive;
  sim::Cover(Str("%llu", n));
}
// Exclusive uses do exclude each other; the object is movable between owners while borrowed.
void OwnershipExclusive() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  Shared s;
  Owned<Obj> owned = MakeOwned<Obj>(&s.alive, &s.borrowers);
  const int n = 2 + sim::C(3);
  const int ops = 1 + sim::C(6);
  {
    h::Threads t;
    std::vector<Borrowed<Obj>> bs;
    for (int i = 0; i < n; ++i) bs.push_back(Borrowed<Obj>(owned));
    SIM_CHECK(owned.NumberOfActiveBorrowers() == static_cast<size_t>(n), "count", "%zu active borrowers instead of %d", owned.NumberOfActiveBorrowers(), n);
    for (int i = 0; i < n; ++i) {
      auto b = std::make_shared<Borrowed<Obj>>(std::move(bs[i]));
      t.Go([b, ops]() {
        for (int k = 0; k < ops; ++k) {
          const int64_t mine = ExclusiveIncrement(*b);
          const int64_t x = ExclusiveRead(*b);
          SIM_CHECK(x >= mine, "exclusive", "the counter goes from %lld to %lld", (long long)mine, (long long)x);
          SIM_CHECK(x > k, "exclusive", "the counter is %lld after %d increments", (long long)x, k + 1);
        }
      });
    }
  }
  SIM_CHECK(owned->counter == n * ops, "exclusive", "%d exclusive increments, the counter is %lld", n * ops, (long long)owned->counter);
  SIM_CHECK(owned.NumberOfActiveBorrowers() == 0, "count", "%zu active borrowers instead of none", owned.NumberOfActiveBorrowers());
}
// The callbacks release their own borrowers, and of others.
void OwnershipReleaseFromCallback() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  Shared s;
  auto owned = std::make_unique<Owned<Obj>>(MakeOwned<Obj>(&s.alive, &s.borrowers));
  const int n = 1 + sim::C(4);
  struct Slot { std::mutex mutex; std::unique_ptr<BorrowedWithCallback<Obj>> b; uint64_t called = 0; bool released = false; };
  std::vector<std::unique_ptr<Slot>> slots;
  for (int i = 0; i < n; ++i) slots.push_back(std::make_unique<Slot>());
  const auto release = [&s](Slot& slot) {
    // Whoever takes the borrower away is the one to release it.
    std::unique_ptr<BorrowedWithCallback<Obj>> b;
    { std::lock_guard<std::mutex> lock(slot.mutex); b = std::move(slot.b); }
    if (!b) return false;
    Use(*b, s);
    { sim::Atomic a; --s.borrowers; }
    if (sim::WB()) *b = nullptr;
    b = nullptr;
    { sim::Atomic a; slot.released = true; }
    return true;
  };
  for (int i = 0; i < n; ++i) {
    Slot* mine = slots[i].get();
    Slot* other = sim::WB(0.4) ? slots[sim::W(n)].get() : nullptr;
    const bool nothing = sim::WB(0.3);
    ++s.borrowers;
    mine->b = std::make_unique<BorrowedWithCallback<Obj>>(*owned, [mine, other, nothing, &release, &s]() {
      SIM_CHECK(s.owner_leaving, "callback-early", "a callback is called while the owner is not leaving");
      SIM_CHECK(!mine->released, "callback-after-release", "the callback of a released borrower is called");
      SIM_CHECK(++mine->called == 1, "callback-twice", "the callback of a borrower is called twice");
      if (sim::WB(0.3)) sim::SleepUs(sim::W(300));
      if (!nothing) {
        if (release(*mine)) sim::Count("released_by_callback");
        if (other) release(*other);
      }
    });
  }
  h::Threads t;
  for (int i = 0; i < n; ++i) {
    Slot* slot = slots[i].get();
    // Some are released by their own threads, possibly while or before the callbacks are called.
    t.Go([slot, &release]() { sim::SleepUs(sim::W(1500)); release(*slot); });
  }
  if (sim::WB(0.8)) sim::SleepUs(sim::W(1500));
  s.owner_leaving = true;
  owned = nullptr;
  { sim::Atomic a; SIM_CHECK(s.alive == 0 && s.borrowers == 0, "not-destroyed", "the owner is gone, and the object is not"); }
  t.Join();
}
// A borrower which asks to be valid only uses the object, while the owner is leaving; borrowers of borrowers.
void OwnershipPolling() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  Shared s;
  auto owned = std::make_unique<Owned<Obj>>(MakeOwned<Obj>(&s.alive, &s.borrowers));
  const int n = 1 + sim::C(3);
  h::Threads t;
  for (int i = 0; i < n; ++i) {
    auto first = std::make_shared<std::unique_ptr<Borrowed<Obj>>>(std::make_unique<Borrowed<Obj>>(*owned));
    t.Go([first, &s]() {
      std::unique_ptr<Borrowed<Obj>> b = std::move(*first);
      while (*b) {
        Borrowed<Obj> c(*b);
        Mark m(s);
        Use(c, s);
        sim::SleepUs(1 + sim::W(300));
      }
      // It may still be used until released.
      { Mark m(s); Use(*b, s); }
      b = nullptr;
    });
  }
  sim::SleepUs(sim::W(2000));
  s.owner_leaving = true;
  owned = nullptr;
  { sim::Atomic a; SIM_CHECK(s.alive == 0, "not-destroyed", "the owner is gone, and the object is not"); }
  t.Join();
}
}  // namespace
SIM_SCENARIO("B01", ownership, 2.0) { Ownership(); }
SIM_SCENARIO("B01", ownership_exclusive, 1.0) { OwnershipExclusive(); }
SIM_SCENARIO("B01", ownership_release_from_callback, 1.0) { OwnershipReleaseFromCallback(); }
SIM_SCENARIO("B01", ownership_polling, 1.0) { OwnershipPolling(); }

// ---- B02: WaitableAtomic -------------------------------------------------------------------------------------------
namespace {
struct Tokens { int64_t available = 0; int64_t taken = 0; int64_t a = 0, b = 0; uint64_t version = 0; };
void Waitable() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  WaitableAtomic<Tokens> w;
  const int np = 1 + sim::C(3), nc = 1 + sim::C(3);
  const int each = 1 + sim::C(5);
  int64_t total = 0;
  std::vector<int> consume(nc, 0);
  for (int i = 0; i < np * each; ++i) ++consume[sim::W(nc)];
  {
    h::Threads t;
    for (int i = 0; i < np; ++i) {
      t.Go([&]() {
        for (int k = 0; k < each; ++k) {
          if (sim::WB(0.4)) sim::SleepUs(sim::W(500));
          auto put = [](Tokens& x) {
            SIM_CHECK(x.a == x.b, "not-exclusive", "a mutable access overlaps another one");
            ++x.a;
            sim::Yield();
            ++x.available;
            ++x.b;
          };
          switch (sim::W(4)) {
            case 0: w.MutableUse(put); break;
            case 1: { auto p = w.MutableScopedAccessor(); put(*p); break; }
            case 2: w.PotentiallyMutableUse([&](Tokens& x) { put(x); return true; }); break;
            default: {
              // Read, and then replace as a whole, conditionally.
              bool done = false;
              while (!done) {
                Tokens now = w.GetValue();
                SIM_CHECK(now.a == now.b, "torn-read", "a value which is being modified is read");
                Tokens next = now;
                ++next.a; ++next.b; ++next.available; ++next.version;
                w.SetValueIf([&](const Tokens& x) { done = x.a == now.a && x.taken == now.taken && x.version == now.version && x.available == now.available; return done; }, next);
              }
            }
          }
        }
      });
    }
    for (int i = 0; i < nc; ++i) {
      t.Go([&, i]() {
        for (int k = 0; k < consume[i]; ++k) {
          bool got = false;
          while (!got) {
            if (sim::WB(0.3)) {
              const uint64_t t0 = sim::NowUs();
              const uint64_t d = 1 + sim::W(1000);
              bool seen = false;
              const bool r = w.WaitFor([&](const Tokens& x) { seen = x.available > 0; return seen; }, microseconds(d));
              SIM_CHECK(r == seen, "wait-for", "WaitFor() returns %d, having seen %d", r, seen);
              if (!r) SIM_CHECK(sim::NowUs() >= t0 + d, "wait-for", "WaitFor() has given up after %llu us of %llu", (ull)(sim::NowUs() - t0), (ull)d);
            } else {
              // Must wake up: all the tokens will have been put sooner or later. Hanging here is a deadlock.
              SIM_CHECK(w.Wait([](const Tokens& x) { return x.available > 0; }), "wait", "Wait() returns false");
            }
            got = w.PotentiallyMutableUse([](Tokens& x) {
              SIM_CHECK(x.a == x.b, "not-exclusive", "a mutable access overlaps another one");
              if (x.available <= 0) return false;
              ++x.a;
              --x.available;
              ++x.taken;
              ++x.b;
              return true;
            });
          }
          sim::Atomic a;
          ++total;
        }
      });
    }
  }
  const Tokens end = *w.ImmutableScopedAccessor();
  SIM_CHECK(end.available == 0 && end.taken == np * each && total == np * each, "lost", "%d tokens put, %lld taken, %lld left", np * each, (long long)end.taken, (long long)end.available);
  sim::Count("tokens", total);
  sim::Cover(Str("%llu %llu %llu", np, nc, each));
}
// Everyone waiting for a value wakes up, by each of the means of changing it.
void WaitableBroadcast() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  WaitableAtomic<int> w(0);
  const int n = 1 + sim::C(4), rounds = 1 + sim::C(4);
  std::vector<std::atomic<int>> at(n);
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&, i]() {
        for (int r = 1; r <= rounds; ++r) {
          w.Wait([r](const int& x) { return x >= r; });
          at[i] = r;
        }
      });
    }
    for (int r = 1; r <= rounds; ++r) {
      if (sim::WB()) sim::SleepUs(sim::W(400));
      switch (sim::W(5)) {
        case 0: w.SetValue(r); break;
        case 1: *w.MutableScopedAccessor() = r; break;
        case 2: w.MutableUse([r](int& x) { x = r; }); break;
        case 3: w.SetValueIf([](const int&) { return false; }, -1); w.SetValueIf([](const int&) { return true; }, r); break;
        default: w.PotentiallyMutableUse([](int&) { return false; }); w.PotentiallyMutableUse([r](int& x) { x = r; return true; }); break;
      }
      // Nobody else will notify: everyone has to have been woken up by that very change.
      const bool ok = sim::WaitUntil([&]() { for (auto& x : at) if (x < r) return false; return true; }, 100000000, 50);
      SIM_CHECK(ok, "lost-wakeup", "the value is %d, and somebody is still waiting for it", r);
    }
  }
}
void WaitableIntrusive() {
  sim::SetLimits(50000000, 36000ull * 1000000);
  h::Chaos();
  using W = WaitableAtomic<int, true>;
  auto owner = std::make_unique<W>(0);
  W* const w = owner.get();
  const int n = 1 + sim::C(3);
  int inside = 0;
  std::atomic<int> registered(0);
  bool leaving = false;
  uint64_t left_at = 0;
  h::Threads t;
  for (int i = 0; i < n; ++i) {
    t.Go([&]() {
      {
        auto client = w->RegisterScopedClient();
        SIM_CHECK(client, "not-registered", "a client can not be registered with a live object");
        ++registered;
        { sim::Atomic a; ++inside; }
        bool alive = true;
        int next = 1;
        while (alive) {
          if (sim::WB(0.3)) {
            // A wait with a very long timeout is to be aborted too.
            bool seen = false;
            const uint64_t t0 = sim::NowUs();
            const uint64_t d = sim::WB() ? 1 + sim::W(500) : 1000000000;
            const bool r = w->WaitFor([&seen, next](const int& x) { seen = x >= next; return seen; }, microseconds(d));
            const uint64_t t1 = sim::NowUs();
            sim::Atomic a;
            if (r) SIM_CHECK(seen, "wait-for", "WaitFor() returns true, and the condition is not met");
            if (!r) SIM_CHECK(leaving || t1 >= t0 + d, "wait-for", "WaitFor() has given up after %llu us of %llu", (ull)(t1 - t0), (ull)d);
            alive = client;
            if (r) ++next;
          } else {
            alive = w->Wait([next](const int& x) { return x >= next; });
            if (!alive) { sim::Atomic a; SIM_CHECK(leaving, "wait", "Wait() returns false with the object alive"); }
            if (alive) next = w->GetValue() + 1;
          }
        }
        SIM_CHECK(!client, "client-valid", "the object is being destroyed, and its client does not know");
        if (sim::WB()) sim::SleepUs(sim::W(300));
        { sim::Atomic a; --inside; left_at = std::max<uint64_t>(left_at, sim::NowUs()); }
      }
    });
  }
  SIM_CHECK(sim::WaitUntil([&]() { return registered == n; }, 100000000), "internal", "");
  const int changes = sim::W(4);
  for (int k = 0; k < changes; ++k) { *w->MutableScopedAccessor() += 1; if (sim::WB()) sim::SleepUs(sim::W(300)); }
  leaving = true;
  const uint64_t leaving_at = sim::NowUs();
  owner = nullptr;
  {
    sim::Atomic a;
    SIM_CHECK(inside == 0, "destroyed-early", "the object is destroyed with %d clients still there", inside);
    SIM_CHECK(left_at < leaving_at + 500000000, "not-aborted", "a pending wait has not been aborted for %llu us", (ull)(left_at - leaving_at));
  }
  t.Join();
}
// The termination signal, alone and via the bulk notifier.
void TerminateSignal() {
  sim::SetLimits(50000000, 600ull * 1000000);
  h::Chaos();
  std::mutex mutex;
  uint64_t value = 0;
  WaitableTerminateSignalBulkNotifier bulk;
  const int n = 1 + sim::C(3);
  struct Waiter { WaitableTerminateSignal signal; std::atomic<uint64_t> seen{0}; std::atomic<bool> left{false}; };
  std::vector<std::unique_ptr<Waiter>> ws;
  for (int i = 0; i < n; ++i) ws.push_back(std::make_unique<Waiter>());
  h::Threads t;
  for (int i = 0; i < n; ++i) {
    Waiter* w = ws[i].get();
    t.Go([&, w]() {
      while (true) {
        std::unique_lock<std::mutex> lock(mutex);
        WaitableTerminateSignalBulkNotifier::Scope scope(bulk, w->signal);
        const uint64_t seen = w->seen;
        const bool signalled = w->signal;
        const bool term = w->signal.WaitUntil(lock, [&]() { return value > seen; });
        SIM_CHECK(term || !signalled, "signal", "WaitUntil() does not report a termination which had been signalled");
        SIM_CHECK(lock.owns_lock(), "lock", "WaitUntil() returns with the lock released");
        if (term) { SIM_CHECK(w->signal, "signal", "WaitUntil() reports a termination which was not signalled"); break; }
        SIM_CHECK(value > seen, "spurious", "WaitUntil() returns with neither the condition met nor the termination signalled");
        w->seen = value;
      }
      w->left = true;
    });
  }
  const int events = sim::W(6);
  for (int k = 0; k < events; ++k) {
    { std::lock_guard<std::mutex> lock(mutex); ++value; }
    bulk.NotifyAllOfExternalWaitableEvent();
    if (sim::WB(0.6)) sim::SleepUs(sim::W(1000));
  }
  // The termination may well be signalled with the events not noticed yet.
  if (sim::WB(0.7)) {
    const bool ok = sim::WaitUntil([&]() { for (auto& w : ws) if (w->seen < value) return false; return true; }, 1000000);
    SIM_CHECK(ok, "lost-wakeup", "an event has not been noticed within a second");
  }
  for (auto& w : ws) w->signal.SignalExternalTermination();
  SIM_CHECK(sim::WaitUntil([&]() { for (auto& w : ws) if (!w->left) return false; return true; }, 1000000), "lost-wakeup", "the termination has not been noticed within a second");
  t.Join();
}
}  // namespace
SIM_SCENARIO("B02", waitable, 1.0) { Waitable(); }
SIM_SCENARIO("B02", waitable_broadcast, 1.0) { WaitableBroadcast(); }
SIM_SCENARIO("B02", waitable_intrusive, 1.0) { WaitableIntrusive(); }
SIM_SCENARIO("B02", terminate_signal, 1.0) { TerminateSignal(); }

// ---- B03: the clock ------------------------------------------------------------------------------------------------
namespace {
void Clock() {
  sim::SetLimits(50000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.7)) { sim::K().clock_jump = sim::CB() ? 0.3 : 0.05; sim::K().clock_jump_max_us = sim::CB() ? 20 : sim::CB() ? 5000000 : 86400000000ll; }
  if (sim::CB(0.4)) sim::K().clock_coarse = true;
  const int n = 1 + sim::C(4);
  std::set<int64_t> all;
  int64_t latest_done = -1;  // The largest value returned so far.
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&]() {
        const int ops = 1 + sim::W(20);
        int64_t prev = -1;
        for (int k = 0; k < ops; ++k) {
          int64_t before;
          { sim::Atomic a; before = latest_done; }
          const int64_t wall0 = sim::WallUs();
          const int64_t now = current::time::Now().count();
          sim::Atomic a;
          SIM_CHECK(now > prev, "not-increasing", "the clock goes from %lld to %lld", (long long)prev, (long long)now);
          SIM_CHECK(now > before, "not-increasing", "the clock reads %lld after %lld has been returned", (long long)now, (long long)before);
          SIM_CHECK(all.insert(now).second, "not-unique", "the clock has returned %lld twice", (long long)now);
          prev = now;
          latest_done = std::max(latest_done, now);
          (void)wall0;
        }
      });
    }
  }
  // Once the wall clock is sane again and ahead, the clock follows it.
  sim::FaultsOff();
  sim::K().clock_coarse = false;
  const int64_t ahead = latest_done + 1000000;
  sim::SetWall(ahead);
  const int64_t now = current::time::Now().count();
  SIM_CHECK(now >= ahead && now < ahead + 1000000, "does-not-follow", "the clock reads %lld with the wall clock at %lld", (long long)now, (long long)ahead);
  const int64_t until = now + static_cast<int64_t>(sim::W(100000));
  current::time::SleepUntil(microseconds(until));
  // The clock itself may run ahead of the wall clock by as many microseconds as there were reads of it.
  SIM_CHECK(current::time::Now().count() >= until - 10, "woke-early", "SleepUntil() has returned before its time");
  sim::Count("clock_reads", all.size());
}
}  // namespace
SIM_SCENARIO("B03", clock, 1.0) { Clock(); }

// ---- Q01: MMQ ------------------------------------------------------------------------------------------------------
namespace {
struct Msg {
  int publisher = -1;
  uint64_t seq = 0;
  std::string body;
  Msg() = default;
  Msg(int p, uint64_t s) : publisher(p), seq(s), body(h::Payload(p * 1000 + s, (s * 13) % 50)) {}
  void Check() const { SIM_CHECK(body == h::Payload(publisher * 1000 + seq, (seq * 13) % 50), "corrupted", "the message %d:%llu is corrupted", publisher, (ull)seq); }
};
struct Got { int publisher; uint64_t seq; idxts_t cur, last; };
struct ConsumerImpl {
  std::vector<Got> got;
  uint64_t begun = 0;
  bool in_call = false;
  uint64_t slow = 0;
  int thread = -1;
  bool queue_gone = false;
  uint64_t acknowledged = 0;        // The largest index returned to a publisher so far.
  uint64_t acknowledged_before = 0;  // Same, as of the end of the previous call.
  ss::EntryResponse operator()(Msg&& m, idxts_t cur, idxts_t last) {
    SIM_CHECK(last.index >= acknowledged_before, "last", "the last message is said to be %llu, while %llu has been acknowledged before", (ull)last.index, (ull)acknowledged_before);
    SIM_CHECK(!queue_gone, "called-after-destruction", "the consumer is called after the queue is gone");
    SIM_CHECK(!in_call, "concurrent-calls", "the consumer is called concurrently with itself");
    SIM_CHECK(thread < 0 || thread == sim::ThreadId(), "two-threads", "the consumer is called from two threads");
    thread = sim::ThreadId();
    in_call = true;
    ++begun;
    Msg mine(std::move(m));
    mine.Check();
    if (slow) sim::SleepUs(slow);
    { sim::Atomic a; got.push_back({mine.publisher, mine.seq, cur, last}); }
    in_call = false;
    acknowledged_before = acknowledged;
    return ss::EntryResponse::More;
  }
  ss::EntryResponse operator()(const Msg& m, idxts_t cur, idxts_t last) { return operator()(Msg(m), cur, last); }
};
using Consumer = ss::EntrySubscriber<ConsumerImpl, Msg>;

template <bool DROP> void Queue() {
  sim::SetLimits(50000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.3)) { sim::K().clock_jump = 0.1; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  if (sim::CB(0.3)) sim::K().clock_coarse = true;
  Consumer c;
  if (sim::CB(0.5)) c.slow = 1 + sim::C(500);
  const size_t capacity = 1 + sim::C(5);
  const bool own_ts = sim::CB(0.3);
  const bool wait_before_destruction = sim::CB(0.5);
  const int np = 1 + sim::C(4);
  std::map<std::pair<int, uint64_t>, idxts_t> accepted;
  std::set<std::pair<int, uint64_t>> dropped;
  uint64_t attempts = 0, finished = 0;
  using Q = mmq::MMQ<Msg, Consumer, 1024, DROP>;
  {
    Q q(c, capacity);
    {
      h::Threads t;
      for (int i = 0; i < np; ++i) {
        t.Go([&, i]() {
          const int ops = 1 + sim::W(12);
          uint64_t last_index = 0;
          int64_t last_us = -1;
          for (int k = 0; k < ops; ++k) {
            uint64_t freed, others;
            { sim::Atomic a; ++attempts; freed = c.begun ? c.begun - 1 : 0; }
            idxts_t r;
            bool refused = false;
            int64_t us = -1;
            try {
              const Msg m(i, k);
              if (own_ts && sim::WB()) {
                us = sim::WallUs() + static_cast<int64_t>(sim::W(2000)) - 500;
                r = q.Publish(m, microseconds(us));
                if (r.index) SIM_CHECK(r.us.count() == us, "timestamp", "published at %lld, with the timestamp of %lld", (long long)r.us.count(), (long long)us);
              } else if (sim::WB()) {
                r = q.Publish(m);
              } else {
                r = q.Publish(Msg(i, k));
              }
            } catch (const ss::InconsistentTimestampException&) {
              SIM_CHECK(own_ts, "refused", "a message with the default timestamp is refused");
              refused = true;
              sim::Count("refused");
            }
            sim::Atomic a;
            ++finished;
            if (refused) {
              --attempts;  // It takes no room.
              --finished;
              continue;
            }
            if (r.index) {
              SIM_CHECK(accepted.insert({{i, k}, r}).second, "internal", "");
              SIM_CHECK(r.index > last_index && r.us.count() > last_us, "not-increasing", "published as (%llu, %lld) after (%llu, %lld)", (ull)r.index, (long long)r.us.count(), (ull)last_index, (long long)last_us);
              last_index = r.index;
              last_us = r.us.count();
              c.acknowledged = std::max(c.acknowledged, r.index);
            } else {
              SIM_CHECK(DROP, "dropped", "a message has been dropped by a queue which does not drop");
              others = attempts - 1 - dropped.size();
              SIM_CHECK(own_ts || others >= freed + capacity, "dropped", "a message is dropped with at most %lld of %zu slots taken", (long long)(others - freed), capacity);
              dropped.insert({i, k});
              sim::Count("dropped");
            }
            if (sim::WB(0.3)) { sim::NoPreempt(false); sim::SleepUs(sim::W(600)); sim::NoPreempt(true); }
          }
        });
      }
    }
    if (wait_before_destruction) {
      const bool ok = sim::WaitUntil([&]() { sim::Atomic a; return c.got.size() >= accepted.size(); }, 100000000);
      SIM_CHECK(ok, "not-delivered", "%zu messages of %zu delivered", c.got.size(), accepted.size());
    }
  }
  c.queue_gone = true;
  // Exactly the accepted messages, in the order of their indexes, which have no gaps.
  SIM_CHECK(c.got.size() == accepted.size(), c.got.size() < accepted.size() ? "lost" : "duplicated", "%zu messages accepted, %zu delivered", accepted.size(), c.got.size());
  std::map<int, uint64_t> next;
  for (size_t i = 0; i < c.got.size(); ++i) {
    const Got& g = c.got[i];
    const auto it = accepted.find({g.publisher, g.seq});
    SIM_CHECK(it != accepted.end(), "delivery", "%d:%llu is delivered, while it has not been accepted", g.publisher, (ull)g.seq);
    SIM_CHECK(g.cur.index == i + 1, "order", "the delivery %zu has the index of %llu", i, (ull)g.cur.index);
    SIM_CHECK(it->second.index == g.cur.index && it->second.us == g.cur.us, "index", "%d:%llu was accepted as (%llu, %lld), and is delivered as (%llu, %lld)", g.publisher, (ull)g.seq,
              (ull)it->second.index, (long long)it->second.us.count(), (ull)g.cur.index, (long long)g.cur.us.count());
    if (i) SIM_CHECK(g.cur.us > c.got[i - 1].cur.us, "timestamps", "the message at %lld is delivered after the one at %lld", (long long)g.cur.us.count(), (long long)c.got[i - 1].cur.us.count());
    SIM_CHECK(g.last.index >= g.cur.index && g.last.us >= g.cur.us, "last", "the last message is behind the present one");
    SIM_CHECK(!next.count(g.publisher) || g.seq >= next[g.publisher], "order", "the messages of one publisher are delivered out of order");
    next[g.publisher] = g.seq + 1;
  }
  sim::Count("delivered", c.got.size());
  sim::Cover(Str("%llu %llu %llu %llu", np, capacity, c.got.size(), dropped.size()));
}
}  // namespace
SIM_SCENARIO("Q01", mmq_waiting, 1.0) { Queue<false>(); }
SIM_SCENARIO("Q01", mmq_dropping, 1.0) { Queue<true>(); }

// ---- Q02: MMPQ and RipCurrent --------------------------------------------------------------------------------------
namespace {
void PriorityQueue() {
  sim::SetLimits(50000000, 3600ull * 1000000);
  h::Chaos();
  Consumer c;
  if (sim::CB(0.4)) c.slow = 1 + sim::C(300);
  const int np = 1 + sim::C(3);
  const int span = 1 + sim::C(30);  // A small one makes equal timestamps likely.
  std::map<std::pair<int, uint64_t>, int64_t> published;
  int64_t max_head = 0;
  const bool wait_before_destruction = sim::CB(0.5);
  {
    mmq::MMPQ<Msg, Consumer> q(c);
    {
      h::Threads t;
      for (int i = 0; i < np; ++i) {
        t.Go([&, i]() {
          const int ops = 1 + sim::W(10);
          for (int k = 0; k < ops; ++k) {
            const int64_t us = 1000 + static_cast<int64_t>(sim::W(span));
            q.Publish(Msg(i, k), microseconds(us));
            { sim::Atomic a; published[{i, k}] = us; }
            if (sim::WB(0.2)) sim::SleepUs(sim::W(300));
            if (sim::WB(0.3)) {
              const int64_t head = 1000 + static_cast<int64_t>(sim::W(span));
              try { q.UpdateHead(microseconds(head)); sim::Atomic a; max_head = std::max(max_head, head); } catch (const ss::InconsistentTimestampException&) { }
            }
          }
        });
      }
    }
    // Nothing past the head may have been delivered; everything up to it will be.
    auto due = [&](int64_t head) { uint64_t n = 0; for (const auto& p : published) n += p.second <= head; return n; };
    bool ok = sim::WaitUntil([&]() { sim::Atomic a; return c.got.size() >= due(max_head); }, 100000000);
    SIM_CHECK(ok, "lost", "%zu messages delivered of the %llu which are due by %lld", c.got.size(), (ull)due(max_head), (long long)max_head);
    { sim::Atomic a; for (const auto& g : c.got) SIM_CHECK(g.cur.us.count() <= max_head, "early", "the message at %lld is delivered with the head at %lld", (long long)g.cur.us.count(), (long long)max_head); }
    q.UpdateHead(microseconds(1000 + span));
    if (wait_before_destruction) {
      ok = sim::WaitUntil([&]() { sim::Atomic a; return c.got.size() >= published.size(); }, 100000000);
      SIM_CHECK(ok, "lost", "%zu messages delivered of %zu", c.got.size(), published.size());
    }
  }
  c.queue_gone = true;
  SIM_CHECK(c.got.size() == published.size(), c.got.size() < published.size() ? "lost" : "duplicated", "%zu messages delivered of %zu", c.got.size(), published.size());
  std::set<std::pair<int, uint64_t>> seen;
  int64_t head_at = -1;
  for (size_t i = 0; i < c.got.size(); ++i) {
    const Got& g = c.got[i];
    SIM_CHECK(seen.insert({g.publisher, g.seq}).second, "duplicated", "%d:%llu is delivered twice", g.publisher, (ull)g.seq);
    const auto it = published.find({g.publisher, g.seq});
    SIM_CHECK(it != published.end() && it->second == g.cur.us.count(), "timestamp", "%d:%llu is delivered with the timestamp of %lld", g.publisher, (ull)g.seq, (long long)g.cur.us.count());
    SIM_CHECK(g.cur.us <= g.last.us, "early", "the message at %lld is delivered with the head at %lld", (long long)g.cur.us.count(), (long long)g.last.us.count());
    SIM_CHECK(g.last.us.count() >= head_at, "head", "the head goes back");
    // Out of order with the previous one is only possible if it was published late, that is when the head was past it.
    if (i && g.cur.us < c.got[i - 1].cur.us) sim::Count("late");
    // Equal timestamps: first come, first served.
    if (i && g.cur.us == c.got[i - 1].cur.us && g.publisher == c.got[i - 1].publisher) SIM_CHECK(g.seq > c.got[i - 1].seq, "order", "messages with the same timestamp are delivered out of order");
    head_at = g.last.us.count();
  }
  sim::Count("delivered", c.got.size());
  sim::Cover(Str("%llu %llu %llu", np, span, c.got.size()));
}
}  // namespace
SIM_SCENARIO("Q02", mmpq, 1.0) { PriorityQueue(); }

CURRENT_STRUCT(RcMsg) {
  CURRENT_FIELD(publisher, int32_t, 0);
  CURRENT_FIELD(seq, uint64_t, 0);
  CURRENT_CONSTRUCTOR(RcMsg)(int32_t publisher = 0, uint64_t seq = 0) : publisher(publisher), seq(seq) {}
};
namespace {
struct Flow {
  uint64_t emitted = 0;
  std::vector<int> threads_per_emitter;
  int ops = 0;
  std::vector<std::pair<int, uint64_t>> got;
  int in_call[4] = {0, 0, 0, 0};
  uint64_t slow = 0;
  bool gone = false;
};
RIPCURRENT_NODE(RcEmit, void, RcMsg) {
  Flow* flow;
  std::vector<std::thread> threads;
  RcEmit(Flow& f, int emitter) : flow(&f) {
    const int ops = f.ops;
    for (int i = 0; i < f.threads_per_emitter[emitter]; ++i) {
      const int id = emitter * 10 + i;
      threads.emplace_back([this, id, ops]() {
        for (int k = 0; k < ops; ++k) {
          emit<RcMsg>(id, static_cast<uint64_t>(k));
          { sim::Atomic a; ++flow->emitted; }
          if (sim::WB(0.3)) sim::SleepUs(sim::W(300));
        }
      });
    }
  }
  ~RcEmit() { for (auto& t : threads) t.join(); }
};
#define RcEmit(...) RIPCURRENT_MACRO(RcEmit, __VA_ARGS__)
RIPCURRENT_NODE(RcPass, RcMsg, RcMsg) {
  Flow* flow;
  RcPass(Flow& f) : flow(&f) {}
  void f(RcMsg m) {
    SIM_CHECK(flow->in_call[1]++ == 0, "concurrent-calls", "a block is called concurrently with itself");
    if (sim::WB(0.2)) sim::SleepUs(sim::W(100));
    emit<RcMsg>(m.publisher, m.seq);
    --flow->in_call[1];
  }
};
#define RcPass(...) RIPCURRENT_MACRO(RcPass, __VA_ARGS__)
RIPCURRENT_NODE(RcSink, RcMsg, void) {
  Flow* flow;
  RcSink(Flow& f) : flow(&f) {}
  void f(RcMsg m) {
    SIM_CHECK(!flow->gone, "called-after-join", "a block is called after the flow has been joined");
    SIM_CHECK(flow->in_call[2]++ == 0, "concurrent-calls", "a block is called concurrently with itself");
    if (flow->slow) sim::SleepUs(flow->slow);
    { sim::Atomic a; flow->got.push_back({m.publisher, m.seq}); }
    --flow->in_call[2];
  }
};
#define RcSink(...) RIPCURRENT_MACRO(RcSink, __VA_ARGS__)

void RunFlow() {
  sim::SetLimits(50000000, 3600ull * 1000000);
  h::Chaos();
  if (sim::CB(0.3)) { sim::K().clock_jump = 0.1; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  if (sim::CB(0.3)) sim::K().clock_coarse = true;
  Flow f;
  f.ops = 1 + sim::C(5);
  if (sim::CB(0.3)) f.slow = 1 + sim::C(200);
  f.threads_per_emitter = {1 + static_cast<int>(sim::C(3)), 1 + static_cast<int>(sim::C(2))};
  const auto error_scope = Singleton<ripcurrent::RipCurrentMockableErrorHandler>().ScopedInjectHandler(
      [](const std::string& e) { sim::Fail("flow-error", "a flow reports an error: %s", e.c_str()); });
  int emitters = 1;
  const int shape = sim::C(4);
  switch (shape) {
    case 0: (RcEmit(std::ref(f), 0) | RcSink(std::ref(f))).RipCurrent().Join(); break;
    case 1: (RcEmit(std::ref(f), 0) | RcPass(std::ref(f)) | RcSink(std::ref(f))).RipCurrent().Join(); break;
    case 2: emitters = 2; ((RcEmit(std::ref(f), 0) + RcEmit(std::ref(f), 1)) | RcSink(std::ref(f))).RipCurrent().Join(); break;
    default: emitters = 2; ((RcEmit(std::ref(f), 0) + RcEmit(std::ref(f), 1)) | RcPass(std::ref(f)) | RcSink(std::ref(f))).RipCurrent().Join(); break;
  }
  f.gone = true;
  uint64_t want = 0;
  for (int i = 0; i < emitters; ++i) want += f.threads_per_emitter[i] * f.ops;
  SIM_CHECK(f.emitted == want, "internal", "%llu emitted", (ull)f.emitted);
  SIM_CHECK(f.got.size() == want, f.got.size() < want ? "lost" : "duplicated", "%llu messages emitted, %zu received", (ull)want, f.got.size());
  std::map<int, uint64_t> next;
  for (const auto& g : f.got) SIM_CHECK(g.second == next[g.first]++, "order", "the messages of one thread are received out of order");
  sim::Count("delivered", want);
  sim::Cover(Str("%llu %llu", shape, want));
}
}  // namespace
SIM_SCENARIO("Q02", ripcurrent, 1.0) { RunFlow(); }
