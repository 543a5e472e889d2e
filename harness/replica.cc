// R01: a follower is a copy of the master; R02: the master flips atomically.
#include "http_common.h"
#include "stream_common.h"
#include <condition_variable>
#include <deque>
#include "/repo/stream/replicator.h"

namespace {
using stream::SubscriptionMode;
using stream::SubscriberScope;
using stream::SubscribableRemoteStream;

constexpr uint64_t kBounded = 300000000;  // us of simulated time.

// The follower has a prefix of what the master has, exactly.
template <typename F> uint64_t CheckPrefix(F& follower, Model& m, const char* what) {
  const auto& p = *follower->Data();
  uint64_t i = 0;
  for (const auto& e : p.Iterate()) {
    CheckEv(e.entry);
    sim::Atomic a;
    const auto it = m.by_index.find(i);
    if (it == m.by_index.end()) {
      // Replicated before its publisher has returned.
      SIM_CHECK(m.attempted.count(IdOf(e.entry)) && !m.by_id.count(IdOf(e.entry)), "not-published", "%s: entry %llu, with ID %llu, has not been published under this index", what, (ull)i, (ull)IdOf(e.entry));
    } else {
      SIM_CHECK(e.idx_ts.index == i && e.idx_ts.us.count() == it->second.us && IdOf(e.entry) == it->second.id, "not-a-prefix", "%s: entry %llu is id %llu at %lld, while it has been published as id %llu at %lld", what, (ull)i,
                (ull)IdOf(e.entry), (ll)e.idx_ts.us.count(), (ull)it->second.id, (ll)it->second.us);
    }
    ++i;
  }
  return i;
}

string Url(uint16_t port, const char* path) { return "http://localhost:" + std::to_string(port) + path; }

// ---- R01: replication -----------------------------------------------------------------------------------------------
template <typename S> struct Master {
  uint16_t port = 0;
  std::unique_ptr<HTTPServerPOSIX> server;
  std::unique_ptr<Owned<S>> stream;
  HTTPServerPOSIX::HTTPRoutesScope scope;
  void ServerUp() {
    if (!port) {
      auto reserved = net::ReserveLocalPort();
      port = reserved;
      server = std::make_unique<HTTPServerPOSIX>(std::move(reserved));
    } else {
      server = std::make_unique<HTTPServerPOSIX>(net::BarePort(port));
    }
  }
  // To stop serving, the server connects to itself, which is the one connection which does not break.
  void ServerDown() {
    auto& k = sim::K();
    const double refuse = k.net_refuse, reset = k.net_reset;
    k.net_refuse = k.net_reset = 0;
    server = nullptr;
    k.net_refuse = refuse;
    k.net_reset = reset;
  }
  void Route() { scope += server->Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, **stream); }
};

// Something between the followers and the master: passes everything on, in chunks of its own.
struct Relay {
  const uint16_t master_port;
  const bool corrupt;  // Loses, repeats, and damages the lines now and then, and ends the responses early.
  bool quit = false, honest = false;
  int ls;
  uint16_t port;
  std::thread acceptor;
  const int cut = sim::C(3);
  int responses = 0;
  std::mutex mutex;
  std::condition_variable cv;
  std::deque<int> queue;
  size_t idle = 0;
  bool over = false;
  vector<std::thread> workers;
  void Work() {
    std::unique_lock<std::mutex> lock(mutex);
    while (true) {
      ++idle;
      while (queue.empty() && !over) cv.wait(lock);
      --idle;
      if (queue.empty()) return;
      const int fd = queue.front();
      queue.pop_front();
      lock.unlock();
      { RawConn c(fd, true); Serve(c); }
      lock.lock();
    }
  }
  Relay(uint16_t master_port, bool corrupt) : master_port(master_port), corrupt(corrupt) {
    ls = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ::bind(ls, reinterpret_cast<sockaddr*>(&a), sizeof a);
    ::listen(ls, 64);
    socklen_t len = sizeof a;
    ::getsockname(ls, reinterpret_cast<sockaddr*>(&a), &len);
    port = ntohs(a.sin_port);
    acceptor = std::thread([this]() {
      while (true) {
        const int fd = ::accept(ls, nullptr, nullptr);
        if (fd < 0) { if (errno == EINTR || errno == ECONNABORTED) continue; break; }
        { sim::Atomic x; if (quit) { ::close(fd); break; } }
        // As many threads as there are connections at a time.
        std::lock_guard<std::mutex> lock(mutex);
        queue.push_back(fd);
        if (queue.size() > idle) workers.emplace_back([this]() { Work(); });
        else cv.notify_one();
      }
    });
  }
  ~Relay() { Stop(); }
  // By now the master has gone.
  void Stop() {
    if (ls < 0) return;
    { sim::Atomic x; quit = true; }
    { RawConn knock(port); }
    acceptor.join();
    { std::lock_guard<std::mutex> lock(mutex); over = true; cv.notify_all(); }
    for (auto& t : workers) t.join();
    ::close(ls);
    ls = -1;
  }
  void Honest() { sim::Atomic x; honest = true; }
  struct Reader {
    RawConn& c;
    bool ok = true;
    string buffer;
    bool More() {
      char b[2048];
      while (ok) {
        const ssize_t n = ::recv(c.fd, b, sizeof b, 0);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) ok = false; else buffer.append(b, n);
        break;
      }
      return ok;
    }
    string Line() {
      size_t e;
      while ((e = buffer.find("\r\n")) == string::npos) if (!More()) return "";
      const string r = buffer.substr(0, e);
      buffer.erase(0, e + 2);
      return r;
    }
    string Bytes(size_t n) {
      while (buffer.size() < n) if (!More()) return "";
      const string r = buffer.substr(0, n);
      buffer.erase(0, n);
      return r;
    }
  };
  static string Chunk(const string& s) { char x[32]; snprintf(x, sizeof x, "%zx\r\n", s.size()); return x + s + "\r\n"; }
  void Serve(RawConn& c) {
    string request;
    Reader q{c};
    while (q.buffer.find("\r\n\r\n") == string::npos) if (!q.More()) return;
    request = q.buffer;
    RawConn up(master_port);
    if (up.fd < 0 || !up.Send(request)) { sim::SleepUs(5000); return; }
    Reader r{up};
    string head, line;
    size_t length = 0;
    bool chunked = false;
    do {
      line = r.Line();
      if (!r.ok) { sim::SleepUs(5000); return; }
      head += line + "\r\n";
      if (!line.compare(0, 16, "Content-Length: ")) length = strtoul(line.c_str() + 16, nullptr, 10);
      if (line.find("Transfer-Encoding: chunked") == 0) chunked = true;
    } while (!line.empty());
    if (!chunked) { c.Send(head + r.Bytes(length)); return; }
    if (!c.Send(head)) return;
    sim::Count("relayed_responses");
    string held;
    bool lost = false;
    { sim::Atomic x; ++responses; }
    while (true) {
      const size_t n = strtoul(r.Line().c_str(), nullptr, 16);
      if (!r.ok) return;
      string piece = r.Bytes(n);
      r.Line();
      if (!r.ok) return;
      if (!n) break;
      bool evil = corrupt && sim::WB(0.15);
      { sim::Atomic x; evil = evil && !honest; }
      if (evil) {
        sim::Count("relay_corruptions");
        switch (sim::W(4)) {
          case 0: if (piece.find('\t') != string::npos) lost = true; piece.clear(); break;
          case 1: piece += piece; break;
          case 2: piece = piece.substr(0, 1 + sim::W(piece.size() - 1)) + "\n"; break;
          case 3: c.Send(Chunk(held + piece.substr(0, 1 + sim::W(piece.size()))) + Chunk("")); return;
        }
      }
      // There is no telling that an entry has been lost from the head which follows it.
      if (lost && piece.find('\t') == string::npos) piece.clear();
      if (!piece.empty()) lost = false;
      held += piece;
      // Whole, in a few pieces, or in very many of them; what does not make it into this chunk may make it into the next one.
      const size_t keep = cut == 2 && r.buffer.size() > 10 ? sim::W(5) : 0;
      while (held.size() > keep) {
        const size_t k = cut == 0 ? held.size() : 1 + sim::W(cut == 1 ? held.size() : std::min<size_t>(held.size(), 4));
        if (!c.Send(Chunk(held.substr(0, k)))) return;
        held.erase(0, k);
      }
    }
    c.Send((held.empty() ? "" : Chunk(held)) + Chunk(""));
  }
};

template <typename S, typename FS> struct Follow {
  using replicator_t = stream::StreamReplicator<FS>;
  using remote_t = SubscribableRemoteStream<Ev>;
  Owned<FS> stream;
  replicator_t replicator;
  std::unique_ptr<remote_t> remote;
  std::unique_ptr<SubscriberScope> sub;
  int done_callbacks = 0, subscriptions = 0;
  bool unchecked = sim::CB(), subscribe_checked = sim::CB();
  explicit Follow(Owned<FS>&& s) : stream(std::move(s)), replicator(Borrowed<FS>(stream)) {}
  void Subscribe(const string& url) {
    if (!remote) {
      // The remote stream may well be unavailable.
      while (true) {
        try { remote = std::make_unique<remote_t>(url); break; } catch (const Exception& e) { sim::Log("no remote stream"); sim::SleepUs(500000); }
      }
    }
    const auto mode = subscribe_checked ? SubscriptionMode::Checked : SubscriptionMode::Unchecked;
    const uint64_t i = stream->Data()->Size();
    const auto us = stream->Data()->CurrentHead() + microseconds(1);
    ++subscriptions;
    const auto done = [this]() { sim::Atomic a; ++done_callbacks; };
    if (unchecked) sub = std::make_unique<typename remote_t::template RemoteSubscriberScopeUnchecked<replicator_t>>(remote->SubscribeUnchecked(replicator, i, us, mode, done));
    else sub = std::make_unique<typename remote_t::template RemoteSubscriberScope<replicator_t>>(remote->Subscribe(replicator, i, us, mode, done));
  }
  void Unsubscribe(const char* what) {
    const uint64_t t0 = sim::NowUs();
    sub = nullptr;
    SIM_CHECK(sim::NowUs() - t0 < kBounded, "slow-unsubscribe", "%s: it took %llu us to unsubscribe", what, (ull)(sim::NowUs() - t0));
    sim::Atomic a;
    SIM_CHECK(done_callbacks == subscriptions, "done-callback", "%s: the done callback has been called %d times for %d subscriptions", what, done_callbacks, subscriptions);
  }
};

template <typename S, typename FS> void Replicate(bool lossy, bool restarts, bool relayed = false) {
  sim::SetLimits(600000000, 6000ull * 1000000);
  h::Chaos(0.5);
  // The intense chaos would only slow the runs down.
  Model m;
  Master<S> master;
  master.ServerUp();
  master.stream = std::make_unique<Owned<S>>(Make<S>::Go());
  master.Route();
  uint64_t head_us = 0;
  const auto publish = [&]() {
    const uint64_t id = m.NewId();
    m.Done(id, Pub(*(*master.stream)->Publisher(), id));
  };
  const int pre = sim::C(2) ? sim::C(12) : 0;
  for (int i = 0; i < pre; ++i) publish();
  NetChaos(lossy);
  const bool corrupt = relayed && sim::CB();
  if (relayed) sim::K().net_reset *= 0.1;  // Small chunks make for many more operations to break.
  auto relay = relayed ? std::make_unique<Relay>(master.port, corrupt) : nullptr;
  const uint16_t port = relayed ? relay->port : master.port;
  const bool heads = sim::CB(0.4);
  bool publishers_done = false;
  const int nf = 1 + sim::C(2);
  vector<std::unique_ptr<Follow<S, FS>>> f;
  for (int i = 0; i < nf; ++i) {
    if constexpr (std::is_same_v<FS, FileStream>) f.push_back(std::make_unique<Follow<S, FS>>(FileStream::CreateStream(sim::RunDir() + "/f" + std::to_string(i))));
    else f.push_back(std::make_unique<Follow<S, FS>>(Make<FS>::Go()));
  }
  // An unchecked follower takes whatever it is given.
  if (corrupt) for (auto& x : f) x->unchecked = false;
  h::Threads pubs, subs;
  int followers_left = nf;
  for (int i = 0; i < nf; ++i) {
    auto* const me = f[i].get();
    subs.Go([&, me]() {
      const int rounds = 1 + sim::W(3);
      for (int k = 0; k < rounds; ++k) {
        if (sim::WB()) sim::SleepUs(sim::W(5000));
        me->Subscribe(Url(port, "/s"));
        if (sim::WB(0.3)) CheckPrefix(me->stream, m, "while following");
        if (sim::WB(0.8)) sim::SleepUs(sim::W(sim::WB() ? 500000 : 10000));
        if (k + 1 < rounds) {
          if (sim::WB(0.3)) {
            // The remote stream goes first; then its destructor is to wait for the subscription to go.
            std::thread t([me]() { me->remote = nullptr; });
            if (sim::WB()) sim::SleepUs(sim::W(2000));
            me->Unsubscribe("the remote stream is being destroyed");
            t.join();
          } else {
            me->Unsubscribe("while publishing");
          }
          CheckPrefix(me->stream, m, "after unsubscribing");
        }
      }
      sim::Atomic a;
      --followers_left;
    });
  }
  if (!restarts) {
    const int np = 1 + sim::C(2);
    for (int i = 0; i < np; ++i) {
      pubs.Go([&]() {
        const int ops = sim::W(14);
        for (int k = 0; k < ops; ++k) {
          if (heads && sim::WB(0.4)) { try { (*master.stream)->Publisher()->UpdateHead(); } catch (const ss::InconsistentTimestampException&) { } }
          else publish();
          if (sim::WB(0.6)) sim::SleepUs(sim::W(sim::WB(0.2) ? 300000 : 2500));
        }
      });
    }
    if (sim::CB(0.3)) {
      sim::SleepUs(sim::W(8000));
      sim::NetPartition(true);
      sim::SleepUs(sim::W(300000));
      sim::NetPartition(false);
      sim::Count("partitions");
    }
  } else {
    // Goes down, and back up, on the same port.
    const int lives = 1 + sim::W(3);
    for (int life = 0; life <= lives; ++life) {
      const int ops = sim::W(8);
      for (int k = 0; k < ops; ++k) {
        publish();
        if (heads && sim::WB(0.3)) { try { (*master.stream)->Publisher()->UpdateHead(); } catch (const ss::InconsistentTimestampException&) { } }
        if (sim::WB(0.6)) sim::SleepUs(sim::W(sim::WB(0.2) ? 300000 : 2500));
      }
      if (life == lives) break;
      sim::Count("master_restarts");
      const int how = sim::W(4);
      if (how == 0) sim::NetResetAll();
      master.scope = nullptr;
      if (how <= 1) {
        master.stream = nullptr;
        if (sim::WB()) { master.ServerDown(); if (sim::WB()) sim::SleepUs(sim::W(30000)); master.ServerUp(); }
        master.stream = std::make_unique<Owned<S>>(Make<S>::Go());
      } else if (how == 2) {
        master.ServerDown();
        if (sim::WB()) sim::SleepUs(sim::W(30000));
        master.ServerUp();
      } else if (sim::WB()) {
        sim::SleepUs(sim::W(30000));
      }
      master.Route();
    }
  }
  pubs.Join();
  SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return followers_left == 0; }, kBounded, 10000), "not-subscribed", "a follower can not subscribe");
  subs.Join();
  if (sim::CB(0.3)) sim::SleepUs(sim::W(100000));
  sim::FaultsOff();
  // What has been lost last is only noticed as the follower reconnects.
  if (corrupt) { relay->Honest(); sim::NetResetAll(); }
  m.CheckComplete();
  m.CheckStored(*master.stream);
  const uint64_t total = m.by_index.size();
  const auto head = (*master.stream)->Data()->CurrentHead();
  for (auto& x : f) {
    SIM_CHECK(sim::WaitUntil([&]() { return x->stream->Data()->Size() >= total && x->stream->Data()->CurrentHead() >= head; }, kBounded, 10000), "not-converged", "the follower has %llu entries and the head of %lld, the master has %llu and %lld",
              (ull)x->stream->Data()->Size(), (ll)x->stream->Data()->CurrentHead().count(), (ull)total, (ll)head.count());
    m.CheckStored(x->stream);
    SIM_CHECK(x->stream->Data()->CurrentHead() == head, "head", "the head of the follower is %lld, of the master %lld", (ll)x->stream->Data()->CurrentHead().count(), (ll)head.count());
    sim::Count("replicated_entries", total);
    sim::Cover("r" + std::to_string(total) + std::to_string(x->subscriptions) + std::to_string(x->unchecked) + std::to_string(x->subscribe_checked));
  }
  if (relayed && !lossy && !restarts && !corrupt) {
    int subscriptions = 0;
    for (auto& x : f) subscriptions += x->subscriptions;
    sim::Atomic a;
    SIM_CHECK(relay->responses <= 2 * subscriptions, "reconnects", "%d connections for %d subscriptions, with nothing ever broken", relay->responses, subscriptions);
  }
  // Unsubscribe, with whatever might get in the way.
  const int end = sim::C(4);
  if (end == 0) { master.scope = nullptr; master.stream = nullptr; master.ServerDown(); }
  if (end == 1) { master.scope = nullptr; }
  if (end == 2) { master.scope = nullptr; master.ServerDown(); }
  if (lossy && sim::CB(0.5)) { auto& k = sim::K(); k.net_reset = relayed ? 0.003 : 0.1; k.net_refuse = relayed ? 0.1 : 0.3; }
  // It takes the remote stream to be reachable, eventually.
  std::thread back([&]() { if (end == 1 || end == 2) { sim::SleepUs(sim::W(60000)); if (end == 2) master.ServerUp(); master.Route(); } });
  for (auto& x : f) { x->Unsubscribe("at the end"); m.CheckStored(x->stream); }
  back.join();
  sim::FaultsOff();
  master.scope = nullptr;
  if (relayed) { master.stream = nullptr; relay->Stop(); }
}

// ---- R01: a subscriber of its own ------------------------------------------------------------------------------------
struct RemoteSubImpl {
  using EntryResponse = ss::EntryResponse;
  using TerminationResponse = ss::TerminationResponse;
  Model* m = nullptr;
  uint64_t next = 0, stop_at = ~0ull;
  int64_t last_us = -1;
  int terminates = 0;
  bool done = false, wait = false, gone = false;
  virtual ~RemoteSubImpl() {}
  EntryResponse Next() {
    ++next;
    if (next >= stop_at || (wait && terminates)) { done = true; return EntryResponse::Done; }
    return EntryResponse::More;
  }
  EntryResponse operator()(const Ev& e, idxts_t current, idxts_t) {
    sim::Atomic a;
    SIM_CHECK(!done && !gone, "after-done", "an entry after the subscriber was done");
    CheckEv(e);
    SIM_CHECK(current.index == next, "order", "entry %llu where %llu is expected", (ull)current.index, (ull)next);
    SIM_CHECK(current.us.count() > last_us, "order", "the timestamps do not increase");
    last_us = current.us.count();
    const auto it = m->by_index.find(next);
    if (it != m->by_index.end()) SIM_CHECK(it->second.id == IdOf(e) && it->second.us == last_us, "content", "entry %llu is not the one published", (ull)next);
    return Next();
  }
  EntryResponse operator()(const string& raw, uint64_t index, idxts_t) {
    sim::Atomic a;
    SIM_CHECK(!done && !gone, "after-done", "an entry after the subscriber was done");
    const size_t tab = raw.find('\t');
    const auto it = ParseJSON<idxts_t>(raw.substr(0, tab));
    const Ev e = ParseJSON<Ev>(raw.substr(tab + 1));
    CheckEv(e);
    SIM_CHECK(it.index == next && index == next, "order", "entry %llu, passed as %llu, where %llu is expected", (ull)it.index, (ull)index, (ull)next);
    last_us = it.us.count();
    const auto x = m->by_index.find(next);
    if (x != m->by_index.end()) SIM_CHECK(x->second.id == IdOf(e) && x->second.us == last_us, "content", "entry %llu is not the one published", (ull)next);
    return Next();
  }
  EntryResponse operator()(microseconds us) {
    sim::Atomic a;
    SIM_CHECK(!done && !gone, "after-done", "a head after the subscriber was done");
    SIM_CHECK(us.count() > last_us, "order", "the head of %lld after %lld", (ll)us.count(), (ll)last_us);
    last_us = us.count();
    return EntryResponse::More;
  }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return EntryResponse::More; }
  TerminationResponse Terminate() {
    sim::Atomic a;
    ++terminates;
    SIM_CHECK(terminates == 1, "terminated-twice", "the subscriber is terminated twice");
    if (done) return TerminationResponse::Terminate;
    return wait ? TerminationResponse::Wait : TerminationResponse::Terminate;
  }
};
using RemoteSub = ss::StreamSubscriber<RemoteSubImpl, Ev>;

void Subscriber(bool lossy, bool relayed = false) {
  sim::SetLimits(600000000, 6000ull * 1000000);
  h::Chaos(0.5);
  Model m;
  Master<MemStream> master;
  master.ServerUp();
  master.stream = std::make_unique<Owned<MemStream>>(Make<MemStream>::Go());
  master.Route();
  auto relay = relayed ? std::make_unique<Relay>(master.port, false) : nullptr;
  const uint16_t port = relayed ? relay->port : master.port;
  const auto publish = [&]() { const uint64_t id = m.NewId(); m.Done(id, Pub(*(*master.stream)->Publisher(), id)); };
  const int pre = sim::C(10);
  for (int i = 0; i < pre; ++i) publish();
  NetChaos(lossy);
  const bool unchecked = sim::CB(), destroy_remote = sim::CB(0.3);
  const auto mode = sim::CB() ? SubscriptionMode::Checked : SubscriptionMode::Unchecked;
  h::Threads t;
  t.Go([&]() {
    const int ops = sim::W(12);
    for (int k = 0; k < ops; ++k) {
      publish();
      if (sim::WB(0.3)) { try { (*master.stream)->Publisher()->UpdateHead(); } catch (const ss::InconsistentTimestampException&) { } }
      if (sim::WB(0.6)) sim::SleepUs(sim::W(2500));
    }
  });
  if (relayed) sim::K().net_reset *= 0.1;
  RemoteSub s;
  s.m = &m;
  s.next = sim::W(pre + 1);
  s.wait = sim::WB(0.2);
  if (sim::WB()) s.stop_at = s.next + 1 + sim::W(10);
  std::unique_ptr<SubscribableRemoteStream<Ev>> remote;
  while (!remote) { try { remote = std::make_unique<SubscribableRemoteStream<Ev>>(Url(port, "/s")); } catch (const Exception&) { sim::SleepUs(300000); } }
  int dones = 0;
  std::unique_ptr<SubscriberScope> scope;
  const auto done = [&]() { sim::Atomic a; ++dones; };
  if (unchecked) scope = std::make_unique<SubscribableRemoteStream<Ev>::RemoteSubscriberScopeUnchecked<RemoteSub>>(remote->SubscribeUnchecked(s, s.next, microseconds(0), mode, done));
  else scope = std::make_unique<SubscribableRemoteStream<Ev>::RemoteSubscriberScope<RemoteSub>>(remote->Subscribe(s, s.next, microseconds(0), mode, done));
  if (sim::WB(0.7)) sim::SleepUs(sim::W(20000));
  if (sim::WB()) {
    t.Join();
    sim::FaultsOff();
    const auto over = [&]() { sim::Atomic a; return s.done || (s.stop_at > m.by_index.size() && s.next == m.by_index.size()); };
    SIM_CHECK(sim::WaitUntil(over, kBounded, 5000), "not-delivered", "the subscriber has got up to %llu of %zu", (ull)s.next, m.by_index.size());
    bool d;
    { sim::Atomic a; d = s.done; }
    if (d) SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return dones == 1; }, kBounded, 5000), "done-callback", "the subscriber is done, its done callback has not been called");
    if (lossy && sim::WB()) { auto& k = sim::K(); k.net_reset = relayed ? 0.003 : 0.1; k.net_refuse = relayed ? 0.1 : 0.3; }
  }
  // The one which is to wait for more gets more.
  bool gone = false;
  std::thread more([&]() { while (s.wait) { bool enough; { sim::Atomic a; if (gone) break; enough = m.by_index.size() > s.next + 20; } if (!enough) publish(); sim::SleepUs(100000); } });
  const uint64_t t0 = sim::NowUs();
  if (destroy_remote) {
    std::thread x([&]() { remote = nullptr; });
    if (sim::WB()) sim::SleepUs(sim::W(3000));
    scope = nullptr;
    x.join();
  } else {
    scope = nullptr;
  }
  SIM_CHECK(sim::NowUs() - t0 < kBounded, "slow-unsubscribe", "it took %llu us to unsubscribe", (ull)(sim::NowUs() - t0));
  {
    { sim::Atomic a; s.gone = gone = true; }
    more.join();
    sim::Atomic a;
    SIM_CHECK(dones == 1, "done-callback", "the done callback has been called %d times", dones);
    SIM_CHECK(s.done || s.terminates, "terminate", "the subscriber has not been told that it is over");
    SIM_CHECK(!s.wait || s.done, "wait", "the subscriber has asked to wait, and it has been let go with no more entries");
  }
  t.Join();
  sim::FaultsOff();
  if (sim::WB(0.3)) sim::SleepUs(10000);
  sim::Cover("s" + std::to_string(s.next) + std::to_string(s.done) + std::to_string(s.terminates));
  remote = nullptr;
  master.scope = nullptr;
  if (relayed) { master.stream = nullptr; relay->Stop(); }
}
}  // namespace

SIM_SCENARIO("R01", memory_to_memory, 2) { Replicate<MemStream, MemStream>(false, false); }
SIM_SCENARIO("R01", memory_to_file_lossy, 3) { Replicate<MemStream, FileStream>(true, false); }
SIM_SCENARIO("R01", file_to_memory_restarts, 3) { Replicate<FileStream, MemStream>(false, true); }
SIM_SCENARIO("R01", file_to_file_restarts_lossy, 2) { Replicate<FileStream, FileStream>(true, true); }
SIM_SCENARIO("R01", subscriber, 1) { Subscriber(false); }
SIM_SCENARIO("R01", subscriber_lossy, 2) { Subscriber(true); }
SIM_SCENARIO("R01", relayed_memory_to_memory, 1) { Replicate<MemStream, MemStream>(false, false, true); }
SIM_SCENARIO("R01", relayed_memory_to_file_lossy, 2) { Replicate<MemStream, FileStream>(true, false, true); }
SIM_SCENARIO("R01", relayed_file_to_memory_restarts, 1) { Replicate<FileStream, MemStream>(false, true, true); }
SIM_SCENARIO("R01", relayed_subscriber_lossy, 1) { Subscriber(true, true); }
