// R02: the master flips atomically.
#include "http_common.h"
#include "stream_common.h"
#include "/repo/stream/replicator.h"

namespace {
using stream::SubscriptionMode;
using stream::SubscribableRemoteStream;
using stream::MasterFlipController;
using stream::MasterFlipRestrictions;

constexpr uint64_t kBounded = 300000000;  // us of simulated time.
string Url(uint16_t port, const char* path = "/s") { return "http://localhost:" + std::to_string(port) + path; }
uint16_t NewServer() {
  auto reserved = net::ReserveLocalPort();
  const uint16_t port = reserved;
  auto& server = HTTP(std::move(reserved));
  static_cast<void>(server);
  return port;
}

template <typename S, stream::ReplicationMode RM> struct Node {
  using ctl_t = MasterFlipController<S, stream::StreamReplicator<S>, RM>;
  uint16_t port = NewServer();
  std::unique_ptr<ctl_t> ctl;
  uint64_t key = 0;
  bool exposed = false;
  int following = -1;  // As the operator knows it.
  // (The completed flip is reported from a detached thread.)
  struct Counters { int started = 0, finished = 0, canceled = 0; };
  std::shared_ptr<Counters> counters = std::make_shared<Counters>();
  int &started = counters->started, &finished = counters->finished, &canceled = counters->canceled;
  static Owned<S> Create(int i) {
    if constexpr (std::is_same_v<S, FileStream>) return FileStream::CreateStream(sim::RunDir() + "/n" + std::to_string(i)); else return Make<S>::Go();
  }
  void Expose(MasterFlipRestrictions r = MasterFlipRestrictions()) {
    key = ctl->ExposeViaHTTP(port, "/s", r, [c = counters]() { sim::Atomic a; ++c->started; }, [c = counters]() { sim::Atomic a; ++c->finished; }, [c = counters]() { sim::Atomic a; ++c->canceled; });
    exposed = true;
  }
};

// ---- Chains of flips between the nodes, with publishers which do not care which of them is the master -------------------
template <typename S, stream::ReplicationMode RM> void Flips(bool lossy) {
  using node_t = Node<S, RM>;
  sim::SetLimits(600000000, 20000ull * 1000000);
  h::Chaos(0.3);
  Model m;
  const int n = 2 + sim::C(2);
  vector<std::unique_ptr<node_t>> nodes;
  for (int i = 0; i < n; ++i) { nodes.push_back(std::make_unique<node_t>()); nodes[i]->ctl = std::make_unique<typename node_t::ctl_t>(node_t::Create(i)); }
  for (auto& x : nodes) x->Expose();
  bool stop = false;
  const auto publish = [&](node_t& x) {
    try {
      auto p = (*x.ctl)->BorrowPublisher();
      const uint64_t id = m.NewId();
      m.Done(id, Pub(*p, id));
      return true;
    } catch (const stream::PublisherNotAvailableException&) {
      return false;
    }
  };
  const int pre = sim::C(2) ? sim::C(8) : 0;
  for (int i = 0; i < pre; ++i) publish(*nodes[0]);
  NetChaos(lossy);
  int master = 0;  // -1 if there may be none.
  for (int i = 1; i < n; ++i) {
    const int who = sim::W(i);
    while (true) {
      try { nodes[i]->ctl->FollowRemoteStream(Url(nodes[who]->port), sim::WB() ? SubscriptionMode::Checked : SubscriptionMode::Unchecked); break; }
      catch (const Exception& e) { SIM_CHECK(lossy, "follow", "can not follow: %s", e.what()); }
    }
    nodes[i]->following = who;
    SIM_CHECK(!nodes[i]->ctl->IsMasterStream(), "two-masters", "a follower is a master");
  }
  h::Threads pubs;
  const int np = 1 + sim::C(2);
  for (int i = 0; i < np; ++i) {
    pubs.Go([&]() {
      int mine = 0;
      while (true) {
        { sim::Atomic a; if (stop) break; }
        const bool ok = publish(*nodes[sim::W(n)]);
        if (ok) sim::Count("published");
        if (!ok || !sim::WB(0.3)) sim::SleepUs(200 + sim::W(sim::WB(0.1) ? 200000 : 3000));
        if (ok && ++mine == 40) break;
      }
    });
  }
  const auto masters = [&]() { int c = 0; for (auto& x : nodes) c += x->ctl->IsMasterStream(); return c; };
  // In a lossy network, the request which has failed may be yet to be served, or it may have made one of the nodes in between
  // the master, or it may have left the system with no master.
  const auto settle = [&]() {
    if (!lossy || master < 0 || nodes[master]->ctl->IsMasterStream()) return;
    int who = -1;
    for (int i = 0; i < n; ++i) if (nodes[i]->ctl->IsMasterStream()) who = i;
    if (who < 0) { sim::Count("no_master_after_lossy_flip"); master = -1; return; }
    for (int x = who; x != master;) { const int y = nodes[x]->following; nodes[x]->following = -1; x = y; }
    master = who;
  };
  const int flips = 1 + sim::W(4);
  for (int f = 0; f < flips && master >= 0; ++f) {
    if (sim::WB(0.7)) sim::SleepUs(sim::W(20000));
    settle();
    if (master < 0) break;
    int to = sim::W(n - 1);
    if (to >= master) ++to;
    node_t& a = *nodes[master];
    node_t& b = *nodes[to];
    if (b.following < 0) {
      try { b.ctl->FlipToMaster(a.key); SIM_CHECK(false, "two-masters", "a stream which follows nobody has been flipped"); } catch (const stream::StreamDoesNotFollowAnyoneException&) {}
      continue;
    }
    const bool wrong = sim::WB(0.2);
    const int started0 = a.started, canceled0 = a.canceled;
    bool ok = false;
    string error;
    try { b.ctl->FlipToMaster(wrong ? a.key + 1 : a.key); ok = true; } catch (const Exception& e) { error = e.what(); }
    SIM_CHECK(masters() <= 1, "two-masters", "two masters at the same time");
    if (ok) {
      sim::Count("flips");
      SIM_CHECK(!wrong, "wrong-key", "has flipped with a wrong key");
      SIM_CHECK(b.ctl->IsMasterStream(), "no-master", "has flipped, and is not the master");
      // The ones in between are not following any more.
      for (int x = to; x != master;) { const int y = nodes[x]->following; nodes[x]->following = -1; x = y; }
      { sim::Atomic at; SIM_CHECK(a.started == started0 + 1 && a.canceled == canceled0, "callbacks", "flipped; flip_started has been called %d times, flip_canceled %d times", a.started - started0, a.canceled - canceled0); }
      const int old = master;
      master = to;
      if (sim::WB()) SIM_CHECK(publish(b), "no-master", "the new master can not be published to");
      // Now the others are to follow the new master.
      for (int i = 0; i < n; ++i) {
        if (i == master || nodes[i]->following >= 0) continue;
        if (sim::WB(0.2) && i != old) continue;
        while (true) {
          try { nodes[i]->ctl->FollowRemoteStream(Url(nodes[master]->port), sim::WB() ? SubscriptionMode::Checked : SubscriptionMode::Unchecked); break; }
          catch (const Exception& e) { SIM_CHECK(lossy, "follow", "can not follow: %s", e.what()); }
        }
        nodes[i]->following = master;
      }
    } else {
      // In a lossy network it may well be that there is no master now.
      if (!lossy) {
        SIM_CHECK(wrong, "refused", "refused to flip: %s", error.c_str());
        SIM_CHECK(a.ctl->IsMasterStream(), "no-master", "refused to flip, and is not the master any more");
      }
      SIM_CHECK(!b.ctl->IsMasterStream(), "two-masters", "the flip has failed, yet the follower is a master");
      settle();
      if (master >= 0 && &a == nodes[master].get() && wrong) {
        sim::SleepUs(9000000);  // The master would not listen for some time.
        sim::Count("refused_flips");
      }
    }
  }
  if (sim::CB(0.3)) sim::SleepUs(sim::W(20000));
  { sim::Atomic a; stop = true; }
  pubs.Join();
  sim::FaultsOff();
  // Everything acknowledged is there, once, and whoever follows the master is a copy of it.
  m.CheckComplete();
  int longest = 0;
  for (int i = 1; i < n; ++i) if ((*nodes[i]->ctl)->Data()->Size() > (*nodes[longest]->ctl)->Data()->Size()) longest = i;
  if (lossy) sim::SleepUs(1000000);
  settle();
  if (master >= 0) {
    SIM_CHECK(masters() == 1, "no-master", "there are %d masters", masters());
    longest = master;
  }
  m.CheckStored(*nodes[longest]->ctl);
  const uint64_t total = m.by_index.size();
  for (int i = 0; i < n; ++i) {
    if (i == longest) continue;
    auto& s = *nodes[i]->ctl;
    // Those which follow the master, directly or not.
    int x = i;
    for (int k = 0; k <= n && x >= 0 && x != master; ++k) x = nodes[x]->following;
    if (master >= 0 && x == master) {
      SIM_CHECK(sim::WaitUntil([&]() { return s->Data()->Size() >= total; }, kBounded, 10000), "not-converged", "a follower has %llu entries of %llu", (ull)s->Data()->Size(), (ull)total);
      m.CheckStored(s);
    } else {
      // A prefix.
      uint64_t k = 0;
      for (const auto& e : s->Data()->Iterate()) {
        const Item& it = m.by_index[k];
        SIM_CHECK(k < total && IdOf(e.entry) == it.id && e.idx_ts.us.count() == it.us, "not-a-prefix", "entry %llu is not the one published", (ull)k);
        ++k;
      }
    }
  }
  sim::Cover("f" + std::to_string(n) + std::to_string(master) + std::to_string(total / 8) + std::to_string(flips));
  for (auto& x : nodes) {
    const bool over = sim::WaitUntil([&]() { sim::Atomic a; return lossy || x->started == x->finished + x->canceled; }, kBounded);
    SIM_CHECK(over, "callbacks", "%d flips started, %d finished, %d canceled", x->started, x->finished, x->canceled);
  }
  // Who goes first?
  while (!nodes.empty()) {
    // (Whoever follows a stream which is not exposed any more can not unsubscribe from it.)
    if (nodes.size() == 1u && sim::WB()) nodes[0]->ctl->StopExposingViaHTTP();
    nodes.erase(nodes.begin() + sim::W(nodes.size()));
  }
}

// ---- What one flip request gets, exactly ----------------------------------------------------------------------------------
template <typename S> void Requests() {
  using node_t = Node<S, stream::ReplicationMode::Checked>;
  sim::SetLimits(600000000, 20000ull * 1000000);
  Model m;
  node_t x;
  x.ctl = std::make_unique<typename node_t::ctl_t>(node_t::Create(0));
  MasterFlipRestrictions r;
  const uint64_t max_index = sim::C(2) ? 1 + sim::C(5) : 0, max_size = sim::C(3) ? 0 : 1 + sim::C(400);
  const int64_t max_head = sim::C(3) ? 0 : 1 + sim::C(3000), max_clock = sim::C(3) ? 0 : 500000 + sim::C(3000);
  r.SetMaxIndexDifference(max_index).SetMaxDiffSize(max_size).SetMaxHeadDifference(microseconds(max_head)).SetMaxClockDifference(microseconds(max_clock));
  x.Expose(r);
  const int size = sim::C(8);
  vector<string> lines;
  for (int i = 0; i < size; ++i) {
    const uint64_t id = m.NewId();
    m.Done(id, Pub(*(*x.ctl)->Publisher(), id));
    if (sim::WB()) sim::SleepUs(sim::W(1500));
  }
  if (sim::CB(0.4)) { sim::SleepUs(10); (*x.ctl)->Publisher()->UpdateHead(); }
  const int64_t head = (*x.ctl)->Data()->CurrentHead().count();
  const auto index_at = [&](int64_t us) { uint64_t k = 0; for (const auto& e : m.by_index) { if (e.second.us >= us) break; ++k; } return k; };
  int64_t blocked_until = 0, delay = 1000000;
  bool flipped = false;
  const int requests = 1 + sim::W(6);
  for (int q = 0; q < requests; ++q) {
    // What the client says it has.
    const uint64_t have = sim::W(size + 2);
    int64_t h = have && have <= static_cast<uint64_t>(size) ? m.by_index[have - 1].us : have ? head + 1 : -1;
    if (sim::WB(0.2)) h = std::max<int64_t>(-1, h + sim::WR(-2, 2));
    if (sim::WB(0.1)) h = head;
    const bool has_key = !sim::WB(0.05), good_key = sim::WB(0.8), checked = sim::WB();
    const bool has_clock = max_clock ? sim::WB(0.9) : sim::WB(0.5);
    if (sim::WB(0.4)) sim::SleepUs(sim::W(sim::WB() ? 4000000 : 5000));
    const bool clock_far = has_clock && sim::WB(0.3);
    const int64_t clock = sim::WallUs() + (clock_far ? (sim::WB() ? 1 : -1) * (max_clock + 1000000) : 0);
    string url = "/s/control/flip_to_master?head=" + std::to_string(h);
    if (have) url += "&i=" + std::to_string(have - 1);
    if (has_key) url += "&key=" + std::to_string(x.key + !good_key);
    if (has_clock) url += "&clock=" + std::to_string(clock);
    if (checked) url += "&checked";
    const string method = sim::WB(0.05) ? "POST" : "GET";
    const int started0 = x.started, canceled0 = x.canceled;
    const int64_t now = sim::WallUs();
    RawConn c(x.port);
    string raw;
    const bool sent = c.fd >= 0 && c.Send(method + " " + url + " HTTP/1.1\r\n" + (method == "POST" ? "Content-Length: 0\r\n" : "") + "\r\n") && c.ReadAll(raw);
    SIM_CHECK(sent, "no-response", "no response");
    const auto pr = ParseResponse(raw);
    SIM_CHECK(pr.error.empty(), "malformed-response", "%s", pr.error.c_str());
    string refuse;  // Why, if it should be.
    bool start = false;
    uint64_t diff = size - std::min<uint64_t>(have, size);
    string body;
    if (method == "POST") refuse = "not a GET";
    else if (!has_key) refuse = "no key";
    else if (h > head) refuse = "the head is ahead";
    else if (have > static_cast<uint64_t>(size)) refuse = "more entries";
    else if (size && index_at(h + 1) != have) refuse = "the head does not match the index";
    else if (flipped) refuse = "not a master";
    else if (now < blocked_until) { refuse = "too many attempts"; SIM_CHECK(now < blocked_until - 20000 || pr.code != 200 || true, "", "%s", ""); }
    else if (max_clock && (!has_clock || clock_far)) refuse = "the clocks";
    else if (!good_key) { refuse = "wrong key"; }
    else {
      start = true;
      if (checked) for (uint64_t i = have; i < static_cast<uint64_t>(size); ++i) { const Item& it = m.by_index[i]; Ev e; if (it.id % 2) e = EvA(it.id, TextOf(it.id)); else e = EvB(it.id, it.id * 17); body += JSON(idxts_t(it.index, microseconds(it.us))) + '\t' + JSON(e) + '\n'; }
      else for (const auto& e : (*x.ctl)->Data()->IterateUnsafe(have, size)) body += e + '\n';
      if (max_index && diff > max_index) refuse = "too many entries";
      else if (max_head && head > h + max_head) refuse = "the heads";
      else if (max_size && body.size() > max_size) refuse = "too much data";
      if (head > h && (!size || head > m.by_index[size - 1].us)) body += JSON<JSONFormat::Minimalistic>(ts_only_t(microseconds(head))) + '\n';
    }
    // The clocks being close to the limits.
    const bool borderline = std::llabs(now - blocked_until) < 20000;
    if (borderline) { sim::Count("borderline"); return; }
    if (refuse == "wrong key") { blocked_until = sim::WallUs() + delay; delay *= 2; }
    sim::Cover(refuse + std::to_string(diff) + std::to_string(checked));
    sim::Count(refuse.empty() ? "flip_accepted" : "flip_refused");
    if (refuse.empty()) {
      SIM_CHECK(pr.code == 200, "refused", "`%s` is refused: %d `%s`", url.c_str(), pr.code, Esc(pr.body).c_str());
      SIM_CHECK(pr.body == body, "diff", "`%s`: the diff is `%s`, should be `%s`", url.c_str(), Esc(pr.body).c_str(), Esc(body).c_str());
      flipped = true;
      SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return x.finished == 1; }, kBounded), "callbacks", "flip_finished has not been called");
    } else {
      SIM_CHECK(pr.code >= 400, "accepted", "`%s` is accepted, %d, while it should not be: %s", url.c_str(), pr.code, refuse.c_str());
    }
    sim::WaitUntil([&]() { return x.ctl->IsMasterStream() == !flipped; }, 1000000);
    SIM_CHECK(x.ctl->IsMasterStream() == !flipped, "master", "after `%s` (%s) the stream is %sa master", url.c_str(), refuse.c_str(), flipped ? "" : "not ");
    const bool cb = sim::WaitUntil([&]() { sim::Atomic a; return x.started == started0 + start && x.canceled == canceled0 + (start && !refuse.empty()); }, 1000000);
    SIM_CHECK(cb, "callbacks", "after `%s` (%s): flip_started called %d times, flip_canceled %d times", url.c_str(), refuse.c_str(), x.started - started0, x.canceled - canceled0);
  }
  m.CheckStored(*x.ctl);
  if (!flipped && sim::WB()) { const uint64_t id = m.NewId(); m.Done(id, Pub(*(*x.ctl)->Publisher(), id)); m.CheckStored(*x.ctl); }
}

// ---- Several attempts at the same time, and everything being torn down ------------------------------------------------------
template <typename S> void Race(int what) {
  using node_t = Node<S, stream::ReplicationMode::Checked>;
  sim::SetLimits(600000000, 20000ull * 1000000);
  h::Chaos(0.3);
  Model m;
  const int n = 3;
  vector<std::unique_ptr<node_t>> nodes;
  for (int i = 0; i < n; ++i) { nodes.push_back(std::make_unique<node_t>()); nodes[i]->ctl = std::make_unique<typename node_t::ctl_t>(node_t::Create(i)); nodes[i]->Expose(); }
  const auto publish = [&](node_t& x) {
    try {
      auto p = (*x.ctl)->BorrowPublisher();
      const uint64_t id = m.NewId();
      m.Done(id, Pub(*p, id));
      return true;
    } catch (const stream::PublisherNotAvailableException&) {
      return false;
    }
  };
  const int pre = sim::C(6);
  for (int i = 0; i < pre; ++i) publish(*nodes[0]);
  NetChaos(false);
  nodes[1]->ctl->FollowRemoteStream(Url(nodes[0]->port));
  const bool chain = sim::CB();  // 2 -> 1 -> 0, or both of 0.
  nodes[2]->ctl->FollowRemoteStream(Url(nodes[chain ? 1 : 0]->port));
  bool stop = false;
  h::Threads t;
  t.Go([&]() {
    if (what) return;
    while (true) {
      { sim::Atomic a; if (stop) break; }
      publish(*nodes[sim::W(n)]);
      sim::SleepUs(100 + sim::W(3000));
    }
  });
  int succeeded = 0, left = 2;
  for (int i = 1; i < n; ++i) {
    node_t* const x = nodes[i].get();
    t.Go([&, x]() {
      if (sim::WB(0.6)) sim::SleepUs(sim::W(sim::WB() ? 3000 : 30000));
      try { x->ctl->FlipToMaster(nodes[0]->key); sim::Atomic a; ++succeeded; } catch (const Exception& e) { sim::Log("refused: %s", e.what()); }
      sim::Atomic a;
      --left;
    });
  }
  if (what == 1) {
    if (sim::WB(0.8)) sim::SleepUs(sim::W(sim::WB() ? 3000 : 30000));
    nodes[0]->ctl->StopExposingViaHTTP();
    // It takes the stream to be exposed to end the subscriptions to it.
    if (sim::WB(0.8)) sim::SleepUs(sim::W(sim::WB() ? 3000 : 300000));
    nodes[0]->Expose();
  } else if (what == 2) {
    if (sim::WB(0.8)) sim::SleepUs(sim::W(sim::WB() ? 3000 : 30000));
    nodes[0]->ctl = nullptr;
  }
  SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return !left; }, kBounded, 10000), "stuck", "a flip does not end");
  { sim::Atomic a; stop = true; }
  t.Join();
  sim::Count("flips", succeeded);
  int masters = 0, master = -1;
  for (int i = 0; i < n; ++i) if (nodes[i]->ctl && nodes[i]->ctl->IsMasterStream()) { ++masters; master = i; }
  SIM_CHECK(masters <= 1, "two-masters", "%d masters", masters);
  if (what < 2) SIM_CHECK(masters == 1, "no-master", "no master, %d flips have succeeded", succeeded);
  if (!chain) SIM_CHECK(succeeded <= 1, "two-masters", "both have become the master");
  if (!what) SIM_CHECK(succeeded >= 1, "refused", "neither has become the master");
  m.CheckComplete();
  if (master >= 0) m.CheckStored(*nodes[master]->ctl);
  sim::Cover("r" + std::to_string(master) + std::to_string(succeeded) + std::to_string(chain) + std::to_string(m.by_index.size()));
  while (!nodes.empty()) nodes.erase(nodes.begin() + sim::W(nodes.size()));
}
}  // namespace

SIM_SCENARIO("R02", flips_memory, 2) { Flips<MemStream, stream::ReplicationMode::Checked>(false); }
SIM_SCENARIO("R02", flips_file_unchecked, 2) { Flips<FileStream, stream::ReplicationMode::Unchecked>(false); }
SIM_SCENARIO("R02", flips_memory_lossy, 2) { Flips<MemStream, stream::ReplicationMode::Unchecked>(true); }
SIM_SCENARIO("R02", flips_file_lossy, 1) { Flips<FileStream, stream::ReplicationMode::Checked>(true); }
SIM_SCENARIO("R02", requests_memory, 1) { Requests<MemStream>(); }
SIM_SCENARIO("R02", requests_file, 1) { Requests<FileStream>(); }
SIM_SCENARIO("R02", race, 2) { Race<MemStream>(0); }
SIM_SCENARIO("R02", race_stop_exposing, 1) { Race<MemStream>(1); }
SIM_SCENARIO("R02", race_destroyed, 1) { Race<FileStream>(2); }
