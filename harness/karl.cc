// K01: the registry of the services reflects the keepalives. K02: Claire keeps reporting, whatever happens around it.
#define H_UNCHECKED_ASSERTION "to >= from"  // The range of times in the URL.
#include "current_build.h"
#include "http_common.h"
#include "/repo/karl/karl.h"
#include "/repo/karl/claire.h"

namespace {
using std::chrono::microseconds;
using namespace current::karl;
using claire_status_t = ClaireServiceStatus<Variant<default_user_status::status>>;
using karl_storage_t = ServiceStorage<StreamStreamPersister>;

constexpr uint64_t kBounded = 400000000;  // us of simulated time.
uint16_t NewServer() {
  auto reserved = net::ReserveLocalPort();
  const uint16_t port = reserved;
  auto& server = HTTP(std::move(reserved));
  static_cast<void>(server);
  return port;
}
string Url(uint16_t port, const string& path = "/") { return "http://localhost:" + std::to_string(port) + path; }
string Tag(const string& codename, uint64_t k) { return "<" + codename + "-" + std::to_string(k) + ">"; }

// ---- Karl, and the services which report to it ----------------------------------------------------------------------------
struct Watcher : IKarlNotifiable<Variant<default_user_status::status>> {
  std::map<string, int> keepalives, deregistered, timed_out;
  std::map<string, microseconds> most_recent;
  void OnKeepalive(microseconds now, const ClaireServiceKey&, const string& codename, const claire_status_t& s) override {
    sim::Atomic a;
    SIM_CHECK(s.codename == codename, "callback", "a keepalive of `%s` reported as of `%s`", s.codename.c_str(), codename.c_str());
    ++keepalives[codename];
    most_recent[codename] = now;
  }
  void OnDeregistered(microseconds, const string& codename, const ImmutableOptional<ClaireInfo>&) override { sim::Atomic a; ++deregistered[codename]; }
  void OnTimedOut(microseconds now, const string& codename, const ImmutableOptional<ClaireInfo>&) override {
    sim::Atomic a;
    ++timed_out[codename];
    SIM_CHECK(most_recent.count(codename), "timeout", "`%s` has timed out without ever being there", codename.c_str());
    SIM_CHECK(now - most_recent[codename] > std::chrono::seconds(45), "timeout", "`%s` has timed out %lld us after a keepalive", codename.c_str(), (long long)(now - most_recent[codename]).count());
  }
};

struct Fleet {
  uint16_t keepalives = NewServer(), view = NewServer();
  Watcher watcher;
  std::unique_ptr<Karl> karl;
  // The ones which may be stopping it are exclusive with the ones which look into the storage directly.
  std::mutex mutex;
  void Up() {
    KarlParameters p;
    p.keepalives_port = keepalives;
    p.fleet_view_port = view;
    p.stream_persistence_file = sim::RunDir() + "/keepalives";
    p.storage_persistence_file = sim::RunDir() + "/storage";
    karl = std::make_unique<Karl>(p, watcher);
  }
  // When the service says it was built, if it does.
  string Build(const string& codename) {
    std::lock_guard<std::mutex> lock(mutex);
    string r;
    karl->BorrowStorage()->ReadOnlyTransaction([&](ImmutableFields<karl_storage_t> fields) {
      const auto b = fields.builds[codename];
      if (Exists(b)) r = Value(b).build.build_time;
    }).Wait();
    return r;
  }
  // The state of the service, or -1; the port as well.
  std::pair<int, int> State(const string& codename) {
    std::lock_guard<std::mutex> lock(mutex);
    std::pair<int, int> r(-1, -1);
    karl->BorrowStorage()->ReadOnlyTransaction([&](ImmutableFields<karl_storage_t> fields) {
      const auto c = fields.claires[codename];
      if (Exists(c)) {
        SIM_CHECK(Value(c).codename == codename, "registry", "`%s` under `%s`", Value(c).codename.c_str(), codename.c_str());
        r = {static_cast<int>(Value(c).registered_state), Value(c).location.port};
      }
    }).Wait();
    return r;
  }
};
constexpr int kActive = static_cast<int>(ClaireRegisteredState::Active), kDeregistered = static_cast<int>(ClaireRegisteredState::Deregistered), kTimedOut = static_cast<int>(ClaireRegisteredState::DisconnectedByTimeout);

// A service which speaks the protocol by itself.
struct Fake {
  string codename;
  uint16_t port = 0;
  uint64_t attempted = 0, acked = 0, n_acked = 0;
  bool deleted = false;      // As the last thing, and it was acknowledged.
  bool delete_sent = false;  // Not acknowledged.
  string build;              // The one in the most recent accepted keepalive which has it.
  bool build_sure = true;
};

// What is not a keepalive is refused, and leaves no trace.
void Nonsense(Fleet& f, const string& codename, bool sure) {
  claire_status_t s;
  s.service = "service";
  s.codename = "NONSENSE";
  s.local_port = 4321;
  s.now = s.start_time_epoch_microseconds = current::time::Now();
  const string url = Url(f.keepalives);
  int expected = 400;
  int code = 0;
  string what;
  try {
    http::HTTPResponseWithBuffer r;
    switch (sim::W(8)) {
      case 0: r = HTTP(POST(url + "?codename=" + codename, s)); break;
      case 1: r = HTTP(POST(url + "?port=1234", s)); break;
      case 2: r = HTTP(POST(url + "?codename=NONSENSE&port=1234", JSON(s))); break;
      case 3: r = HTTP(POST(url + "?codename=NONSENSE", JSON(s).substr(0, sim::W(JSON(s).size())))); break;
      // There is no one to call back.
      case 4: r = HTTP(POST(url + "?codename=NONSENSE&port=4321&confirm", s)); break;
      // The one to call back is someone else.
      case 5: r = HTTP(POST(url + "?codename=NONSENSE&confirm&port=" + std::to_string(f.view), s)); break;
      case 6: r = HTTP(PUT(url + "?codename=NONSENSE&port=4321", JSON(s))); expected = 405; break;
      case 7: r = HTTP(DELETE(url)); expected = 200; break;
    }
    code = static_cast<int>(r.code);
    what = r.body;
  } catch (const Exception& e) { what = e.what(); }
  if (sure) SIM_CHECK(code == expected, "nonsense", "the response to what is not a keepalive is %d `%s`, not %d", code, Esc(what).c_str(), expected);
  sim::Count("nonsense");
}

void FleetRun(bool lossy, bool restarts) {
  sim::SetLimits(1000000000, 50000ull * 1000000);
  h::Chaos(0.3);
  Fleet f;
  f.Up();
  NetChaos(lossy);
  vector<Fake> fakes(1 + sim::C(3));
  bool stop = false;
  int restarting = 0;   // Odd: Karl is not up.
  h::Threads t;
  for (size_t i = 0; i < fakes.size(); ++i) {
    Fake& x = fakes[i];
    x.codename = string("FAKE") + static_cast<char>('A' + i);
    x.port = static_cast<uint16_t>(5000 + i);
    t.Go([&f, &x, &restarting, lossy, restarts]() {
      const auto is_restarting = [&]() { sim::Atomic a; return restarting; };
      const int ops = 1 + sim::W(12);
      for (int k = 0; k < ops; ++k) {
        const int op = sim::W(11);
        const int was = is_restarting();
        const uint64_t t0 = sim::NowUs();
        if (op < 6) {
          claire_status_t s;
          s.service = "service";
          s.codename = x.codename;
          if (sim::WB(0.1)) ++x.port;
          s.local_port = x.port;
          s.now = current::time::Now();
          s.start_time_epoch_microseconds = s.now;
          s.uptime = "?";
          default_user_status::status runtime;
          { sim::Atomic a; runtime.message = Tag(x.codename, ++x.attempted); }
          s.runtime = runtime;
          if (sim::WB(0.3)) {
            build::BuildInfo b;
            b.build_time = Tag(x.codename, 1 + sim::W(2));
            s.build = b;
          }
          const string url = Url(f.keepalives) + "?codename=" + x.codename + (sim::WB() ? "&port=" + std::to_string(x.port) : string());
          bool ok = false;
          string what;
          try { const auto r = HTTP(POST(url, s)); ok = r.code == net::HTTPResponseCodeValue::OK; what = r.body; } catch (const Exception& e) { what = e.what(); }
          if (ok) {
            { sim::Atomic a; x.acked = x.attempted; ++x.n_acked; x.deleted = x.delete_sent = false; }
            sim::Count("keepalives");
            if (Exists(s.build)) { x.build = Value(s.build).build_time; x.build_sure = true; }
            if (is_restarting() == was && !(was & 1)) {
              const auto st = f.State(x.codename);
              if (is_restarting() == was && sim::NowUs() - t0 < 40000000) {
                SIM_CHECK(st.first == kActive, "not-active", "a keepalive of `%s` has been accepted, and the state is %d", x.codename.c_str(), st.first);
                const string build = f.Build(x.codename);
                if (is_restarting() == was && x.build_sure) SIM_CHECK(build == x.build, "build", "a keepalive of `%s` with the build `%s` has been accepted, and the build is `%s`", x.codename.c_str(), x.build.c_str(), build.c_str());
                SIM_CHECK(st.second == x.port, "location", "a keepalive of `%s` from the port %d has been accepted, and the port is %d", x.codename.c_str(), x.port, st.second);
              }
            }
          } else {
            if (Exists(s.build)) x.build_sure = false;
            SIM_CHECK(lossy || is_restarting() != was || (was & 1), "refused", "a keepalive has not been accepted: `%s`", Esc(what).c_str());
          }
        } else if (op < 8) {
          // What has been reported last.
          string body;
          bool ok = false;
          try { const auto r = HTTP(GET(Url(f.view, "/snapshot/" + x.codename))); body = r.body; ok = r.code == net::HTTPResponseCodeValue::OK; } catch (const Exception&) { continue; }
          sim::Atomic a;
          if (ok) {
            bool found = false;
            for (uint64_t k = x.acked; k <= x.attempted; ++k) if (k && body.find(Tag(x.codename, k)) != string::npos) found = true;
            SIM_CHECK(found, "snapshot", "the snapshot of `%s` is `%s`, %llu..%llu", x.codename.c_str(), Esc(body).c_str(), (ull)x.acked, (ull)x.attempted);
            sim::Count("snapshots");
          } else if (!lossy && restarting == was && !(was & 1)) {
            SIM_CHECK(!x.acked, "snapshot", "no snapshot of `%s`: `%s`", x.codename.c_str(), Esc(body).c_str());
          }
        } else if (op == 8) {
          bool ok = false;
          try { ok = HTTP(DELETE(Url(f.keepalives) + "?codename=" + x.codename)).code == net::HTTPResponseCodeValue::OK; } catch (const Exception&) { }
          sim::Atomic a;
          (ok ? x.deleted : x.delete_sent) = true;
          if (ok) x.delete_sent = false;
        } else if (op == 9) {
          Nonsense(f, x.codename, !lossy && !(was & 1) && !restarts);
        } else {
          sim::SleepUs(40000000 + sim::W(12000000));
        }
        if (sim::WB(0.6)) sim::SleepUs(sim::W(sim::WB(0.2) ? 30000000 : 3000));
      }
    });
  }
  // The real ones.
  struct Real { uint16_t port; std::unique_ptr<Claire> claire; };
  vector<Real> reals;
  const int n_reals = sim::C(3);
  bool sure = !lossy && !restarts;
  for (int i = 0; i < n_reals; ++i) reals.push_back({NewServer(), nullptr});
  // They are being asked for things at the same time.
  if (n_reals) t.Go([&f, ports = std::vector<uint16_t>{reals.front().port, reals.back().port}, lossy, restarts]() {
    const int n = sim::W(6);
    for (int i = 0; i < n; ++i) {
      const string url = Url(ports[i & 1], "/.current");
      try {
        const int op = sim::W(3);
        if (op == 0) HTTP(GET(url)); else HTTP(POST(url + (op == 1 ? "?initiate_keepalive" : "?report_to=" + Url(f.keepalives)), ""));
      } catch (const Exception& e) { SIM_CHECK(lossy || restarts, "no-response", "%s", e.what()); }
      sim::SleepUs(sim::W(sim::WB() ? 300 : 3000));
    }
  });
  for (int i = 0; i < n_reals; ++i) {
    Real& x = reals[i];
    x.claire = std::make_unique<Claire>(Locator(Url(f.keepalives)), "real", x.port, vector<string>());
    const bool confirm = sim::WB();
    const auto gen = []() { default_user_status::status s; s.message = "I am real."; return Variant<default_user_status::status>(s); };
    try {
      const uint64_t t0 = sim::NowUs();
      x.claire->Register(gen, confirm);
      if (confirm) SIM_CHECK(lossy || f.State(x.claire->Codename()).first == kActive || sim::NowUs() - t0 >= 40000000, "not-active", "a service has been confirmed, and it is not active");
    } catch (const ClaireRegistrationException& e) {
      SIM_CHECK(lossy, "refused", "a service can not register: %s", e.what());
      x.claire->Register(gen);
    }
  }
  bool views = true;
  t.Go([&]() {
    const int n = sim::W(6);
    for (int i = 0; i < n && views; ++i) {
      static const char* const kPaths[] = {"/?full", "/?json&active_only", "/?d=1", "/?from=0&to=5", "/?from=10&to=5", "/status?full", "/build/FAKEA", "/build/NOPE", "/snapshot/NOPE", "/?h=1", "/?m=-5", "/?from=x"};
      try {
        const auto r = HTTP(GET(Url(f.view, kPaths[sim::W(12)])));
        static_cast<void>(r);
      } catch (const Exception& e) { SIM_CHECK(lossy || restarts, "no-response", "%s", e.what()); }
      sim::SleepUs(sim::W(2000000));
    }
  });
  if (restarts) {
    const int n = 1 + sim::W(2);
    for (int i = 0; i < n; ++i) {
      sim::SleepUs(sim::W(sim::WB() ? 20000 : 30000000));
      std::lock_guard<std::mutex> lock(f.mutex);
      { sim::Atomic a; ++restarting; }
      f.karl = nullptr;
      if (sim::WB()) sim::SleepUs(sim::W(3000000));
      f.Up();
      { sim::Atomic a; ++restarting; }
    }
  }
  if (sim::WB() && !reals.empty()) { reals.back().claire = nullptr; reals.pop_back(); }
  t.Join();
  sim::FaultsOff();
  // Those alive, and no one else, are active in bounded time.
  const bool lost = !reals.empty();
  for (auto& x : reals) {
    const string c = x.claire->Codename();
    const bool active = sim::WaitUntil([&]() { return f.State(c).first == kActive; }, kBounded, 1000000);
    SIM_CHECK(active, "not-active", "a service which is sending keepalives is not active: %d", f.State(c).first);
  }
  for (auto& x : fakes) {
    int st = -2;
    const bool ok = sim::WaitUntil([&]() {
      st = f.State(x.codename).first;
      if (!x.attempted && !x.deleted && !x.delete_sent) return st == -1;
      if (x.deleted && x.attempted == x.acked) return st == kDeregistered || (lossy && st == kTimedOut);
      return st == kTimedOut || (x.delete_sent && st == kDeregistered) || (x.deleted && st == kDeregistered) || (!x.acked && st == -1);
    }, kBounded, 1000000);
    SIM_CHECK(ok, "state", "`%s`: %llu keepalives, %llu accepted, deregistered: %d: the state is %d", x.codename.c_str(), (ull)x.attempted, (ull)x.acked, x.deleted, st);
    {
      sim::Atomic a;
      if (st == kTimedOut) SIM_CHECK(f.watcher.timed_out[x.codename], "callback", "`%s` has timed out with no notification", x.codename.c_str());
      if (st == kDeregistered) SIM_CHECK(f.watcher.deregistered[x.codename], "callback", "`%s` is deregistered with no notification", x.codename.c_str());
      SIM_CHECK(static_cast<uint64_t>(f.watcher.keepalives[x.codename]) >= x.n_acked && static_cast<uint64_t>(f.watcher.keepalives[x.codename]) <= x.attempted, "callback", "%d keepalives of `%s` are notified of, %llu..%llu", f.watcher.keepalives[x.codename], x.codename.c_str(), (ull)x.n_acked, (ull)x.attempted);
    }
    sim::Cover("fake" + std::to_string(st) + std::to_string(x.attempted) + std::to_string(x.deleted));
    sim::Count(st == kTimedOut ? "timed_out" : st == kDeregistered ? "deregistered" : "other_state");
  }
  SIM_CHECK(f.State("NONSENSE").first == -1 && f.Build("NONSENSE").empty(), "nonsense", "what is not a keepalive has been registered");
  // What the fleet looks like.
  {
    const bool active_only = sim::WB();
    const auto status = ParseJSON<Karl::karl_status_t>(HTTP(GET(Url(f.view, active_only ? "/?full&d=3&active_only" : "/?full&d=3"))).body);
    for (auto& x : fakes) {
      const auto st = f.State(x.codename);
      int n = 0;
      for (const auto& m : status.machines) {
        const auto it = m.second.services.find(x.codename);
        if (it == m.second.services.end()) continue;
        ++n;
        const auto& v = it->second;
        SIM_CHECK(v.codename == x.codename && v.service == "service", "view", "`%s` of `%s` is shown as `%s`", v.codename.c_str(), v.service.c_str(), x.codename.c_str());
        if (st.first == kTimedOut) SIM_CHECK(Exists<current_service_state::down>(v.currently), "view", "`%s`, which has timed out, is shown as being up", x.codename.c_str());
        SIM_CHECK(Exists(v.runtime), "view", "`%s` is shown with no status", x.codename.c_str());
        const string body = JSON(v.runtime);
        bool found = false;
        for (uint64_t k = x.acked; k <= x.attempted; ++k) if (k && body.find(Tag(x.codename, k)) != string::npos) found = true;
        SIM_CHECK(found, "view", "`%s` is shown as `%s`, %llu..%llu", x.codename.c_str(), Esc(body).c_str(), (ull)x.acked, (ull)x.attempted);
        if (x.build_sure) SIM_CHECK(x.build.empty() ? !Exists(v.build_time) || Value(v.build_time).empty() : Exists(v.build_time) && Value(v.build_time) == x.build, "view", "the build of `%s` is shown as %s", x.codename.c_str(), JSON(v.build_time).c_str());
        SIM_CHECK(st.first == -1 || v.location.port == st.second, "view", "`%s` is shown at the port %d", x.codename.c_str(), int(v.location.port));
      }
      if (x.acked && !active_only) SIM_CHECK(n == 1, "view", "`%s` is shown %d times", x.codename.c_str(), n);
      if (active_only && st.first != -1) SIM_CHECK(n == 0, "view", "`%s`, which is not active, is shown", x.codename.c_str());
    }
  }
  for (auto& x : reals) {
    const string c = x.claire->Codename();
    const bool seen = sim::WaitUntil([&]() {
      const auto r = HTTP(GET(Url(f.view, "/?full&h=1")));
      const auto status = ParseJSON<Karl::karl_status_t>(r.body);
      if (!status.machines.count("127.0.0.1")) return false;
      const auto& services = status.machines.at("127.0.0.1").services;
      return services.count(c) && Exists<current_service_state::up>(services.at(c).currently) && services.at(c).location.port == x.port;
    }, kBounded, 1000000);
    SIM_CHECK(seen, "view", "a service which is sending keepalives is not seen as up at its port");
    if (sim::WB()) {
      x.claire = nullptr;
      const int st = f.State(c).first;
      SIM_CHECK(st == kDeregistered, "state", "the service is gone, and its state is %d", st);
    }
  }
  static_cast<void>(lost);
  static_cast<void>(sure);
  if (sim::WB()) f.karl = nullptr;
  reals.clear();
  f.karl = nullptr;
}

// ---- One Claire, two places to report to, and everything at once ------------------------------------------------------------
struct Sink {
  uint16_t port = NewServer();
  HTTPRoutesScope scope;
  std::map<string, int> posts;
  vector<string> last;  // The most recent status.
  int deletes = 0, ok = 0;
  microseconds last_now = microseconds(0);
  int failing = 0, n = 0, refusal = 503;
  void Up() {
    scope = HTTP(net::BarePort(port)).Register("/", [this](Request r) {
      bool fail;
      { sim::Atomic a; fail = failing == 2 || (failing && ++n % 2); if (r.method == "DELETE") ++deletes; if (r.method == "POST") { ok += !fail; last_now = std::max(last_now, ParseJSON<claire_status_t>(r.body).now); ++posts[r.url.query["codename"]]; last.assign(1, r.body); } }
      r(fail ? "No.\n" : "OK\n", fail ? net::HTTPResponseCodeValue(refusal) : HTTPResponseCode.OK);
    });
  }
  int Posts(const string& codename) { sim::Atomic a; return posts[codename]; }
};

void ClaireRun(bool lossy) {
  sim::SetLimits(1000000000, 50000ull * 1000000);
  h::Chaos(0.5);
  Sink sinks[2];
  static const int kRefusals[] = {503, 400, 404, 500};
  for (auto& s : sinks) { s.failing = sim::C(3); s.refusal = kRefusals[sim::C(4)]; s.Up(); }
  NetChaos(lossy);
  struct Notifiable : IClaireNotifiable {
    string last;
    int n = 0;
    void OnKarlLocatorChanged(const Locator& l) override { sim::Atomic a; last = l.address_port_route; ++n; }
  } notifiable;
  const uint16_t port = NewServer();
  bool up = false, gone = false;
  h::Threads t;
  // The requests may well come before it is there, and while it is being destroyed.
  for (int i = sim::C(3); i > 0; --i) t.Go([&, port]() {
    const int n = sim::W(6);
    for (int k = 0; k < n; ++k) {
      const int op = sim::W(8);
      try {
        if (op < 4) {
          static const char* const kPaths[] = {"/.current", "/.current?all", "/.current?build", "/.current?runtime"};
          const auto r = HTTP(GET(Url(port, kPaths[op])));
          if (op < 2 && r.code == net::HTTPResponseCodeValue::OK) {
            const auto s = ParseJSON<claire_status_t>(r.body);
            {
              sim::Atomic a;
              SIM_CHECK(sinks[0].ok + sinks[1].ok || (!Exists(s.last_successful_keepalive) && !Exists(s.last_successful_keepalive_ping_us) && s.last_keepalive_status != "Success"), "status", "a failed keepalive is reported as a successful one: `%s`", Esc(r.body).c_str());
            }
            SIM_CHECK(s.service == "real" && s.local_port == port, "status", "bad status `%s`", Esc(r.body).c_str());
            sim::Count("statuses");
          }
        } else if (op < 6) {
          HTTP(POST(Url(port, "/.current?report_to=") + Url(sinks[op - 4].port), ""));
        } else {
          HTTP(POST(Url(port, op == 6 ? "/.current?initiate_keepalive" : "/.current?initiate_keepalive=wait"), ""));
        }
      } catch (const Exception& e) { SIM_CHECK(lossy, "no-response", "%s", e.what()); }
      if (sim::WB()) sim::SleepUs(sim::W(3000));
    }
  });
  if (sim::CB()) sim::SleepUs(sim::W(3000));
  auto claire = std::make_unique<Claire>(Locator(Url(sinks[0].port)), "real", port, static_cast<IClaireNotifiable&>(notifiable), vector<string>());
  const string codename = claire->Codename();
  up = true;
  int calls = 0;
  bool registered = false;
  const auto gen = [&calls]() { sim::Atomic a; ++calls; default_user_status::status s; s.message = "I am real."; return Variant<default_user_status::status>(s); };
  {
    h::Threads u;
    for (int i = 1 + sim::C(2); i > 0; --i) u.Go([&, i]() {
      const int n = sim::W(6);
      for (int k = 0; k < n; ++k) {
        const int op = sim::W(9);
        const auto wait = sim::WB() ? ForceSendKeepaliveWaitRequest::Wait : ForceSendKeepaliveWaitRequest::DoNotWait;
        const auto asked = current::time::Now();
        const auto check_waited = [&]() {
          if (wait != ForceSendKeepaliveWaitRequest::Wait || lossy) return;
          sim::Atomic a;
          const auto last = std::max(sinks[0].last_now, sinks[1].last_now);
          SIM_CHECK(last > asked, "waited", "a keepalive has been waited for, and the most recent one was sent %lld us before it has been asked for", (ll)(asked - last).count());
        };
        if (op == 0) claire->AddDependency("http://localhost:1234");
        else if (op == 1) claire->RemoveDependency("http://localhost:1234");
        else if (op == 2) claire->SetDependencies({"http://localhost:1", "http://localhost:2"});
        else if (op == 3) { claire->ForceSendKeepalive(wait); check_waited(); }
        else if (op == 4) { claire->SetKarlLocator(Locator(Url(sinks[sim::W(2)].port)), wait); check_waited(); }
        else if (op == 5) claire->GetKarlLocator();
        else if (op == 6 && i == 1) {
          const bool confirm = sim::WB(), was = registered;
          try {
            claire->Register(gen, confirm);
            registered = true;
            if (confirm && !was) SIM_CHECK(sinks[0].failing != 2 || sinks[1].failing != 2, "confirmed", "the registration has been confirmed by the one who is always refusing");
          } catch (const ClaireRegistrationException&) { SIM_CHECK(lossy || sinks[0].failing || sinks[1].failing, "refused", "can not register"); }
        } else sim::SleepUs(sim::W(sim::WB(0.1) ? 30000000 : 3000));
      }
    });
  }
  if (sim::WB()) {
    // It is registered, and keeps reporting to where it should; whatever it is asked for is done.
    t.Join();
    sim::FaultsOff();
    // Whatever has been asked for by the requests given up on is done by now, as the requests are served one by one.
    HTTP(GET(Url(port, "/.current?build")));
    if (!registered || sim::WB()) { claire->Register(gen); registered = true; }
    const int to = sim::W(2);
    claire->SetKarlLocator(Locator(Url(sinks[to].port)));
    { sim::Atomic a; SIM_CHECK(notifiable.last == Url(sinks[to].port), "notified", "not notified of the change"); }
    claire->SetDependencies({"http://localhost:11", "http://localhost:12"});
    for (int i = 0; i < 3; ++i) {
      const int was = sinks[to].Posts(codename);
      SIM_CHECK(sim::WaitUntil([&]() { return sinks[to].Posts(codename) > was; }, kBounded, 1000000), "silent", "no keepalives are being sent");
    }
    const int other = sinks[1 - to].Posts(codename);
    sim::SleepUs(60000000);
    SIM_CHECK(sinks[1 - to].Posts(codename) == other, "wrong-karl", "keepalives are being sent to the former Karl");
    { sim::Atomic a; const auto s = ParseJSON<claire_status_t>(sinks[to].last[0]); SIM_CHECK(s.codename == codename && s.reporting_to == Url(sinks[to].port), "status", "`%s`", Esc(sinks[to].last[0]).c_str()); }
    {
      sim::Atomic a;
      const auto s = ParseJSON<claire_status_t>(sinks[to].last[0]);
      SIM_CHECK(s.dependencies.size() == 2 && s.dependencies[0].port == 11 && s.dependencies[1].port == 12, "status", "the dependencies are `%s`", JSON(s.dependencies).c_str());
      SIM_CHECK(Exists(s.runtime) && s.service == "real" && s.local_port == port, "status", "`%s`", Esc(sinks[to].last[0]).c_str());
      if (sinks[to].failing == 0) SIM_CHECK(s.last_keepalive_status == "Success" && Exists(s.last_successful_keepalive), "status", "the keepalives succeed, and the status is `%s`", s.last_keepalive_status.c_str());
      if (sinks[to].failing == 2) SIM_CHECK(s.last_keepalive_status == "HTTP response code " + std::to_string(sinks[to].refusal), "status", "the keepalives fail, and the status is `%s`", s.last_keepalive_status.c_str());
    }
    const int deletes = sinks[to].deletes;
    const uint64_t t0 = sim::NowUs();
    claire = nullptr;
    SIM_CHECK(sim::NowUs() - t0 < kBounded, "slow", "it took %llu us to destroy", (ull)(sim::NowUs() - t0));
    SIM_CHECK(sinks[to].deletes == deletes + 1, "not-deregistered", "it has not deregistered itself");
  }
  const uint64_t t0 = sim::NowUs();
  claire = nullptr;
  SIM_CHECK(sim::NowUs() - t0 < kBounded, "slow", "it took %llu us to destroy", (ull)(sim::NowUs() - t0));
  gone = true;
  t.Join();
  sim::FaultsOff();
  // What has been sent, and given up on, before is served by then.
  for (auto& s : sinks) HTTP(GET(Url(s.port)));
  const int before = sinks[0].Posts(codename) + sinks[1].Posts(codename);
  sim::SleepUs(60000000);
  SIM_CHECK(sinks[0].Posts(codename) + sinks[1].Posts(codename) == before, "zombie", "a keepalive is sent after it is gone");
  sim::Cover("c" + std::to_string(before) + std::to_string(registered) + std::to_string(calls));
  for (auto& s : sinks) s.scope = nullptr;
}
}  // namespace

SIM_SCENARIO("K01", fleet, 2) { FleetRun(false, false); }
SIM_SCENARIO("K01", fleet_lossy, 1) { FleetRun(true, false); }
SIM_SCENARIO("K01", fleet_restarts, 2) { FleetRun(false, true); }
SIM_SCENARIO("K02", claire, 2) { ClaireRun(false); }
SIM_SCENARIO("K02", claire_lossy, 1) { ClaireRun(true); }
