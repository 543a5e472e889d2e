// S05: streams exposed via HTTP.
#include "http_common.h"
#include "stream_common.h"

namespace {
// Reads a chunked response as it comes.
struct ChunkedReader {
  RawConn& c;
  string raw;          // Everything received.
  size_t pos = 0;      // Of the next byte of `raw` to look at.
  bool reset = false, eof = false, done = false;
  string error;
  int code = 0;
  std::map<string, string> headers;
  string body;
  explicit ChunkedReader(RawConn& c) : c(c) {}
  bool More() {  // Blocking.
    char b[2048];
    while (true) {
      const ssize_t n = ::recv(c.fd, b, sizeof b, 0);
      if (n < 0 && errno == EINTR) continue;
      if (n < 0) { reset = true; return false; }
      if (!n) { eof = true; return false; }
      raw.append(b, n);
      return true;
    }
  }
  bool Line(string& out) {
    while (true) {
      const size_t e = raw.find("\r\n", pos);
      if (e != string::npos) { out = raw.substr(pos, e - pos); pos = e + 2; return true; }
      if (!More()) return false;
    }
  }
  bool Head() {
    string l;
    if (!Line(l)) return false;
    if (l.compare(0, 9, "HTTP/1.1 ")) { error = "no status line"; return false; }
    code = atoi(l.c_str() + 9);
    while (true) {
      if (!Line(l)) return false;
      if (l.empty()) return true;
      const size_t p = l.find(": ");
      if (p == string::npos) { error = "a bad header"; return false; }
      headers[Lower(l.substr(0, p))] = l.substr(p + 2);
    }
  }
  bool Bytes(size_t n, string& out) {
    while (raw.size() < pos + n) if (!More()) return false;
    out = raw.substr(pos, n);
    pos += n;
    return true;
  }
  // One chunk; `false` if there is nothing more.
  bool Chunk() {
    string l, d, e;
    if (!Line(l)) return false;
    char* end;
    const size_t n = strtoul(l.c_str(), &end, 16);
    if (l.empty() || *end) { error = "a bad chunk header `" + Esc(l) + "`"; return false; }
    if (!Bytes(n, d) || !Bytes(2, e)) return false;
    if (e != "\r\n") { error = "no CRLF after a chunk"; return false; }
    if (!n) {
      done = true;
      while (More()) {}
      if (raw.size() != pos) error = "there is something after the last chunk";
      return false;
    }
    body += d;
    return true;
  }
};

struct Params {
  int64_t i = -1, n = -1, tail = -1, since = -1, recent = -1, period = -1, stop_after_bytes = -1;
  bool nowait = false, entries_only = false, array = false, checked = false;
  int json = 0;
  string Query() const {
    vector<string> v;
    const auto add = [&v](const char* k, int64_t x) { if (x >= 0) v.push_back(string(k) + "=" + std::to_string(x)); };
    add("i", i); add("n", n); add("tail", tail); add("since", since); add("recent", recent); add("period", period); add("stop_after_bytes", stop_after_bytes);
    if (nowait) v.push_back("nowait");
    if (entries_only) v.push_back("entries_only");
    if (array) v.push_back("array");
    if (checked) v.push_back("checked");
    if (json == 1) v.push_back("json=minimalistic");
    string r;
    for (size_t k = 0; k < v.size(); ++k) r += (k ? "&" : "?") + v[k];
    return r;
  }
};

constexpr int64_t kNever = 1ll << 60;

struct World {
  Model m;
  uint64_t min_size = 0;   // The entries published for sure.
  int64_t min_head = 0;
  bool heads = false;      // Are updated.
};

struct Client {
  Params p;
  // What ends it, unless the range does.
  enum { kReadAll, kDisconnect, kTerminate, kDestroy } how = kReadAll;
  uint64_t after = 0;      // Bytes of the body, for `kDisconnect` and `kTerminate`.
  // The state at the time of the request.
  uint64_t size0 = 0, size1 = ~0ull;
  int64_t wall0 = 0, wall1 = 0;
  bool connected = false, got_head = false;
  bool cut_by_us = false, terminate_ok = false, terminate_sent = false;
  std::unique_ptr<RawConn> conn;
  std::unique_ptr<ChunkedReader> r;
  bool finished = false;
  size_t body_size = 0;    // Published under `Atomic`.
  string id;
};

bool Lossy() { return sim::K().net_reset > 0 || sim::K().net_refuse > 0; }

// The lines of what has been received so far.
struct Received {
  struct E { bool head; uint64_t index; int64_t us; uint64_t id; size_t bytes; };
  vector<E> items;
  bool opened = false, closed = false, error_message = false;
};

template <typename J> void ParseEntryAs(const string& s, uint64_t& id) { Ev e = ParseJSON<Ev, J>(s); CheckEv(e); id = IdOf(e); }
void ParseEntry(const Params& p, const string& s, uint64_t& id) {
  if (p.checked && p.json == 1) ParseEntryAs<JSONFormat::Minimalistic>(s, id); else ParseEntryAs<JSONFormat::Current>(s, id);
}

// Strictly; the last line may be incomplete if `partial`.
Received ParseBody(const Params& p, const string& body, bool partial, const char* what) {
  Received r;
  size_t o = 0;
  bool need_comma = false, after_comma = false;
  while (o < body.size()) {
    size_t e = body.find('\n', o);
    if (e == string::npos) {
      SIM_CHECK(partial, "incomplete-line", "%s: the last line is incomplete: `%s`", what, Esc(body.substr(o)).c_str());
      break;
    }
    const string line = body.substr(o, e - o);
    o = e + 1;
    SIM_CHECK(!r.closed && !(r.error_message && !p.array), "extra-line", "%s: `%s` after the end", what, Esc(line).c_str());
    if (p.array) {
      if (line == "[") { SIM_CHECK(!r.opened, "bad-array", "%s: the array is opened twice", what); r.opened = true; continue; }
      if (line == "[]") { SIM_CHECK(!r.opened, "bad-array", "%s: the array is opened twice", what); r.opened = r.closed = true; continue; }
      if (line == "]") { SIM_CHECK(r.opened && !after_comma, "bad-array", "%s: the array is closed out of place", what); r.closed = true; continue; }
      if (line == ",") { SIM_CHECK(r.opened && need_comma, "bad-array", "%s: a comma out of place", what); need_comma = false; after_comma = true; continue; }
      if (r.opened) SIM_CHECK(!need_comma, "bad-array", "%s: no comma", what);
    }
    if (line == "{\"error\":\"The subscriber has terminated.\"}") { r.error_message = true; after_comma = false; need_comma = true; continue; }
    if (p.array) { SIM_CHECK(r.opened, "bad-array", "%s: an entry outside the array", what); after_comma = false; need_comma = true; }
    try {
      Received::E x{false, 0, 0, 0, line.size() + 1};
      string entry = line;
      if (!p.entries_only && !p.array) {
        const size_t tab = line.find('\t');
        if (tab == string::npos) {
          x.head = true;
          const auto t = ParseJSON<ts_optidx_t>(line);
          SIM_CHECK(!Exists(t.index), "bad-head", "%s: a head with an index: `%s`", what, Esc(line).c_str());
          x.us = t.us.count();
          r.items.push_back(x);
          continue;
        }
        const auto it = ParseJSON<idxts_t>(line.substr(0, tab));
        x.index = it.index;
        x.us = it.us.count();
        entry = line.substr(tab + 1);
      }
      ParseEntry(p, entry, x.id);
      r.items.push_back(x);
    } catch (const Exception& e) {
      sim::Fail("bad-line", "%s: `%s`: %s", what, Esc(line).c_str(), e.what());
    }
  }
  return r;
}

// Given the complete history.
void CheckClient(const Client& c, World& w, const string& what_s) {
  const char* const what = what_s.c_str();
  const Params& p = c.p;
  if (!c.got_head) return;
  const ChunkedReader& r = *c.r;
  SIM_CHECK(r.error.empty(), "malformed-response", "%s: %s", what, r.error.c_str());
  if (r.code == 204) {
    SIM_CHECK(p.nowait, "no-content", "%s: 204", what);
    // Nothing to return at that time.
    uint64_t first = w.m.by_index.size();
    for (const auto& e : w.m.by_index) {
      if (p.i >= 0 && static_cast<int64_t>(e.first) < p.i) continue;
      if (p.tail == 0) continue;
      if (p.since > 0 && e.second.us < p.since) continue;
      if (p.recent > 0 && e.second.us < c.wall1 - p.recent) continue;
      first = e.first;
      break;
    }
    SIM_CHECK(first >= c.size0, "no-content", "%s: 204, while the entry %llu was there", what, (ull)first);
    sim::Count("no_content");
    return;
  }
  SIM_CHECK(r.code == 200, "code", "%s: the code is %d", what, r.code);
  const auto sh = r.headers.find("x-current-stream-size");
  SIM_CHECK(sh != r.headers.end(), "size-header", "%s: no X-Current-Stream-Size", what);
  const uint64_t size_header = strtoull(sh->second.c_str(), nullptr, 10);
  SIM_CHECK(size_header >= c.size0 && size_header <= c.size1, "size-header", "%s: X-Current-Stream-Size is %llu, while it was from %llu to %llu", what, (ull)size_header, (ull)c.size0, (ull)c.size1);
  const Received got = ParseBody(p, r.body, !r.done, what);
  // The first entry to expect: anything between the two, as the stream was being published to.
  uint64_t lo = 0, hi = 0;
  const auto first_at = [&](int64_t us) { for (const auto& e : w.m.by_index) if (e.second.us >= us) return e.first; return static_cast<uint64_t>(w.m.by_index.size()); };
  if (p.tail >= 0) {
    const uint64_t t = p.tail;
    lo = c.size0 > t ? c.size0 - t : 0;
    hi = size_header > t ? size_header - t : 0;
  } else if (p.recent > 0) {
    lo = first_at(c.wall0 - p.recent);
    hi = first_at(c.wall1 - p.recent);
  } else if (p.since > 0) {
    lo = hi = first_at(p.since);
  }
  if (p.i >= 0) { lo = std::max<uint64_t>(lo, p.i); hi = std::max<uint64_t>(hi, p.i); }
  // The entries, as a contiguous range of the history.
  uint64_t next = ~0ull, count = 0, bytes = 0;
  int64_t first_us = -1, prev = -1;
  for (const auto& x : got.items) {
    if (x.head) {
      SIM_CHECK(x.us > prev, "order", "%s: the head of %lld after %lld", what, (ll)x.us, (ll)prev);
      prev = x.us;
      if (next != ~0ull && w.m.by_index.count(next)) SIM_CHECK(x.us < w.m.by_index[next].us, "order", "%s: the head of %lld precedes the entry at %lld", what, (ll)x.us, (ll)w.m.by_index[next].us);
      if (first_us < 0) first_us = x.us;
      if (p.since > 0) SIM_CHECK(x.us >= p.since, "range", "%s: the head of %lld precedes `since`", what, (ll)x.us);
      if (p.period > 0) SIM_CHECK(x.us <= first_us + p.period, "range", "%s: the head of %lld is past the period", what, (ll)x.us);
      continue;
    }
    SIM_CHECK(w.m.by_id.count(x.id), "not-published", "%s: the entry with ID %llu has not been published", what, (ull)x.id);
    const Item& it = w.m.by_id[x.id];
    if (!p.entries_only && !p.array) SIM_CHECK(x.index == it.index && x.us == it.us, "index", "%s: the entry with ID %llu is (%llu, %lld), received as (%llu, %lld)", what, (ull)x.id, (ull)it.index, (ll)it.us, (ull)x.index, (ll)x.us);
    if (next == ~0ull) {
      SIM_CHECK(it.index >= lo && it.index <= hi, "range", "%s: the first entry is %llu, it should have been from %llu to %llu", what, (ull)it.index, (ull)lo, (ull)hi);
      next = it.index;
    }
    SIM_CHECK(it.index == next, "order", "%s: the entry %llu where %llu is expected", what, (ull)it.index, (ull)next);
    SIM_CHECK(it.us > prev, "order", "%s: the entry at %lld after %lld", what, (ll)it.us, (ll)prev);
    prev = it.us;
    if (first_us < 0) first_us = it.us;
    if (p.period > 0) SIM_CHECK(it.us <= first_us + p.period, "range", "%s: the entry at %lld is past the period", what, (ll)it.us);
    ++next;
    ++count;
    if (p.stop_after_bytes > 0) SIM_CHECK(bytes < static_cast<uint64_t>(p.stop_after_bytes), "range", "%s: an entry after %llu bytes", what, (ull)bytes);
    bytes += x.bytes;
  }
  if (p.n > 0) SIM_CHECK(count <= static_cast<uint64_t>(p.n), "range", "%s: %llu entries", what, (ull)count);
  sim::Count("http_entries", count);
  // Was it complete?
  const bool by_n = p.n > 0 && count == static_cast<uint64_t>(p.n);
  const bool by_bytes = p.stop_after_bytes > 0 && bytes >= static_cast<uint64_t>(p.stop_after_bytes);
  const bool cut = c.terminate_sent || c.how == Client::kDestroy;
  if (r.done) {
    if (p.array) SIM_CHECK(got.opened ? got.closed : got.error_message, "bad-array", "%s: the array is not closed", what);
    if (!by_n && !by_bytes && !cut) {
      // Then it is `period` or `nowait`.
      const uint64_t upto = next == ~0ull ? std::min<uint64_t>(hi, w.m.by_index.size()) : next;
      const bool past_period = p.period > 0 && (first_us >= 0 || p.array || p.entries_only);  // The heads are not seen there.
      if (past_period && first_us >= 0 && upto < w.m.by_index.size() && w.m.by_index[upto].us > first_us + p.period) { sim::Count("ended_by_period"); }
      else if (p.nowait && upto >= c.size0) { sim::Count("ended_by_nowait"); }
      else if (past_period && (w.heads || !count || ((p.array || p.entries_only) && upto > count && w.m.by_index.count(upto) && w.m.by_index[upto].us > w.m.by_index[upto - count - 1].us + p.period))) {  // By a head, or since a head, which may be the one of the entry before the first one.
        sim::Count("ended_by_head");
      } else sim::Fail("ended-early", "%s: the response has ended after %llu entries, the next one would be %llu of %llu: `%s`", what, (ull)count, (ull)upto, (ull)w.m.by_index.size(), Esc(r.body).c_str());
    }
    sim::Count("complete_responses");
  } else {
    SIM_CHECK(c.cut_by_us || cut || Lossy() || r.reset, "truncated", "%s: the response has not been completed", what);
  }
}

Params RandomParams(uint64_t size, int64_t t0, World& w) {
  Params p;
  // At times exactly at the boundaries.
  vector<int64_t> us;
  { sim::Atomic a; for (const auto& e : w.m.by_index) us.push_back(e.second.us); }
  const bool exact = us.size() > 1 && sim::WB(0.4);
  if (sim::WB(0.4)) p.i = sim::W(size + 4);
  switch (sim::W(5)) {
    case 0: p.tail = sim::W(size + 3); break;
    case 1: p.since = exact ? us[sim::W(us.size())] + static_cast<int64_t>(sim::W(2)) : std::max<int64_t>(1, t0 + sim::WR(-3000, 12000)); break;
    case 2: p.recent = 1 + sim::W(sim::WB() ? 2000 : 20000); break;
    default: break;
  }
  if (sim::WB(0.3)) p.n = 1 + sim::W(sim::WB(0.2) ? 16 : 6);
  if (sim::WB(0.2)) {
    p.period = 1 + sim::W(6000);
    if (exact) {
      const size_t a = sim::W(us.size() - 1), b = a + 1 + sim::W(us.size() - 1 - a);
      p.period = us[b] - us[a] + static_cast<int64_t>(sim::W(2));
      if (sim::WB(0.7)) { p.i = a; p.tail = p.since = p.recent = -1; }
    }
  }
  if (sim::WB(0.15)) p.stop_after_bytes = 1 + sim::W(400);
  p.nowait = sim::WB(0.4);
  p.entries_only = sim::WB(0.2);
  p.array = sim::WB(0.2);
  p.checked = sim::WB(0.3);
  if (sim::WB(0.2)) p.json = 1;
  return p;
}

template <typename S> void ViaHTTP(bool lossy, bool destroy) {
  sim::SetLimits(600000000, 4000ull * 1000000);
  h::Chaos(0.5);
  auto reserved = net::ReserveLocalPort();
  const uint16_t port = reserved;
  auto server = std::make_unique<HTTPServerPOSIX>(std::move(reserved));
  auto stream = std::make_unique<Owned<S>>(Make<S>::Go());
  HTTPServerPOSIX::HTTPRoutesScope scope;
  scope += server->Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, **stream);
  // The same stream may well be exposed on two ports, and then it is called from two threads.
  std::unique_ptr<HTTPServerPOSIX> server2;
  uint16_t port2 = port;
  if (sim::CB(0.3)) {
    auto reserved2 = net::ReserveLocalPort();
    port2 = reserved2;
    server2 = std::make_unique<HTTPServerPOSIX>(std::move(reserved2));
    scope += server2->Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, **stream);
  }
  World w;
  const auto publish = [&]() {
    const uint64_t id = w.m.NewId();
    const auto r = Pub(*(*stream)->Publisher(), id);
    w.m.Done(id, r);
    sim::Atomic a;
    w.min_size = std::max(w.min_size, r.index + 1);
  };
  const int pre = sim::C(2) ? sim::C(9) : 0;
  for (int i = 0; i < pre; ++i) { publish(); if (sim::WB(0.5)) sim::SleepUs(sim::W(1500)); }
  const int64_t t0 = sim::WallUs();
  const bool heads = w.heads = sim::CB(0.4);
  NetChaos(lossy);
  // A server which is sending to a client which does not read does not serve anything else, terminating included.
  const int nclients = 1 + sim::C(4);
  vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; ++i) {
    clients.push_back(std::make_unique<Client>());
    Client& c = *clients.back();
    c.how = static_cast<decltype(c.how)>(sim::C(3));
    if (destroy && sim::CB(0.6)) c.how = Client::kDestroy;
    c.after = sim::C(2) ? 0 : sim::C(600);
  }
  bool published = false;
  h::Threads t, pubs;
  const int np = 1 + sim::C(2);
  int pubs_left = np;
  for (int i = 0; i < np; ++i) {
    pubs.Go([&]() {
      const int ops = sim::W(12);
      for (int k = 0; k < ops; ++k) {
        if (heads && sim::WB(0.4)) { try { (*stream)->Publisher()->UpdateHead(); } catch (const ss::InconsistentTimestampException&) { } }
        else publish();
        if (sim::WB(0.6)) sim::SleepUs(sim::W(2500));
      }
      sim::Atomic a;
      --pubs_left;
    });
  }
  int left = nclients;
  for (auto& cp : clients) {
    Client* const c = cp.get();
    t.Go([&, c]() {
      if (sim::WB(0.6)) sim::SleepUs(sim::W(6000));
      c->p = RandomParams(pre + 6, t0, w);
      if (c->how == Client::kDestroy) c->p.nowait = false;
      { sim::Atomic a; c->size0 = w.min_size; c->wall0 = time::Now().count(); }
      c->conn = std::make_unique<RawConn>(sim::WB() ? port : port2);
      c->r = std::make_unique<ChunkedReader>(*c->conn);
      ChunkedReader& r = *c->r;
      if (c->conn->fd >= 0 && c->conn->Send("GET /s" + c->p.Query() + " HTTP/1.1\r\nHost: localhost\r\n\r\n")) {
        c->connected = true;
        if (r.Head()) {
          { sim::Atomic a; c->got_head = true; c->size1 = w.m.attempted.size(); c->wall1 = time::Now().count(); c->id = r.headers["x-current-stream-subscription-id"]; }
          if (r.code == 200) {
            while (true) {
              if ((c->how == Client::kDisconnect) && r.body.size() >= c->after) { sim::Atomic a; c->cut_by_us = true; break; }
              if (!r.Chunk()) break;
              sim::Atomic a;
              c->body_size = r.body.size();
            }
          } else if (r.code == 204) {
            r.done = true;
          }
        }
      }
      if (c->how == Client::kDisconnect) c->conn->Close();
      sim::Atomic a;
      c->finished = true;
      --left;
    });
  }
  // Terminates the ones which are to be terminated, at some point.
  const std::function<void(Client&, bool, int)> terminate = [&](Client& c, bool final, int attempt) {
    string id;
    { sim::Atomic a; if (!c.got_head || c.id.empty()) return; id = c.id; c.terminate_sent = true; }
    RawConn tc(sim::WB() ? port : port2);
    string raw;
    if (tc.fd >= 0 && tc.Send("GET /s?terminate=" + id + " HTTP/1.1\r\n\r\n") && tc.ReadAll(raw)) {
      const ParsedResponse pr = ParseResponse(raw);
      // Its registration completes after the headers of the response have been sent.
      if (port2 != port && pr.code == 404 && attempt < 10) {
        sim::Count("terminated_too_early");
        if (final) { sim::SleepUs(1000000); terminate(c, true, attempt + 1); }
        return;
      }
      SIM_CHECK(pr.error.empty() && pr.code == 200, "terminate", "terminating a subscription: `%s`", Esc(raw).c_str());
      sim::Atomic a;
      c.terminate_ok = true;
      sim::Count("terminated");
    } else {
      SIM_CHECK(!final, "terminate", "terminating a subscription has failed, with no faults: `%s`", Esc(raw).c_str());
    }
  };
  for (auto& c : clients) {
    if (c->how == Client::kTerminate && sim::WB(0.6)) { sim::SleepUs(sim::W(4000)); terminate(*c, false, 0); }
    if (sim::WB(0.2)) {
      RawConn tc(port);
      string raw;
      if (tc.fd >= 0 && tc.Send("GET /s?terminate=nope HTTP/1.1\r\n\r\n") && tc.ReadAll(raw)) SIM_CHECK(ParseResponse(raw).code == 404, "terminate", "terminating what does not exist: `%s`", Esc(raw).c_str());
    }
    if (sim::WB(0.3)) {
      uint64_t s0;
      { sim::Atomic a; s0 = w.min_size; }
      const bool head = sim::WB();
      RawConn tc(port);
      string raw;
      if (tc.fd >= 0 && tc.Send(head ? "HEAD /s HTTP/1.1\r\n\r\n" : "GET /s?sizeonly HTTP/1.1\r\n\r\n") && tc.ReadAll(raw)) {
        sim::Atomic a;
        const ParsedResponse pr = ParseResponse(raw);
        const string s = head ? (pr.headers.count("x-current-stream-size") ? pr.headers.at("x-current-stream-size") : "") : pr.body;
        const uint64_t n = strtoull(s.c_str(), nullptr, 10);
        SIM_CHECK(pr.error.empty() && pr.code == 200 && !s.empty() && n >= s0 && n <= w.m.attempted.size(), "size", "the size is `%s`, it should be from %llu to %llu", Esc(s).c_str(), (ull)s0, (ull)w.m.attempted.size());
      }
    }
  }
  if (destroy) {
    if (sim::WB()) sim::SleepUs(sim::W(20000));
    pubs.Join();
    sim::FaultsOff();
    scope = nullptr;
    { sim::Atomic a; for (auto& c : clients) if (!c->finished) c->how = Client::kDestroy; }
    const uint64_t d0 = sim::NowUs();
    stream = nullptr;
    SIM_CHECK(sim::NowUs() - d0 < 100000000, "slow-destruction", "it took %llu us to destroy the stream", (ull)(sim::NowUs() - d0));
    // The ones which were late get 404 or nothing; the others are completed.
    t.Join();
    { sim::Atomic a; for (auto& c : clients) if (c->got_head && c->r->code == 404) c->got_head = false; }
    server = nullptr;
    server2 = nullptr;
  } else {
    pubs.Join();
    sim::FaultsOff();
    // Everything in the range of those which are not over must get there.
    const uint64_t total = w.m.by_index.size();
    for (auto& cp : clients) {
      Client* const c = cp.get();
      const auto got_everything = [&]() {
        sim::Atomic a;
        if (c->finished) return true;
        if (!c->got_head || c->r->code != 200) return false;
        const Received g = ParseBody(c->p, c->r->body, true, "progress");
        uint64_t n = 0, next = 0;
        for (const auto& x : g.items) if (!x.head) { ++n; next = w.m.by_id.at(x.id).index + 1; }
        if (n) return next == total;
        // It may well be that there is nothing in the range.
        uint64_t first = 0;
        if (c->p.tail >= 0) first = c->size1 > static_cast<uint64_t>(c->p.tail) ? c->size1 - c->p.tail : 0;
        for (const auto& e : w.m.by_index) {
          if (e.first < first || static_cast<int64_t>(e.first) < c->p.i) continue;
          if (c->p.since > 0 && e.second.us < c->p.since) continue;
          if (c->p.recent > 0 && e.second.us < c->wall1 - c->p.recent) continue;
          return false;
        }
        return !c->p.nowait;
      };
      SIM_CHECK(sim::WaitUntil(got_everything, 200000000), "not-delivered", "`%s`: a subscriber has not got everything: `%s`", c->p.Query().c_str(), Esc(c->r ? c->r->raw : "").c_str());
    }
    // End the ones which go on.
    for (auto& cp : clients) {
      Client* const c = cp.get();
      bool over;
      { sim::Atomic a; over = c->finished; }
      if (over) continue;
      terminate(*c, true, 0);
      SIM_CHECK(sim::WaitUntil([&]() { sim::Atomic a; return c->finished; }, 100000000), "not-terminated", "`%s`: the subscription goes on after having been terminated", c->p.Query().c_str());
    }
    t.Join();
  }
  w.m.CheckComplete();
  if (stream) w.m.CheckStored(*stream);
  for (auto& c : clients) {
    const bool lost = lossy;
    if (!lost && !destroy) SIM_CHECK(c->got_head, "no-response", "`%s`: no response", c->p.Query().c_str());
    sim::Atomic a;
    if (lost && c->r && !c->r->done) c->cut_by_us = true;
    CheckClient(*c, w, c->p.Query());
    if (c->got_head) sim::Cover(std::to_string(c->r->code) + std::to_string(c->r->done) + std::to_string(c->how) + std::to_string(c->r->body.size() / 40) + c->p.Query().substr(0, 3));
  }
  if (!destroy) {
    scope = nullptr;
    if (sim::WB()) { stream = nullptr; server = nullptr; server2 = nullptr; } else { server = nullptr; server2 = nullptr; stream = nullptr; }
  }
}
}  // namespace

SIM_SCENARIO("S05", memory_via_http, 3) { ViaHTTP<MemStream>(false, false); }
SIM_SCENARIO("S05", file_via_http, 2) { ViaHTTP<FileStream>(false, false); }
SIM_SCENARIO("S05", memory_via_http_lossy, 2) { ViaHTTP<MemStream>(true, false); }
SIM_SCENARIO("S05", file_via_http_destroyed, 2) { ViaHTTP<FileStream>(false, true); }
SIM_SCENARIO("S05", memory_via_http_destroyed_lossy, 1) { ViaHTTP<MemStream>(true, true); }
