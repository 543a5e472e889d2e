// N01, N02, N03: the HTTP server and the HTTP client.
#include "http_common.h"
#include "/repo/bricks/file/file.h"

namespace {
string HexByte(unsigned char c, bool upper) { char b[4]; snprintf(b, sizeof b, upper ? "%%%02X" : "%%%02x", c); return b; }
// Percent-encode, leaving some of the safe characters as they are.
string Encode(const string& s, bool query) {
  string r;
  for (unsigned char c : s) {
    const bool safe = isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~' || c == '!' || c == '\'' || c == '(' || c == ')';
    if (safe && !sim::WB(0.1)) r += c;
    else if (c == ' ' && sim::WB(0.5)) r += '+';
    else if ((c == ':' || c == '@' || c == ',' || c == ';' || c == '*' || c == '$') && sim::WB(0.7)) r += c;
    else if (query && (c == '/' || c == '?') && sim::WB(0.5)) r += c;
    else r += HexByte(c, sim::WB(0.5));
  }
  return r;
}
string Word(size_t max) {
  string s;
  const size_t n = 1 + sim::W(max);
  for (size_t i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_."[sim::W(45)];
  return s;
}
string AnyText(size_t max) {  // Arbitrary bytes, with an emphasis on the nasty ones.
  string s;
  const size_t n = sim::W(max + 1);
  for (size_t i = 0; i < n; ++i) s += sim::WB(0.6) ? "ab%+&=?#/:@ ;\xd0\x96\xff\x01\x7f\"'"[sim::W(21)] : static_cast<char>(1 + sim::W(255));
  return s;
}
string AnyBody(uint64_t id) {
  static const size_t kEdges[] = {0, 1, 2, 100, 16384 - 200, 16383, 16384, 16385, 20000, 31948, 40000, 70000};
  size_t n = sim::WB(0.6) ? sim::W(60) : sim::WB(0.7) ? sim::W(3000) : kEdges[sim::W(12)] + sim::W(3);
  string s = h::Payload(id, n);
  const size_t nasty = n ? sim::W(6) : 0;
  for (size_t i = 0; i < nasty; ++i) {
    static const char* const kNasty[] = {"\r\n", "\r\n\r\n", "0\r\n\r\n", "\r", "\n", "HTTP/1.1 200 OK\r\n", "\xff\xfe"};
    const string x = sim::WB(0.2) ? string(1, '\0') : string(kNasty[sim::W(7)]);
    const size_t at = sim::WB(0.3) ? 0 : sim::WB(0.3) ? s.size() : sim::W(s.size() + 1);
    s.insert(at, x);
  }
  return s;
}

// ---- N01: what the handler sees is what has been sent ----------------------------------------------------------------
struct Route { const char* path; int min_args, max_args; };
const Route kRoutes[] = {{"/a", 0, 0}, {"/a", 1, 1}, {"/a/b", 0, 1}, {"/a/b/c", 0, 15}, {"/d", 0, 15}, {"/d/e", 2, 2}, {"/x-y_z.~!$&'()*+,;=:@", 0, 1}};
struct Seen {
  string route, method, base_path, body;
  bool trailing = false;
  vector<string> args;
  vector<std::pair<string, string>> query;
  std::map<string, string> headers, cookies;
};
string Diff(const Seen& a, const Seen& b) {  // Sent, and then seen.
#define D(f) if (a.f != b.f) return string(#f) + ": sent `" + Esc(a.f) + "`, the handler has seen `" + Esc(b.f) + "`"
  D(route); D(method); D(base_path); D(body);
#undef D
  if (a.trailing != b.trailing) return "url_path_had_trailing_slash";
  if (a.args.size() != b.args.size()) return "the number of URL arguments: " + std::to_string(a.args.size()) + " sent, " + std::to_string(b.args.size()) + " seen";
  for (size_t i = 0; i < a.args.size(); ++i) if (a.args[i] != b.args[i]) return "URL argument: sent `" + Esc(a.args[i]) + "`, seen `" + Esc(b.args[i]) + "`";
  if (a.query.size() != b.query.size()) return "the number of query parameters: " + std::to_string(a.query.size()) + " sent, " + std::to_string(b.query.size()) + " seen";
  for (size_t i = 0; i < a.query.size(); ++i) if (a.query[i] != b.query[i]) return "query parameter: sent `" + Esc(a.query[i].first) + "`=`" + Esc(a.query[i].second) + "`, seen `" + Esc(b.query[i].first) + "`=`" + Esc(b.query[i].second) + "`";
  for (const auto& kv : a.headers) { const auto it = b.headers.find(kv.first); if (it == b.headers.end()) return "the header " + kv.first + " is missing"; if (it->second != kv.second) return "header " + kv.first + ": sent `" + Esc(kv.second) + "`, seen `" + Esc(it->second) + "`"; }
  for (const auto& kv : b.headers) if (!a.headers.count(kv.first)) return "an extra header " + kv.first;
  if (a.cookies != b.cookies) return "cookies";
  return "";
}
Seen See(const string& route, const Request& r) {
  Seen s;
  s.route = route;
  s.method = r.method;
  s.base_path = r.url.path;
  s.body = r.body;
  s.trailing = r.url_path_had_trailing_slash;
  for (const string& a : r.url_path_args) s.args.push_back(a);
  s.query = r.url.parameters_vector;
  for (const auto& x : r.headers) s.headers[Lower(x.header)] = x.value;
  for (const auto& c : r.headers.cookies) s.cookies[c.first] = c.second.value;
  return s;
}

constexpr uint64_t kGarbageId = 1000000;
string IdHeader(uint64_t id) { return id >= kGarbageId ? "garbage" : std::to_string(id) + "-" + std::to_string(id * 2654435761u % 1000000007); }
uint64_t IdFromHeader(const string& s) { const uint64_t id = strtoull(s.c_str(), nullptr, 10); return id < kGarbageId && s == IdHeader(id) ? id : kGarbageId; }

struct WireRequest { vector<size_t> cuts; string wire; Seen expect; bool found = true; bool chunked = false; size_t essential = 0; };

WireRequest MakeRequest(uint64_t id) {
  WireRequest w;
  Seen& e = w.expect;
  // The path.
  vector<string> comps, decoded;
  string path;
  const Route* base = sim::WB(0.9) ? &kRoutes[sim::W(7)] : nullptr;
  if (base) {
    string p = base->path;
    size_t o = 1;
    while (o <= p.size()) { size_t x = p.find('/', o); if (x == string::npos) x = p.size(); comps.push_back(p.substr(o, x - o)); decoded.push_back(""); o = x + 1; }
  }
  const size_t extra = sim::WB(0.5) ? sim::W(3) : sim::WB(0.8) ? 0 : sim::W(17);
  for (size_t i = 0; i < extra; ++i) {
    const bool plain = sim::WB(0.5);
    string d = plain ? string(1, "abcde"[sim::W(5)]) : AnyText(8);
    if (d.empty()) d = "z";
    comps.push_back(plain ? d : Encode(d, false));
    decoded.push_back(d);
  }
  vector<int> seps;
  for (size_t i = 0; i < comps.size(); ++i) { const int n = i && sim::WB(0.05) ? 2 : 1; seps.push_back(n); path += string(n, '/') + comps[i]; }
  const int trailing = sim::WB(0.15) ? 1 + sim::W(2) : comps.empty() ? 1 : 0;
  if (comps.empty()) path = "/"; else path += string(trailing, '/');
  e.trailing = path.back() == '/';
  w.found = false;
  for (size_t k = comps.size();; --k) {
    string prefix;
    for (size_t i = 0; i < k; ++i) prefix += string(seps[i], '/') + comps[i];
    if (!k) prefix = "/";
    for (const Route& r : kRoutes) {
      const int n = static_cast<int>(comps.size() - k);
      if (!w.found && prefix == r.path && n >= r.min_args && n <= r.max_args) {
        w.found = true;
        e.route = r.path;
        e.base_path = prefix;
        for (size_t i = k; i < comps.size(); ++i) {
          // The arguments which come from the components of some other route are not encoded.
          e.args.push_back(decoded[i].empty() ? [&]() { string x = comps[i]; for (char& c : x) if (c == '+') c = ' '; return x; }() : decoded[i]);
        }
      }
    }
    if (w.found || !k) break;
  }
  // The query.
  string target = path;
  const size_t nq = sim::WB(0.4) ? 1 + sim::W(4) : 0;
  for (size_t i = 0; i < nq; ++i) {
    const string k = AnyText(6) + std::to_string(i), v = sim::WB(0.8) ? AnyText(12) : "";
    e.query.emplace_back(k, v);
    target += "?&"[i > 0] + Encode(k, true) + (v.empty() && sim::WB(0.5) ? "" : "=" + Encode(v, true));
  }
  // The method, the headers, the body.
  static const char* const kMethods[] = {"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"};
  e.method = kMethods[sim::W(7)];
  string wire;
  if (sim::WB(0.05)) wire += "\r\n";
  string method_on_wire = e.method;
  vector<std::pair<string, string>> hs;
  if (sim::WB(0.05)) { e.method = "PATCH"; hs.emplace_back(sim::WB() ? "X-HTTP-Method-Override" : "x_http_method-override", sim::WB() ? "patch" : "PATCH"); }
  wire += method_on_wire + " " + target + " HTTP/1.1\r\n";
  hs.emplace_back("X-Id", IdHeader(id));
  hs.emplace_back("Host", "localhost");
  const size_t nh = sim::WB(0.5) ? sim::W(6) : 0;
  for (size_t i = 0; i < nh; ++i) {
    string k = "H" + Word(3), v;
    const size_t len = sim::WB(0.9) ? sim::W(20) : sim::W(6000);
    for (size_t j = 0; j < len; ++j) v += "abc XYZ:;=,/\\\"'09\t\xd0\xff"[sim::W(20)];
    hs.emplace_back(k, v);
  }
  if (sim::WB(0.3)) {
    string c;
    const size_t nc = 1 + sim::W(3);
    for (size_t i = 0; i < nc; ++i) { const string k = "c" + std::to_string(i), v = Word(8); e.cookies[k] = v; c += (i ? sim::WB() ? "; " : ";" : "") + k + "=" + v; }
    hs.emplace_back(sim::WB() ? "Cookie" : "cookie", c);
  }
  const bool needs_length = e.method == "POST" || e.method == "PUT" || e.method == "PATCH";
  const int kind = sim::W(3);
  if (kind == 1 || (needs_length && kind == 0)) {
    e.body = AnyBody(id);
    hs.emplace_back(sim::WB(0.7) ? "Content-Length" : sim::WB() ? "content-length" : "CONTENT_LENGTH", std::to_string(e.body.size()));
  } else if (kind == 2) {
    w.chunked = true;
    e.body = AnyBody(id);
    hs.emplace_back(sim::WB(0.7) ? "Transfer-Encoding" : "transfer-encoding", sim::WB(0.7) ? "chunked" : "Chunked");
  }
  for (size_t i = hs.size(); i > 1; --i) std::swap(hs[i - 1], hs[sim::W(i)]);
  for (auto& kv : hs) {
    string k = kv.first;
    if (sim::WB(0.1)) for (char& c : k) if (sim::WB()) c = static_cast<char>(sim::WB() ? toupper(c) : tolower(c));
    static const char* const kWs[] = {" ", "", "  ", "\t", " \t "};
    wire += k + ":" + kWs[sim::W(5)] + kv.second + (sim::WB(0.1) ? " \t" : "") + "\r\n";
    if (Lower(k) == "cookie") continue;
    string v = kv.second;
    while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
    while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
    const auto it = e.headers.find(Lower(k));
    if (it == e.headers.end()) e.headers[Lower(k)] = v;
    else if (!v.empty()) it->second = it->second.empty() ? v : it->second + ", " + v;
  }
  wire += "\r\n";
  w.cuts.push_back(wire.size());
  if (w.chunked) {
    size_t o = 0;
    const bool edges = sim::WB();
    while (o < e.body.size()) {
      const size_t left = e.body.size() - o;
      size_t n = 1 + sim::W(sim::WB(0.5) ? left : std::min<size_t>(left, 300));
      char b[40];
      static const char* const kHex[] = {"%zx", "%zX", "0%zx", "00%zX", "%zx;ext=1"};
      const char* const hex = kHex[sim::W(5)];
      if (edges && left > 16000 && sim::WB()) {
        // Have the chunk end next to where the buffer of the server may well end, whatever the server has there already.
        static const size_t kEnds[] = {16385, 16385, 16384, 31950};
        const size_t line = snprintf(b, sizeof b, hex, size_t(16000)) + 2, before = sim::WB() ? wire.size() : 0;
        const size_t end = kEnds[sim::W(4)] + sim::W(5) - 2;
        if (end > before + line && end - before - line <= left) n = end - before - line;
      }
      snprintf(b, sizeof b, hex, n);
      wire += string(b) + "\r\n";
      w.cuts.push_back(wire.size());
      wire += e.body.substr(o, n);
      w.cuts.push_back(wire.size());
      wire += "\r\n";
      o += n;
    }
    wire += "0\r\n";
    w.essential = wire.size();
    wire += "\r\n";
  } else if (kind == 1 || (needs_length && kind == 0)) {
    wire += e.body;
  }
  if (!w.chunked) w.essential = wire.size();
  w.wire = wire;
  return w;
}

string ReplyFor(uint64_t id) { return h::Payload(id ^ 0x5555, id % 7 == 0 ? 20000 + id % 977 : id % 50); }

struct SeenLog {
  std::map<uint64_t, vector<Seen>> seen;
  uint64_t garbage = 0;
};

string Mutate(string s) {
  const int n = 1 + sim::W(3);
  for (int i = 0; i < n && !s.empty(); ++i) {
    const size_t hdr = std::min(s.size(), s.find("\r\n\r\n") == string::npos ? s.size() : s.find("\r\n\r\n") + 40);
    const size_t at = sim::W(sim::WB(0.8) ? hdr : s.size());
    static const char* const kBad[] = {"-5\r\n", "FFFFFFFFFF\r\n", "80000000\r\n", "zz\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999\r\n",
                                       "Transfer-Encoding: chunked\r\n", "\r\n\r\n", "?", "#", " ", "://", "@", "%", "Content-Length: 17000000\r\n", ": x\r\n", "\r", "\n", "Content-Length: abc\r\n"};
    switch (sim::W(6)) {
      case 0: s.resize(at); break;
      case 1: s[at] = static_cast<char>(sim::W(256)); break;
      case 2: s.insert(at, kBad[sim::W(19)]); break;
      case 3: s.erase(at, 1 + sim::W(20)); break;
      case 4: s.insert(at, string(1, '\0')); break;
      default: {  // At the beginning of a line.
        const size_t eol = s.find("\r\n", at);
        s.insert(eol == string::npos ? at : eol + 2, kBad[sim::W(19)]);
      }
    }
  }
  return s;
}
// The chunk sizes between the sane ones and the ones the server rejects outright make it allocate gigabytes.
bool HugeChunk(const string& s) {
  for (size_t i = 0; i < s.size();) {
    if (!isxdigit(static_cast<unsigned char>(s[i]))) { ++i; continue; }
    size_t j = i;
    while (j < s.size() && isxdigit(static_cast<unsigned char>(s[j]))) ++j;
    size_t z = i;
    while (z < j && s[z] == '0') ++z;
    if (j - z >= 6 && j - z <= 8) return true;
    i = j;
  }
  return false;
}

void Requests(bool lossy, bool garbage) {
  sim::SetLimits(400000000, 4000ull * 1000000);
  h::Chaos(0.5);
  auto reserved = net::ReserveLocalPort();
  const uint16_t port = reserved;
  SeenLog log;
  HTTPServerPOSIX server(std::move(reserved));
  HTTPServerPOSIX::HTTPRoutesScope scope;
  for (const Route& r : kRoutes) {
    const string name = r.path;
    URLPathArgs::CountMask mask = static_cast<URLPathArgs::CountMask>(0);
    for (int i = r.min_args; i <= r.max_args; ++i) mask |= static_cast<URLPathArgs::CountMask>(1 << i);
    scope += server.Register(name, mask, [name, &log](Request r) {
      const string idh = r.headers.GetOrDefault("X-Id", "");
      const uint64_t id = IdFromHeader(idh);
      {
        sim::Atomic a;
        if (id >= kGarbageId) ++log.garbage; else log.seen[id].push_back(See(name, r));
      }
      r(ReplyFor(id), HTTPResponseCode.OK, Headers({{"X-Reply", std::to_string(id)}}), "text/plain");
    });
  }
  NetChaos(lossy);
  // A client which has sent something else than what it thinks it has may never read what it has been told meanwhile:
  // that server may only go on if the response fits the socket buffer.
  if (garbage && sim::K().net_sndbuf < 4096) sim::K().net_sndbuf = 4096;
  const int clients = 1 + sim::C(3), per = 1 + sim::C(4);
  const auto good = [&](uint64_t id, bool must) {
    WireRequest w = MakeRequest(id);
    const uint64_t lost_before = log.seen.size();
    (void)lost_before;
    RawConn c(port);
    string raw;
    bool complete = false, sent = false;
    if (c.fd >= 0) {
      if (sim::WB(0.7)) {
        sent = c.SendInPieces(w.wire, sim::WB() ? 1 : 1 + sim::W(8));
      } else {
        // Pause next to where the parts of the request begin.
        sent = true;
        size_t o = 0;
        for (const size_t cut : w.cuts) {
          const size_t at = std::min(w.wire.size(), cut + (sim::WB(0.6) ? 0 : sim::W(4)));
          if (at <= o || sim::WB(0.4)) continue;
          if (!(sent = c.Send(w.wire.substr(o, at - o)))) break;
          o = at;
          sim::SleepUs(sim::W(3000));
        }
        if (sent && o < w.wire.size()) sent = c.Send(w.wire.substr(o));
      }
      if (!sent) { sim::Count("requests_cut"); }
      if (sim::WB(0.2)) ::shutdown(c.fd, SHUT_WR);
      complete = c.ReadAll(raw);
    }
    sim::Atomic a;
    vector<Seen>& seen = log.seen[id];
    SIM_CHECK(seen.size() <= 1, "duplicate-request", "the handler has been called %d times for one request", int(seen.size()));
    for (const Seen& s : seen) {
      SIM_CHECK(w.found, "wrong-route", "`%s` should not have matched any route, but `%s` has been called", Esc(w.wire.substr(0, w.wire.find("\r\n"))).c_str(), s.route.c_str());
      const string d = Diff(w.expect, s);
      SIM_CHECK(d.empty(), "request-corrupted", "`%s`: %s", Esc(w.wire.substr(0, w.wire.find("\r\n"))).c_str(), d.c_str());
    }
    // Only the last CRLF of a chunked request may be left unread, and the connection be reset because of that.
    if (!must && !(complete && sent)) { sim::Count("requests_lost"); return; }
    if (w.chunked && !(complete && sent)) {
      SIM_CHECK(seen.size() == (w.found ? 1 : 0), "request-lost", "a complete chunked request has not reached the handler");
      sim::Count("chunked_requests_cut");
      return;
    }
    SIM_CHECK(c.fd >= 0 && sent && complete, "request-lost", "`%s`: the connection has been closed or reset by the server: %s", Esc(w.wire).c_str(), Esc(raw).c_str());
    const ParsedResponse p = ParseResponse(raw);
    SIM_CHECK(p.error.empty(), "malformed-response", "%s; the response: `%s`", p.error.c_str(), Esc(raw).c_str());
    if (!w.found) {
      SIM_CHECK(p.code == 404, "wrong-response", "`%s`: code %d instead of 404", Esc(w.wire.substr(0, w.wire.find("\r\n"))).c_str(), p.code);
      sim::Count("requests_404");
      return;
    }
    SIM_CHECK(p.code == 200, "wrong-response", "`%s`: code %d", Esc(w.wire.substr(0, w.wire.find("\r\n"))).c_str(), p.code);
    SIM_CHECK(seen.size() == 1, "request-lost", "the response is 200, but the handler has not been called");
    SIM_CHECK(p.body == ReplyFor(id), "response-corrupted", "the body differs: %d bytes instead of %d", int(p.body.size()), int(ReplyFor(id).size()));
    SIM_CHECK(p.headers.count("x-reply") && p.headers.at("x-reply") == std::to_string(id), "response-corrupted", "the wrong header");
    sim::Count("requests_served");
    sim::Cover(w.expect.route + w.expect.method + (w.chunked ? "c" : "-") + std::to_string(w.expect.args.size()) + "," + std::to_string(w.expect.body.size() / 1000));
  };
  {
    h::Threads t;
    for (int i = 0; i < clients; ++i) t.Go([&, i]() { for (int k = 0; k < per; ++k) good(1 + i * 100 + k, !lossy); });
    if (garbage) {
      const int n = 1 + sim::C(6);
      t.Go([&, n]() {
        for (int k = 0; k < n; ++k) {
          string s = sim::WB(0.9) ? Mutate(MakeRequest(kGarbageId + k).wire) : sim::WBytes(200);
          if (HugeChunk(s)) continue;
          RawConn c(port);
          if (c.fd < 0) continue;
          c.SendInPieces(s, 1 + sim::W(4));
          sim::Count("garbage_requests");
          if (sim::WB(0.5)) ::shutdown(c.fd, SHUT_WR);  // Else the connection is closed without waiting.
          else continue;
          string raw;
          c.ReadAll(raw);
        }
      });
    }
    t.Join();
  }
  sim::FaultsOff();
  good(999, true);  // The server must be serving.
}
}  // namespace

SIM_SCENARIO("N01", requests, 4) { Requests(false, false); }
SIM_SCENARIO("N01", requests_lossy, 2) { Requests(true, false); }
SIM_SCENARIO("N01", requests_garbage, 3) { Requests(false, true); }

// ---- N02: what the client gets is what the handler has sent ----------------------------------------------------------
namespace n02 {
CURRENT_STRUCT(Blob) {
  CURRENT_FIELD(id, uint64_t, 0);
  CURRENT_FIELD(text, std::string);
  CURRENT_FIELD(list, std::vector<uint64_t>);
};
struct TestException : current::Exception { using current::Exception::Exception; };

enum Kind { kString, kVector, kStruct, kResponse, kChunked, kThread, kThrow, kSilent, kRedirect, kTwice, kNumKinds };
struct Plan {
  Kind kind = kString;
  net::HTTPResponseCodeValue code = HTTPResponseCode.OK;
  string content_type = "text/plain", body;
  vector<std::pair<string, string>> set;  // The headers.
  std::map<string, string> cookies;
  bool cors = true;
  vector<std::pair<string, bool>> chunks;
  int cache = 0;
  string location;
  uint64_t delay = 0;
  // The request.
  string method;
  Seen expect;
  // What has happened.
  int calls = 0;
};
struct World {
  uint16_t port = 0;
  std::map<uint64_t, Plan> plans;
  std::mutex mutex;
  vector<std::thread> threads;
};

// The headers go through the container in some roundabout way; the model is a list of pairs.
Headers BuildHeaders(vector<std::pair<string, string>>& model) {
  Headers hs;
  const auto find = [&model](const string& k) { for (auto it = model.begin(); it != model.end(); ++it) if (Lower(it->first) == Lower(k)) return it; return model.end(); };
  const int n = sim::W(7);
  for (int i = 0; i < n; ++i) {
    static const char* const kNames[] = {"X-One", "x-one", "X_ONE", "X-Two", "x-two", "Three", "THREE", "X-Four"};
    const string k = kNames[sim::W(8)], v = sim::WB(0.9) ? Word(10) : "";
    const auto it = find(k);
    switch (sim::W(7)) {
      case 0: case 1: case 2:
        hs.Set(k, v);
        if (it == model.end()) model.emplace_back(k, v);
        else if (!v.empty()) it->second = it->second.empty() ? v : it->second + ", " + v;
        break;
      case 3:
        hs[k] = v;
        if (it == model.end()) model.emplace_back(k, v); else it->second = v;
        break;
      case 4:
        hs.Remove(k);
        if (it != model.end()) model.erase(it);
        break;
      case 5: { Headers copy(hs); hs = std::move(copy); break; }
      default: {
        Headers other;
        const bool overlap = sim::WB();
        if (overlap) other.Set(k, "old");
        other = hs;
        hs = other;
        break;
      }
    }
    SIM_CHECK(hs.size() == model.size(), "headers", "%d headers in the container instead of %d", int(hs.size()), int(model.size()));
    size_t j = 0;
    for (const auto& x : hs) {
      SIM_CHECK(j < model.size() && x.header == model[j].first && x.value == model[j].second, "headers", "header #%d is `%s: %s`", int(j), x.header.c_str(), x.value.c_str());
      ++j;
    }
    for (const auto& m : model) SIM_CHECK(hs.Has(m.first) && hs.Get(m.first) == m.second, "headers", "the lookup of `%s`", m.first.c_str());
    SIM_CHECK(hs.Has(k) == (find(k) != model.end()), "headers", "Has(`%s`)", k.c_str());
  }
  return hs;
}

template <uint64_t CACHE> void SendChunks(Request& r, const Plan& p, const Headers& hs) {
  auto sender = r.SendChunkedResponse<CACHE>(p.code, hs, p.content_type);
  for (const auto& c : p.chunks) {
    sender.Send(c.first, c.second ? net::ChunkFlush::Flush : net::ChunkFlush::NoFlush);
    if (sim::WB(0.1)) sim::SleepUs(sim::W(2000));
  }
}
void Respond(Request& r, Plan p, Headers hs) {
  switch (p.kind) {
    case kString: case kThread: r(p.body, p.code, hs, p.content_type); break;
    case kTwice: {
      r(p.body, p.code, hs, p.content_type);
      const string e = h::Throws([&]() { r("the second response"); });
      SIM_CHECK(!e.empty(), "second-response", "the second response to the same request has been accepted");
      break;
    }
    case kVector: r(vector<char>(p.body.begin(), p.body.end()), p.code, p.content_type, hs); break;
    case kStruct: r(ParseJSON<Blob>(p.body), p.code, hs); break;
    case kResponse: {
      Response response(p.body, p.code, p.content_type, hs);
      for (const auto& c : p.cookies) response.SetCookie(c.first, c.second);
      if (!p.cors) response.DisableCORS();
      if (sim::WB(0.3)) { Response copy; copy.SetHeader("X-One", "gone"); copy = response; r(copy); } else if (sim::WB(0.3)) { Response copy(response); r(std::move(copy)); } else r(response);
      break;
    }
    case kChunked:
      if (p.cache == 0) SendChunks<64>(r, p, hs); else if (p.cache == 1) SendChunks<1000>(r, p, hs); else SendChunks<CURRENT_BRICKS_HTTP_DEFAULT_CHUNK_CACHE_SIZE>(r, p, hs);
      break;
    case kRedirect: r("", HTTPResponseCode.Found, Headers({{"Location", p.location}}), "text/plain"); break;
    default: break;
  }
}
void Handle(World& w, Request r) {
  const uint64_t id = strtoull(r.url.query["id"].c_str(), nullptr, 10);
  std::unique_lock<std::mutex> lock(w.mutex);
  SIM_CHECK(w.plans.count(id), "wrong-request", "there has been no request with id `%s`", Esc(r.url.query["id"]).c_str());
  Plan& p = w.plans[id];
  ++p.calls;
  SIM_CHECK(p.calls == 1, "duplicate-request", "the handler is called for the second time for request %d", int(id));
  Seen s = See("/r", r);
  for (const char* k : {"host", "content-type", "content-length", "user-agent"}) {
    const bool expected = p.expect.headers.count(k);
    if (!expected) s.headers.erase(k);
  }
  const string d = Diff(p.expect, s);
  SIM_CHECK(d.empty(), "request-corrupted", "request %d: %s", int(id), d.c_str());
  vector<std::pair<string, string>> model;
  Headers hs = BuildHeaders(model);
  p.set = model;
  if (p.kind == kResponse) { if (p.cors) p.set.emplace_back("Access-Control-Allow-Origin", "*"); }
  else if (p.kind != kRedirect) for (const auto& c : p.cookies) hs.SetCookie(c.first, c.second);
  const Plan copy = p;
  lock.unlock();
  if (copy.kind == kThrow) throw TestException("in the handler");
  if (copy.kind == kThread) {
    auto shared = std::make_shared<Request>(std::move(r));
    auto headers = std::make_shared<Headers>(std::move(hs));
    lock.lock();
    w.threads.emplace_back([shared, headers, copy]() mutable {
      sim::SleepUs(copy.delay);
      try { Respond(*shared, copy, *headers); } catch (const current::Exception&) { sim::Count("responses_cut"); }
      shared = nullptr;
    });
  } else {
    if (copy.delay) sim::SleepUs(copy.delay);
    try { Respond(r, copy, std::move(hs)); } catch (const net::SocketException&) { sim::Count("responses_cut"); throw; }
  }
}

string ChunkText(uint64_t id, size_t n) { string s = h::Payload(id, n); for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') s[i] = '\n'; if (n > 3 && sim::WB(0.2)) s.replace(sim::W(n - 3), 2, "\r\n"); return s; }

Plan MakePlan(uint64_t id) {
  Plan p;
  p.kind = static_cast<Kind>(sim::W(kNumKinds));
  static const int kCodes[] = {200, 201, 202, 400, 403, 404, 405, 500, 503};
  p.code = HTTPResponseCode(kCodes[sim::WB(0.5) ? 0 : sim::W(9)]);
  if (sim::WB(0.3)) p.content_type = "application/x-" + Word(5);
  if (sim::WB(0.3)) p.delay = sim::W(5000);
  p.cors = sim::WB(0.7);
  p.body = AnyBody(id);
  if (p.kind == kStruct) {
    Blob b;
    b.id = id;
    b.text = h::Payload(id, sim::W(100));
    for (size_t i = sim::W(5); i > 0; --i) b.list.push_back(sim::W(1000));
    p.body = JSON(b);
    p.content_type = "";
  }
  if (p.kind == kChunked) {
    p.cache = sim::W(3);
    p.body.clear();
    const int n = sim::W(8);
    for (int i = 0; i < n; ++i) {
      static const size_t kSizes[] = {0, 1, 14, 15, 16, 57, 58, 59, 60, 61, 64, 990, 993, 994, 996, 1000, 17000, 40000};
      const string c = ChunkText(id * 100 + i, sim::WB(0.6) ? sim::W(80) : kSizes[sim::W(18)] + sim::W(2));
      p.chunks.emplace_back(c, sim::WB(0.5));
      p.body += c;
    }
  }
  if (p.kind != kRedirect && sim::WB(0.2)) p.cookies["c" + Word(3)] = Word(5);
  if (p.kind == kThrow || p.kind == kSilent) { p.code = HTTPResponseCode.InternalServerError; p.body = net::DefaultInternalServerErrorMessage(); p.content_type = net::constants::kDefaultHTMLContentType; p.cookies.clear(); }
  return p;
}

// The outcome must be exact.
template <typename R> void CheckResponse(const Plan& p, const R& r, const string& body, bool has_headers) {
  SIM_CHECK(r.code == p.code, "wrong-code", "code %d instead of %d", int(r.code), int(p.code));
  const string expected = p.kind == kStruct ? p.body + "\n" : p.body;
  SIM_CHECK(body == expected, "response-corrupted", "the body has %d bytes instead of %d: `%s` instead of `%s`", int(body.size()), int(expected.size()), Esc(body).c_str(), Esc(expected).c_str());
  if (!has_headers) return;
  if (p.kind != kThrow && p.kind != kSilent) {
    for (const auto& kv : p.set) SIM_CHECK(r.headers.Has(kv.first) && r.headers.Get(kv.first) == kv.second, "response-corrupted", "header `%s` should be `%s`", kv.first.c_str(), kv.second.c_str());
    for (const char* k : {"X-One", "X-Two", "Three", "X-Four", "Access-Control-Allow-Origin"}) {
      bool expected = false;
      for (const auto& kv : p.set) if (Lower(kv.first) == Lower(k)) expected = true;
      SIM_CHECK(r.headers.Has(k) == expected, "response-corrupted", "header `%s` is %s", k, expected ? "missing" : "extra");
    }
  }
  if (!p.content_type.empty()) SIM_CHECK(r.headers.GetOrDefault("Content-Type", "") == p.content_type, "response-corrupted", "the content type is `%s`", r.headers.GetOrDefault("Content-Type", "").c_str());
  for (const auto& c : p.cookies) SIM_CHECK(r.headers.cookies.count(c.first) && r.headers.cookies.at(c.first).value == c.second, "response-corrupted", "cookie `%s`", c.first.c_str());
}

struct Target { string url; };
// Composes the URL, and, in `p.expect`, what the handler should see.
string MakeUrl(World& w, uint64_t id, Plan& p) {
  string url = "http://localhost:" + std::to_string(w.port) + "/r";
  const int nargs = sim::WB(0.7) ? 0 : 1 + sim::W(3);
  for (int i = 0; i < nargs; ++i) { const string a = Word(5); p.expect.args.push_back(a); url += "/" + a; }
  p.expect.route = "/r";
  p.expect.base_path = "/r";
  url += "?id=" + std::to_string(id);
  p.expect.query.emplace_back("id", std::to_string(id));
  const int n = sim::WB(0.5) ? sim::W(4) : 0;
  for (int i = 0; i < n; ++i) {
    const string k = AnyText(4) + std::to_string(i), v = AnyText(10);
    p.expect.query.emplace_back(k, v);
    url += "&" + Encode(k, true) + "=" + Encode(v, true);
  }
  return url;
}
template <typename Q> Q& Decorate(Q& q, Plan& p) {
  const int n = sim::W(3);
  for (int i = 0; i < n; ++i) { const string k = "Q" + std::to_string(i) + Word(3), v = Word(12); q.SetHeader(k, v); p.expect.headers[Lower(k)] = v; }
  if (sim::WB(0.2)) { q.SetCookie("k1", "v1"); p.expect.cookies["k1"] = "v1"; if (sim::WB()) { q.SetCookie("k0", "vv"); p.expect.cookies["k0"] = "vv"; } }
  if (sim::WB(0.2)) { q.UserAgent("agent"); p.expect.headers["user-agent"] = "agent"; }
  return q;
}
void Publish(World& w, uint64_t id, const Plan& p) { std::lock_guard<std::mutex> lock(w.mutex); w.plans[id] = p; }
Plan Get(World& w, uint64_t id) { std::lock_guard<std::mutex> lock(w.mutex); return w.plans[id]; }

template <typename Q> void Run(World& w, uint64_t id, Plan p, Q& q, bool lossy) {
  p.expect.method = p.method;
  // A redirect leads to another plan.
  uint64_t last = id;
  bool allow = sim::WB(0.8), loop = false;
  if (p.kind == kRedirect) {
    q.AllowRedirects(allow);
    if (sim::WB(0.2)) {
      loop = true;
      p.location = q.url.substr(q.url.find("/r"));
      if (p.location != URL(q.url).path + URL(q.url).ComposeParameters()) p.location = URL(q.url).path + URL(q.url).ComposeParameters();
    } else {
      last = id + 1000;
      Plan next = MakePlan(last);
      if (next.kind == kRedirect) next.kind = kString;
      next.method = next.expect.method = p.method;
      next.expect = p.expect;
      next.expect.args.clear();
      next.expect.query = {{"id", std::to_string(last)}};
      Publish(w, last, next);
      p.location = (sim::WB() ? "http://localhost:" + std::to_string(w.port) : "") + "/r?id=" + std::to_string(last);
    }
  }
  Publish(w, id, p);
  const bool to_file = sim::WB(0.2);
  const string file = sim::RunDir() + "/response" + std::to_string(id);
  string body, error;
  http::HTTPResponse r;
  try {
    if (to_file) {
      const auto x = HTTP(q, http::SaveResponseToFile(file));
      SIM_CHECK(x.body_file_name == file, "wrong-file", "the file name");
      r = x;
      body = FileSystem::ReadFileAsString(file);
    } else {
      const auto x = HTTP(q);
      r = x;
      body = x.body;
    }
  } catch (const net::HTTPRedirectNotAllowedException&) {
    SIM_CHECK(p.kind == kRedirect && !allow, "wrong-exception", "a redirect has been reported");
    sim::Count("redirects_not_allowed");
    return;
  } catch (const net::HTTPRedirectLoopException&) {
    SIM_CHECK(p.kind == kRedirect && loop, "wrong-exception", "a redirect loop has been reported");
    sim::Count("redirect_loops");
    return;
  } catch (const current::Exception& e) {
    error = e.what();
  }
  if (!error.empty()) {
    SIM_CHECK(lossy, "spurious-failure", "request %d, kind %d: %s", int(id), int(p.kind), error.c_str());
    sim::Count("requests_failed");
    return;
  }
  SIM_CHECK(p.kind != kRedirect || (allow && !loop), "redirect", "the redirect should not have been followed");
  const Plan done = Get(w, last);
  SIM_CHECK(done.calls == 1, "request-lost", "a response has been received, but the handler has been called %d times", done.calls);
  CheckResponse(done, r, body, true);
  if (p.kind == kRedirect) SIM_CHECK(URL(r.url).path == "/r" && URL(r.url).query["id"] == std::to_string(last), "redirect", "the resulting URL is `%s`", r.url.c_str());
  sim::Count("requests_ok");
  sim::Cover(p.method + std::to_string(done.kind) + (to_file ? "f" : "m") + std::to_string(body.size() / 500));
}
void RunChunked(World& w, uint64_t id, Plan p, const string& url, bool post, bool lossy) {
  p.kind = kChunked;
  p.cookies.clear();
  if (post) { p.expect.method = "POST"; p.expect.body = AnyBody(id); p.method = "POST"; } else p.expect.method = p.method = "GET";
  if (p.chunks.empty()) p.body = "";
  if (p.chunks.empty() && sim::WB(0.7)) { p.chunks.emplace_back("a\nb\n\nc", true); p.body = "a\nb\n\nc"; }
  else { p.body = ""; for (auto& c : p.chunks) p.body += c.first; }
  const string content = post ? p.expect.body : "";
  Publish(w, id, p);
  string got, error;
  int done = 0;
  std::map<string, string> headers;
  vector<string> lines;
  net::HTTPResponseCodeValue code = HTTPResponseCode.InvalidCode;
  const auto on_header = [&](const string& k, const string& v) { headers[Lower(k)] = headers.count(Lower(k)) ? headers[Lower(k)] + ", " + v : v; };
  const auto on_chunk = [&](const string& c) { SIM_CHECK(!done, "chunk-after-done", "a chunk after the end"); SIM_CHECK(!c.empty(), "chunk", "an empty chunk"); got += c; };
  try {
    if (post) {
      http::ChunkedPOST q(url, content, "text/plain");
      q.OnHeader(on_header).OnChunk(on_chunk).OnDone([&]() { ++done; }).OnLine([&](const string& l) { lines.push_back(l); });
      code = HTTP(q);
    } else {
      http::ChunkedGET q(url);
      q.OnHeader(on_header).OnChunk(on_chunk).OnDone([&]() { ++done; }).OnLine([&](const string& l) { lines.push_back(l); });
      code = HTTP(q);
    }
  } catch (const current::Exception& e) {
    error = e.what();
  }
  SIM_CHECK(p.body.compare(0, got.size(), got) == 0, "response-corrupted", "the chunks received are not a prefix of the ones sent");
  SIM_CHECK(done == (error.empty() ? 1 : 0), "done-callback", "the done callback has been called %d times; the error: %s", done, error.c_str());
  const Plan d = Get(w, id);
  if (!error.empty()) { SIM_CHECK(lossy, "spurious-failure", "chunked request %d: %s", int(id), error.c_str()); sim::Count("requests_failed"); return; }
  SIM_CHECK(d.calls == 1, "request-lost", "the handler has been called %d times", d.calls);
  SIM_CHECK(code == p.code, "wrong-code", "code %d instead of %d", int(code), int(p.code));
  SIM_CHECK(got == p.body, "response-corrupted", "%d bytes received in chunks, of %d", int(got.size()), int(p.body.size()));
  for (const auto& kv : d.set) SIM_CHECK(headers.count(Lower(kv.first)) && headers[Lower(kv.first)] == kv.second, "response-corrupted", "header `%s`", kv.first.c_str());
  vector<string> expect;
  string cur;
  for (char c : p.body) if (c == '\n') { expect.push_back(cur); cur.clear(); } else cur += c;
  if (!cur.empty()) expect.push_back(cur);  // As the request object is destroyed.
  SIM_CHECK(lines == expect, "lines", "%d lines instead of %d", int(lines.size()), int(expect.size()));
  sim::Count("requests_chunked_ok");
}

void One(World& w, uint64_t id, bool lossy) {
  Plan p = MakePlan(id);
  string url = MakeUrl(w, id, p);
  if (p.kind == kChunked && sim::WB(0.5)) { RunChunked(w, id, p, url, sim::WB(0.3), lossy); return; }
  switch (sim::W(7)) {
    case 0: { http::GET q(url); p.method = "GET"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    case 1: { p.expect.body = AnyBody(id); http::POST q(url, p.expect.body); p.method = "POST"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    case 2: { p.expect.body = AnyBody(id); http::PUT q(url, p.expect.body, "x/y"); p.expect.headers["content-type"] = "x/y"; p.method = "PUT"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    case 3: { Blob b; b.id = id; b.text = h::Payload(id, 20); p.expect.body = JSON(b); http::PATCH q(url, b); p.method = "PATCH"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    case 4: { http::DELETE q(url); p.method = "DELETE"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    case 5: { http::HEAD q(url); p.method = "HEAD"; Decorate(q, p); Run(w, id, p, q, lossy); break; }
    default: {
      const string file = sim::RunDir() + "/request" + std::to_string(id);
      p.expect.body = AnyBody(id);
      FileSystem::WriteStringToFile(p.expect.body, file.c_str());
      http::POSTFromFile q(url, file, "a/b");
      p.method = "POST";
      Decorate(q, p); Run(w, id, p, q, lossy);
    }
  }
}

void Exchange(bool lossy) {
  sim::SetLimits(400000000, 4000ull * 1000000);
  h::Chaos(0.5);
  auto reserved = net::ReserveLocalPort();
  World w;
  w.port = reserved;
  {
    HTTPServerPOSIX server(std::move(reserved));
    auto scope = server.Register("/r", URLPathArgs::CountMask::Any, [&w](Request r) { Handle(w, std::move(r)); });
    NetChaos(lossy);
    {
      h::Threads t;
      const int clients = 1 + sim::C(3), per = 1 + sim::C(4);
      for (int i = 0; i < clients; ++i) t.Go([&w, i, per, lossy]() { for (int k = 0; k < per; ++k) One(w, 1 + i * 100 + k, lossy); });
      t.Join();
    }
    sim::FaultsOff();
    One(w, 999, false);
    while (true) {
      vector<std::thread> v;
      { std::lock_guard<std::mutex> lock(w.mutex); v.swap(w.threads); }
      if (v.empty()) break;
      for (auto& x : v) x.join();
    }
  }
}

// The other side breaks off at an arbitrary point: the client must say so, and must not pass a truncated response for a complete one.
void Truncated() {
  sim::SetLimits(400000000, 4000ull * 1000000);
  h::Chaos(0.5);
  NetChaos(false);
  const int ls = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  ::bind(ls, reinterpret_cast<sockaddr*>(&a), sizeof a);
  ::listen(ls, 16);
  socklen_t len = sizeof a;
  ::getsockname(ls, reinterpret_cast<sockaddr*>(&a), &len);
  const uint16_t port = ntohs(a.sin_port);
  const int n = 1 + sim::C(4);
  for (int i = 0; i < n; ++i) {
    string body = AnyBody(i + 1), wire = "HTTP/1.1 200 OK\r\nX-A: b\r\n";
    const bool chunked = sim::WB();
    if (chunked) {
      wire += "Transfer-Encoding: chunked\r\n\r\n";
      for (size_t o = 0; o < body.size();) {
        const size_t k = 1 + sim::W(sim::WB() ? body.size() - o : std::min<size_t>(body.size() - o, 100));
        char b[32];
        snprintf(b, sizeof b, "%zX\r\n", k);
        wire += b + body.substr(o, k) + "\r\n";
        o += k;
      }
      wire += "0\r\n";
    } else {
      wire += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    }
    const size_t essential = wire.size();
    if (chunked) wire += "\r\n";
    const bool cut = sim::WB(0.8) && !wire.empty();
    const size_t at = !cut ? wire.size() : sim::WB(0.3) ? essential - 1 - sim::W(std::min<size_t>(essential, 5)) : sim::W(essential);
    const bool reset = cut && sim::WB(0.3);
    std::thread server([&]() {
      int fd;
      while ((fd = ::accept(ls, nullptr, nullptr)) < 0 && errno == EINTR) {}
      RawConn c(fd, true);
      string q;
      c.ReadRequest(q);
      c.SendInPieces(wire.substr(0, at), 1 + sim::W(5));
      if (reset) { sim::SleepUs(sim::W(50000)); sim::NetResetAll(); }
    });
    string got, error;
    bool done = false;
    const string url = "http://localhost:" + std::to_string(port) + "/";
    const bool streaming = chunked && sim::WB();
    try {
      if (streaming) {
        http::ChunkedGET q(url);
        HTTP(q.OnChunk([&](const string& c) { got += c; }).OnDone([&]() { done = true; }));
      } else {
        got = sim::WB() ? HTTP(http::GET(url)).body : HTTP(http::POST(url, "x")).body;
        done = true;
      }
    } catch (const current::Exception& e) {
      error = e.what();
    }
    server.join();
    SIM_CHECK(body.compare(0, got.size(), got) == 0, "response-corrupted", "what has been received is not what has been sent");
    if (at < essential) {
      SIM_CHECK(!error.empty() && !done, "truncation-unnoticed", "the %s response of %d bytes has been cut after %d bytes, and the client has returned %d bytes of the body as if it were complete", chunked ? "chunked" : "plain", int(wire.size()), int(at), int(got.size()));
      sim::Count("truncated_responses");
    } else {
      SIM_CHECK(error.empty() && got == body && done, "spurious-failure", "a complete response: %s", error.c_str());
      sim::Count("complete_responses");
    }
  }
  ::close(ls);
}
}  // namespace n02
SIM_SCENARIO("N02", exchange, 4) { n02::Exchange(false); }
SIM_SCENARIO("N02", exchange_lossy, 3) { n02::Exchange(true); }
SIM_SCENARIO("N02", truncated, 3) { n02::Truncated(); }

// ---- N03: the routes ------------------------------------------------------------------------------------------------
namespace n03 {
// A slot is a (path, number of URL arguments); its handler changes over time, and every version of it has a lifetime.
// Times are the observer's event counter: the version is surely installed between `up` and `going`, and surely is not
// before `coming` and after `gone`.
struct Version { uint64_t coming = 0, up = ~0ull, going = ~0ull, gone = ~0ull; bool destroyed = false; int running = 0; };
struct World {
  uint16_t port = 0;
  uint64_t clock = 0;
  std::map<std::pair<string, int>, vector<int>> slots;  // To the versions.
  vector<Version> versions;
  uint64_t Tick() { return ++clock; }
};
const char* const kPaths[] = {"/", "/a", "/a/b", "/a/b/c"};

// The object the handler uses; the user frees it as soon as the route is gone.
struct Target {
  World* w;
  HTTPServerPOSIX* server;
  int version;
  uint64_t magic = 0xfeedfacecafebeefull;
  Target(World* w, HTTPServerPOSIX* s, int v) : w(w), server(s), version(v) {}
  ~Target() {
    sim::Atomic a;
    SIM_CHECK(w->versions[version].running == 0, "destroyed-in-use", "the route has been unregistered while its handler is running");
    w->versions[version].destroyed = true;
    magic = 0;
  }
  void Enter() {
    sim::Atomic a;
    SIM_CHECK(magic == 0xfeedfacecafebeefull, "use-after-unregister", "a handler is called after its route has been unregistered");
    SIM_CHECK(!w->versions[version].destroyed, "use-after-unregister", "a handler is called after its route has been unregistered");
    ++w->versions[version].running;
  }
  void Leave() { sim::Atomic a; --w->versions[version].running; }
  void Serve(Request r) {
    Enter();
    if (sim::WB(0.3)) sim::SleepUs(sim::W(3000));
    const int behaviour = sim::W(12);
    if (behaviour == 0) {
      // The handler registers some other route for a moment.
      const string path = "/temporary" + std::to_string(version);
      try {
        auto scope = server->Register(path, [](Request r) { r("temporary"); });
        sim::Count("registered_from_a_handler");
      } catch (const http::HandlerAlreadyExistsException&) {
      }
    }
    if (behaviour == 1) { Leave(); throw n02::TestException("user code"); }
    r("v" + std::to_string(version));
    if (behaviour == 2) sim::SleepUs(sim::W(3000));
    SIM_CHECK(magic == 0xfeedfacecafebeefull, "use-after-unregister", "the object is gone while its handler is running");
    Leave();
  }
};

int NewVersion(World& w, const string& path, int mask_lo, int mask_hi) {
  sim::Atomic a;
  const int v = static_cast<int>(w.versions.size());
  w.versions.emplace_back();
  w.versions[v].coming = w.Tick();
  for (int i = mask_lo; i <= mask_hi; ++i) w.slots[{path, i}].push_back(v);
  return v;
}
void Mark(World& w, int v, uint64_t Version::* f) { sim::Atomic a; w.versions[v].*f = w.Tick(); }

void Routes() {
  sim::SetLimits(200000000, 4000ull * 1000000);
  h::Chaos();
  auto reserved = net::ReserveLocalPort();
  World w;
  w.port = reserved;
  if (sim::CB(0.4)) { sim::K().net_delay = 0.3; sim::K().net_delay_max_us = 10; }
  if (sim::CB(0.4)) sim::K().net_segment = 0.2;
  if (sim::CB(0.3)) sim::K().net_eintr = 0.05;
  const int clients = 1 + sim::C(3), per = 1 + sim::C(8), owners = 1 + sim::C(3);
  h::Threads t;
  const bool early = sim::CB(0.4);
  std::atomic<bool> go(early);
  std::atomic<int> owners_left(owners);
  const auto client = [&]() {
    while (!go) sim::SleepUs(200);
    for (int k = 0; k < per; ++k) {
      // What to ask for.
      vector<string> comps;
      static const char* const kComps[] = {"a", "b", "c", "d"};
      const int n = sim::W(5);
      for (int i = 0; i < n; ++i) comps.push_back(sim::WB(0.8) ? kComps[i < 4 ? i : 3] : kComps[sim::W(4)]);
      string path;
      for (const auto& c : comps) path += "/" + c;
      if (path.empty()) path = "/";
      uint64_t t0;
      { sim::Atomic a; t0 = w.Tick(); }
      RawConn c(w.port);
      string raw;
      if (c.fd < 0 || !c.Send("GET " + path + " HTTP/1.1\r\n\r\n") || !c.ReadAll(raw)) sim::Fail("request-lost", "GET %s: the connection has been closed: `%s`", path.c_str(), Esc(raw).c_str());
      const ParsedResponse p = ParseResponse(raw);
      SIM_CHECK(p.error.empty(), "malformed-response", "%s: `%s`", p.error.c_str(), Esc(raw).c_str());
      sim::Atomic a;
      const uint64_t t1 = w.Tick();
      if (p.code == 500) { sim::Count("handler_threw"); continue; }
      SIM_CHECK(p.code == 200 || p.code == 404, "wrong-response", "code %d", p.code);
      const int v = p.code == 200 ? atoi(p.body.c_str() + 1) : -1;
      SIM_CHECK(v < 0 || (p.body[0] == 'v' && v < int(w.versions.size())), "wrong-response", "`%s`", p.body.c_str());
      bool found = false;
      for (int depth = n; depth >= 0; --depth) {
        string prefix;
        for (int i = 0; i < depth; ++i) prefix += "/" + comps[i];
        if (prefix.empty()) prefix = "/";
        const auto it = w.slots.find({prefix, n - depth});
        if (it == w.slots.end()) continue;
        for (const int x : it->second) if (x == v) found = true;
        if (found) {
          const Version& x = w.versions[v];
          SIM_CHECK(x.coming <= t1 && x.gone >= t0, "stale-route", "GET %s has been served by handler %d, which was not there at the time", path.c_str(), v);
          break;
        }
        // The slot must not have been there throughout the request.
        for (const int x : it->second) {
          const Version& y = w.versions[x];
          SIM_CHECK(!(y.up < t0 && y.going > t1), "route-missed", "GET %s: `%s` with %d arguments was registered all the time (handler %d), but the response is `%s`", path.c_str(), prefix.c_str(), n - depth, x, p.code == 404 ? "404" : p.body.c_str());
        }
      }
      SIM_CHECK(found || v < 0, "wrong-route", "GET %s has been served by handler %d, whose route does not match", path.c_str(), v);
      sim::Count(v < 0 ? "requests_404" : "requests_served");
      sim::Cover(path + std::to_string(v));
    }
  };
  for (int i = 0; i < clients; ++i) t.Go(client);
  auto server = std::make_unique<HTTPServerPOSIX>(std::move(reserved));
  go = true;
  for (int i = 0; i < owners; ++i) {
    t.Go([&, i]() {
      const int ops = 1 + sim::W(5);
      for (int k = 0; k < ops; ++k) {
        // Each of the owners has the path of its own, and the last of them has the rest of the number of arguments.
        const string path = kPaths[i];
        const int lo = sim::W(3), hi = lo + sim::W(3);
        const int v = NewVersion(w, path, lo, hi);
        auto target = std::make_unique<Target>(&w, server.get(), v);
        Target* raw = target.get();
        URLPathArgs::CountMask mask = static_cast<URLPathArgs::CountMask>(0);
        for (int j = lo; j <= hi; ++j) mask |= static_cast<URLPathArgs::CountMask>(1 << j);
        HTTPServerPOSIX::HTTPRoutesScope scope;
        scope += server->Register(path, mask, [raw](Request r) { raw->Serve(std::move(r)); });
        Mark(w, v, &Version::up);
        // Registering the same again is an error, and changes nothing.
        if (sim::WB(0.3)) {
          string e;
          try { auto s = server->Register(path, mask, [](Request r) { r("never"); }); } catch (const http::HandlerAlreadyExistsException&) { e = "yes"; }
          SIM_CHECK(!e.empty(), "registered-twice", "the same route has been registered twice");
        }
        if (sim::WB(0.2)) {
          string e;
          try { server->UnRegister("/nothing/here"); } catch (const http::HandlerDoesNotExistException&) { e = "yes"; }
          SIM_CHECK(!e.empty(), "unregistered-nothing", "no exception");
        }
        if (sim::WB(0.5)) sim::SleepUs(sim::W(8000));
        int last = v;
        std::unique_ptr<Target> updated;
        if (sim::WB(0.4)) {
          // Replace the handler; once that has been done, the old one is free to go.
          last = NewVersion(w, path, lo, hi);
          updated = std::make_unique<Target>(&w, server.get(), last);
          Target* p = updated.get();
          Mark(w, v, &Version::going);
          { auto none = server->Register<ReRegisterRoute::SilentlyUpdateExisting>(path, mask, [p](Request r) { p->Serve(std::move(r)); }); }
          Mark(w, v, &Version::gone);
          Mark(w, last, &Version::up);
          target = nullptr;
          if (sim::WB(0.5)) sim::SleepUs(sim::W(5000));
        }
        Mark(w, last, &Version::going);
        scope = nullptr;
        Mark(w, last, &Version::gone);
        updated = nullptr;
        target = nullptr;
        sim::Count("routes_registered");
        if (sim::WB(0.3)) sim::SleepUs(sim::W(3000));
      }
      --owners_left;
    });
  }
  t.Join();
  sim::FaultsOff();
  SIM_CHECK(server->PathHandlersCount() == 0, "routes-left", "%d paths are still registered", int(server->PathHandlersCount()));
  // The server goes away while there are clients connecting.
  std::thread late;
  const bool with_late = sim::WB(0.5);
  if (with_late) {
    late = std::thread([&]() {
      for (int i = 0; i < 3; ++i) {
        RawConn c(w.port);
        if (c.fd < 0) continue;
        c.Send("GET /late HTTP/1.1\r\n\r\n");
        string raw;
        c.ReadAll(raw);
      }
    });
    if (sim::WB()) sim::SleepUs(sim::W(1000));
  }
  server = nullptr;
  if (with_late) late.join();
}
}  // namespace n03
SIM_SCENARIO("N03", routes) { n03::Routes(); }
