// T04: the storage over HTTP: each response is the truth about one transaction, and the log is the truth about them all.
#include "http_common.h"
#include "/repo/storage/storage.h"
#include "/repo/storage/persister/stream.h"
#include "/repo/storage/api.h"
#include "/repo/storage/rest/simple.h"
#include "/repo/storage/rest/hypermedia.h"

using std::chrono::microseconds;
namespace rest = current::storage::rest;

CURRENT_STRUCT(Item) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(note, Optional<std::string>);
  void InitializeOwnKey() { if (key.empty()) key = std::string(1, static_cast<char>('a' + value % 7 % 5)); }
};
CURRENT_STRUCT(Link) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(note, Optional<std::string>);
};
CURRENT_STRUCT(Patched) {
  CURRENT_FIELD(value, uint64_t, 0);
};
CURRENT_STRUCT(PatchedKey) {
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(key, std::string, "elsewhere");
  CURRENT_FIELD(row, std::string, "elsewhere");
};
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, Item, ItemEntry);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, Link, LinkEntry);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, Link, BondEntry);
CURRENT_STORAGE(Shop) {
  CURRENT_STORAGE_FIELD(items, ItemEntry);
  CURRENT_STORAGE_FIELD(links, LinkEntry);
  CURRENT_STORAGE_FIELD(bonds, BondEntry);
};
using Db = Shop<StreamInMemoryStreamPersister>;
using stream_t = typename Db::stream_t;

namespace {
const char* const kKeys[] = {"a", "b", "c", "d", "e", "f g", "h/i%", "j?&="};
const char* const kRows[] = {"x", "y", "z t", "u/v"};
constexpr int kCols = 3;

// One mutates several items as one, and then commits, or does not.
CURRENT_STRUCT(Answer) {
  CURRENT_FIELD(what, std::string);
  CURRENT_FIELD(values, std::vector<uint64_t>);
};
}  // namespace
CURRENT_STRUCT(SetMany) {
  CURRENT_FIELD(keys, std::vector<std::string>);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(how, uint32_t, 0);
  template <typename F> Response Command(F& f, const rest::cqs::CQSParameters& p) const {
    for (size_t i = 0; i < keys.size(); ++i) {
      Item x;
      x.key = keys[i];
      x.value = value + i;
      f.items.Add(x);
    }
    if (how == 1) { CURRENT_STORAGE_THROW_ROLLBACK(); }
    if (how == 2) { CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, Response("Rolled back.\n", HTTPResponseCode.Accepted)); }
    if (how == 3) CURRENT_THROW(current::Exception("No."));
    if (how == 4) throw std::out_of_range("No.");
    return Response("Committed by " + p.http_method + ".\n", HTTPResponseCode.OK);
  }
};
CURRENT_STRUCT(ListAll) {
  CURRENT_FIELD(how, uint32_t, 0);
  template <typename F> Response Query(const F& f, const rest::cqs::CQSParameters&) const {
    if (how == 3) CURRENT_THROW(current::Exception("No."));
    std::string s;
    for (const auto& x : f.items) s += std::to_string(x.value) + ' ';
    return Response(s + '\n');
  }
};

namespace {
string Enc(const string& s) { return current::url::URL::EncodeURIComponent(s); }
struct Key {
  int field = 0, k = 0, c = 0;  // 0 is `items`, 1 is `links`, 2 is `bonds`.
  bool operator<(const Key& r) const { return std::tie(field, k, c) < std::tie(r.field, r.k, r.c); }
  bool operator==(const Key& r) const { return std::tie(field, k, c) == std::tie(r.field, r.k, r.c); }
  string Name() const { return field ? string(kRows[k]) + '/' + std::to_string(c) : string(kKeys[k]); }
};
const char* const kFields[] = {"items", "links", "bonds"};
Key RandomKey(int keys) {
  Key r;
  r.field = sim::W(3);
  r.k = r.field ? sim::W(std::min(keys, 4)) : sim::W(keys);
  r.c = r.field ? sim::W(kCols) : 0;
  return r;
}
Key KeyOf(int, const Item& x) { for (int i = 0; i < 8; ++i) if (x.key == kKeys[i]) return Key{0, i, 0}; sim::Fail("key", "there is an item `%s`", x.key.c_str()); return Key(); }
Key KeyOf(int field, const Link& x) { for (int i = 0; i < 4; ++i) if (x.row == kRows[i] && x.col >= 0 && x.col < kCols) return Key{field, i, x.col}; sim::Fail("key", "there is an entry `%s`", x.row.c_str()); return Key(); }
string Note(const Optional<std::string>& n) { return Exists(n) ? Value(n) : "-"; }

enum { kGet, kPut, kPatch, kDelete, kPost, kList, kPartial, kQuery, kCommand, kNonsense };
const char* const kKinds[] = {"GET", "PUT", "PATCH", "DELETE", "POST", "the list", "the row or column", "the query", "the command", "nonsense"};
enum { kPlain = 0, kSimple = 1, kHypermedia = 2 };
struct Op {
  int kind = 0, format = 0, code = 0;  // 0 if there has been no response.
  bool follower = false, overwrite = false, bad = false, bad_key = false, detailed = false, refused = false;
  Key key;
  uint64_t value = 0, n_values = 1;
  string note = "-", body, what;
  ll cond = -1, t0 = 0, t1 = 0, lm = -1;
  int i = 0, n = 0, row_or_col = 0, how = 0;
  string Name() const { return string(kKinds[kind]) + " of `" + kFields[key.field] + "/" + key.Name() + "` (" + std::to_string(format) + ")"; }
};
struct Version { ll us; bool live; uint64_t value; string note; size_t tx; };
struct State { uint64_t value; string note; bool operator==(const State& r) const { return value == r.value && note == r.note; } };
using Snapshot = std::map<Key, State>;

struct Shops {
  std::vector<Op> ops;
  uint64_t next = 1;
  std::map<Key, ll> seen;  // A recent time of modification of each entry which has been reported.
  std::atomic<bool> refusing{false}, gone{false};
};

template <typename R> ll LastModified(const R& r, const Op& op) {
  if (op.format == kPlain || !r.headers.Has("X-Current-Last-Modified")) return -1;
  const ll us = strtoll(r.headers.Get("X-Current-Last-Modified").c_str(), nullptr, 10);
  SIM_CHECK(r.headers.Has("Last-Modified") && r.headers.Get("Last-Modified") == FormatDateTimeAsIMFFix(microseconds(us)), "date", "the response to %s has been modified at %lld and at `%s`", op.Name().c_str(), us, r.headers.GetOrDefault("Last-Modified", "").c_str());
  return us;
}

// One request, to one of the endpoints.
void Request1(Shops& w, uint16_t port, int format, bool follower, bool lossy, int keys) {
  Op op;
  op.format = format;
  op.follower = follower;
  op.refused = w.refusing || w.gone;
  op.key = RandomKey(keys);
  static const int kinds[] = {kGet, kPut, kPatch, kDelete, kPost, kList, kPartial, kQuery, kCommand, kNonsense, kPut, kGet};
  op.kind = kinds[sim::W(12)];
  if (op.kind == kPost && op.key.field && sim::WB(0.8)) op.key = Key{0, 0, 0};
  const string prefix = "http://localhost:" + std::to_string(port) + (format == kPlain ? "/plain" : format == kSimple ? "/simple" : "/hyper");
  const string data = prefix + "/data/" + kFields[op.key.field];
  string one = data + '/' + Enc(op.key.field ? kRows[op.key.k] : kKeys[op.key.k]) + (op.key.field ? '/' + std::to_string(op.key.c) : "");
  if (sim::WB(0.2)) {
    static const char* const kArgs[][2] = {{"key1", "key2"}, {"row", "col"}, {"1", "2"}};
    const auto& a = kArgs[sim::W(3)];
    one = op.key.field ? data + '?' + a[0] + '=' + Enc(kRows[op.key.k]) + '&' + a[1] + '=' + std::to_string(op.key.c) : data + "?key=" + Enc(kKeys[op.key.k]);
  } else if (!op.key.field && sim::WB(0.1)) {
    one = data + ".key/" + Enc(kKeys[op.key.k]);
  }
  { sim::Atomic a; op.value = w.next; op.n_values = op.kind == kCommand ? 1 + sim::W(3) : 1; w.next += op.n_values; }
  op.bad = sim::WB(0.05);
  op.bad_key = !op.bad && sim::WB(0.05);
  string cond_header;
  if (format != kPlain && (op.kind == kPut || op.kind == kPatch || op.kind == kDelete) && sim::WB()) {
    sim::Atomic a;
    const ll known = w.seen.count(op.key) ? w.seen[op.key] : 0;
    op.cond = std::max(ll(1), sim::WB(0.7) ? known : known + sim::WR(-2000000, 2000000));
    if (known && sim::WB(0.3)) {
      op.cond = op.cond / 1000000 * 1000000 + 999999;
      cond_header = FormatDateTimeAsIMFFix(microseconds(op.cond));
    }
  }
  const auto with = [&](auto r) {
    if (op.cond >= 0) {
      if (cond_header.empty() && sim::WB(0.2)) r.SetHeader("If-Unmodified-Since", "Fri, 01 Jan 2100 00:00:00 GMT");
      r.SetHeader(cond_header.empty() ? "X-Current-If-Unmodified-Since" : "If-Unmodified-Since", cond_header.empty() ? std::to_string(op.cond) : cond_header);
    }
    return r;
  };
  const bool noted = sim::WB();
  const string note = "n" + std::to_string(op.value);
  const auto body = [&](bool with_key) {
    if (op.bad) return string(sim::WB() ? "{\"value\":\"x" : "");
    if (!op.key.field) {
      Item x;
      if (with_key) x.key = op.bad_key ? "elsewhere" : kKeys[op.key.k];
      x.value = op.value;
      if (noted) x.note = note;
      return JSON(x);
    }
    Link x;
    if (with_key) { x.row = op.bad_key ? "elsewhere" : kRows[op.key.k]; x.col = op.key.c; }
    x.value = op.value;
    if (noted) x.note = note;
    return JSON(x);
  };
  op.t0 = current::time::Now().count();
  if (noted) op.note = note;
  try {
    const auto done = [&](const auto& r) { op.code = static_cast<int>(r.code); op.body = r.body; op.lm = LastModified(r, op); };
    if (op.kind == kGet) {
      op.detailed = format != kPlain && sim::WB(0.1);
      done(HTTP(GET(one + (op.detailed ? (one.find('?') == string::npos ? "?export=detailed" : "&export=detailed") : ""))));
    } else if (op.kind == kPut) {
      done(HTTP(with(PUT(one, body(true), "application/json"))));
    } else if (op.kind == kPatch) {
      Patched p;
      p.value = op.value;
      PatchedKey q;
      q.value = op.value;
      done(HTTP(with(PATCH(one, op.bad ? string("{\"value\":\"x") : op.bad_key ? JSON(q) : JSON(p), "application/json"))));
    } else if (op.kind == kDelete) {
      done(HTTP(with(DELETE(one))));
    } else if (op.kind == kPost) {
      op.overwrite = sim::WB();
      if (one.find('?') != string::npos) op.bad_key = false;
      done(HTTP(POST((op.bad_key ? one : data) + (op.overwrite ? "?overwrite" : ""), body(false), "application/json")));
    } else if (op.kind == kList) {
      op.i = sim::W(4);
      op.n = sim::WB() ? 1 + sim::W(3) : 1000;
      op.how = format != kPlain && sim::WB(follower ? 0.3 : 0.1) ? 1 + sim::W(3) : 0;
      if (op.how == 3) op.i = sim::W(op.n = 1 + sim::W(3));
      const string how = op.how == 1 ? "?export" : op.how == 2 ? "?export=detailed" : op.how == 3 ? "?export&nshards=" + std::to_string(op.n) + "&shard=" + std::to_string(op.i) : "?i=" + std::to_string(op.i) + "&n=" + std::to_string(op.n);
      done(HTTP(GET(data + how)));
    } else if (op.kind == kPartial) {
      if (!op.key.field) op.key.field = 1 + sim::W(2), op.key.k %= 4, op.key.c = sim::W(kCols);
      op.row_or_col = sim::W(2);
      op.how = sim::W(2);
      static const char* const kNames[][3] = {{".1", ".row", ".left"}, {".2", ".col", ".R"}};
      string url = prefix + "/data/" + kFields[op.key.field] + kNames[op.row_or_col][sim::W(3)];
      if (op.how) url += '/' + (op.row_or_col ? std::to_string(op.key.c) : Enc(kRows[op.key.k]));
      done(HTTP(GET(url + "?n=1000")));
    } else if (op.kind == kQuery) {
      op.how = sim::W(8);
      done(HTTP(GET(prefix + "/cqs/query/all" + (op.how == 3 ? "?how=3" : ""))));
    } else if (op.kind == kCommand) {
      SetMany m;
      for (uint64_t i = 0; i < op.n_values; ++i) m.keys.push_back(kKeys[(op.key.k + i) % keys]);
      m.value = op.value;
      m.how = op.how = sim::WB() ? 0 : 1 + sim::W(4);
      const string url = prefix + "/cqs/command/set", b = op.bad ? "{\"value\":\"x" : JSON(m);
      const int verb = sim::W(3);
      if (verb == 0) done(HTTP(POST(url, b, "application/json"))); else if (verb == 1) done(HTTP(PUT(url, b, "application/json"))); else done(HTTP(PATCH(url, b, "application/json")));
    } else {
      op.how = sim::W(11);
      if (op.how == 0) done(HTTP(GET(prefix + "/cqs/command/set")));
      if (op.how == 1) done(HTTP(POST(prefix + "/cqs/query/all", "{}", "application/json")));
      if (op.how == 2) done(HTTP(POST(prefix + "/cqs/command/none", "{}", "application/json")));
      if (op.how == 3) done(HTTP(GET(prefix + "/cqs/query/none")));
      if (op.how == 4) done(HTTP(DELETE(prefix + "/data/links.row")));
      if (op.how == 5) done(HTTP(GET(prefix + "/data/nothing")));
      if (op.how == 6 && format == kPlain) op.how = 10;
      if (op.how == 6) {
        const string h = sim::WB() ? "X-Current-If-Unmodified-Since" : "If-Unmodified-Since";
        const int verb = sim::W(3);
        if (verb == 0) done(HTTP(PUT(one, body(true), "application/json").SetHeader(h, "yesterday")));
        if (verb == 1) done(HTTP(PATCH(one, "{}", "application/json").SetHeader(h, "yesterday")));
        if (verb == 2) done(HTTP(DELETE(one).SetHeader(h, "yesterday")));
      }
      if (op.how == 7) {
        const int verb = sim::W(3);
        if (verb == 0) done(HTTP(PUT(data, body(true), "application/json")));
        if (verb == 1) done(HTTP(PATCH(data, "{}", "application/json")));
        if (verb == 2) done(HTTP(DELETE(data)));
      }
      if (op.how == 8) done(HTTP(GET(prefix)));
      if (op.how == 9) done(HTTP(GET(prefix + "/status")));
      if (op.how == 10) done(HTTP(GET(prefix + "/schema/" + kFields[op.key.field])));
    }
  } catch (const Exception& e) {
    SIM_CHECK(lossy, "no-response", "%s: %s", op.Name().c_str(), e.what());
  }
  sim::Atomic a;
  op.t1 = op.code ? current::time::Now().count() : ll(1) << 60;
  if (op.lm > 0 && (op.kind == kGet || op.kind == kPut || op.kind == kPatch)) w.seen[op.key] = op.lm;
  w.ops.push_back(op);
  sim::Count(kKinds[op.kind]);
}

// ---- What the log says ------------------------------------------------------------------------------------------------------
struct Truth {
  std::map<Key, std::vector<Version>> versions;
  std::map<uint64_t, std::pair<Key, size_t>> by_value;
  std::vector<Snapshot> after;           // After each of the transactions, beginning with none.
  std::vector<ll> us{0};                 // When the last mutation of each has been made.
  std::vector<string> commands{""};
  std::vector<size_t> mutations{0};
  explicit Truth(stream_t& stream) {
    after.emplace_back();
    for (const auto& e : stream.Data()->Iterate()) {
      after.push_back(after.back());
      us.push_back(0);
      mutations.push_back(e.entry.mutations.size());
      const auto it = e.entry.meta.fields.find("X-Current-CQS-Command");
      commands.push_back(it == e.entry.meta.fields.end() ? "" : it->second);
      for (const auto& m : e.entry.mutations) m.Call([&](const auto& x) { us.back() = x.us.count(); Add(x); });
    }
  }
  void Up(ll t, const Key& k, uint64_t value, const string& note) {
    SIM_CHECK(!by_value.count(value), "log", "the same mutation is in the log twice");
    by_value[value] = std::make_pair(k, versions[k].size());
    versions[k].push_back(Version{t, true, value, note, after.size() - 1});
    after.back()[k] = State{value, note};
  }
  void Down(ll t, const Key& k) {
    SIM_CHECK(after.back().count(k), "log", "what does not exist is deleted");
    versions[k].push_back(Version{t, false, 0, "-", after.size() - 1});
    after.back().erase(k);
  }
  static Key Cell(int field, const std::pair<std::string, int32_t>& k) { Link l; l.row = k.first; l.col = k.second; return KeyOf(field, l); }
  void Add(const ItemEntryUpdated& x) { Up(x.us.count(), KeyOf(0, x.data), x.data.value, Note(x.data.note)); }
  void Add(const LinkEntryUpdated& x) { Up(x.us.count(), KeyOf(1, x.data), x.data.value, Note(x.data.note)); }
  void Add(const BondEntryUpdated& x) { Up(x.us.count(), KeyOf(2, x.data), x.data.value, Note(x.data.note)); }
  void Add(const ItemEntryDeleted& x) { Item i; i.key = x.key; Down(x.us.count(), KeyOf(0, i)); }
  void Add(const LinkEntryDeleted& x) { Down(x.us.count(), Cell(1, x.key)); }
  void Add(const BondEntryDeleted& x) { Down(x.us.count(), Cell(2, x.key)); }
  // The transactions after which what the operation has seen may have been.
  std::pair<size_t, size_t> Window(const Op& op) const {
    size_t lo = 0, hi = 0;
    while (hi + 1 < us.size() && us[hi + 1] < op.t1) ++hi;
    if (!op.follower) while (lo + 1 < us.size() && us[lo + 1] < op.t0) ++lo;
    return std::make_pair(std::min(lo, hi), hi);
  }
  template <typename F> bool Ever(const Op& op, F f) const {
    const auto w = Window(op);
    for (size_t i = w.first; i <= w.second; ++i) if (f(after[i])) return true;
    return false;
  }
  ll ModifiedAt(const Key& k, uint64_t value) const {
    const auto it = by_value.find(value);
    return it == by_value.end() || !(it->second.first == k) ? -1 : versions.at(k)[it->second.second].us;
  }
};

template <typename T> bool Matches(const Snapshot& s, const Key& k, const T& x) {
  const auto it = s.find(k);
  return it != s.end() && it->second.value == x.value && it->second.note == Note(x.note);
}
Snapshot FieldOf(const Snapshot& s, int field) { Snapshot r; for (const auto& x : s) if (x.first.field == field) r.insert(x); return r; }

template <typename T> void CheckGet(const Truth& truth, const Op& op) {
  if (op.code == 404) {
    SIM_CHECK(truth.Ever(op, [&](const Snapshot& s) { return !s.count(op.key); }), "get", "%s is not found, while it has been there all along", op.Name().c_str());
    return;
  }
  T x;
  if (op.detailed) {
    const auto at = op.body.find("\"data\":");
    SIM_CHECK(at != string::npos && op.body.size() > 2, "get", "%s: `%s`", op.Name().c_str(), Esc(op.body).c_str());
    x = ParseJSON<T>(op.body.substr(at + 7, op.body.rfind('}') - at - 7));
    const string us = "\"timestamp_us\":" + std::to_string(truth.ModifiedAt(op.key, x.value));
    SIM_CHECK(op.body.find(us) != string::npos, "get", "%s is `%s`, and not of `%s`", op.Name().c_str(), Esc(op.body).c_str(), us.c_str());
  } else if (op.format == kPlain) {
    x = ParseJSON<T>(op.body);
  } else if (op.format == kSimple) {
    x = ParseJSON<rest::simple::SimpleRESTRecordResponse<T>>(op.body).data;
  } else {
    const auto r = ParseJSON<rest::hypermedia::HypermediaRESTSingleRecordResponse<T>>(op.body);
    x = r.data;
    SIM_CHECK(r.success && r.url == string("/r/data/") + kFields[op.key.field] + '/' + op.key.Name(), "get", "%s is at `%s`", op.Name().c_str(), r.url.c_str());
  }
  SIM_CHECK(KeyOf(op.key.field, x) == op.key, "get", "%s is of another key", op.Name().c_str());
  SIM_CHECK(truth.Ever(op, [&](const Snapshot& s) { return Matches(s, op.key, x); }), "get", "%s is %llu, which it has not been at the time", op.Name().c_str(), (ull)x.value);
  if (op.format != kPlain && !op.detailed) SIM_CHECK(op.lm == truth.ModifiedAt(op.key, x.value), "get", "%s is of %lld, while it has been modified at %lld", op.Name().c_str(), op.lm, truth.ModifiedAt(op.key, x.value));
}

template <typename T> void CheckList(const Truth& truth, const Op& op, bool partial) {
  const int field = op.key.field;
  const auto mine = [&](const Key& k) { return k.field == field && (partial || op.how != 3 || (field ? current::GenericHashFunction<std::pair<std::string, int32_t>>()(std::pair<std::string, int32_t>(kRows[k.k], k.c)) : current::GenericHashFunction<std::string>()(kKeys[k.k])) % op.n == size_t(op.i)) && (!partial || !op.how || (op.row_or_col ? k.c == op.key.c : k.k == op.key.k)); };
  const auto select = [&](const Snapshot& s) { Snapshot r; for (const auto& x : s) if (mine(x.first)) r.insert(x); return r; };
  if (!partial && op.how && !op.follower) {
    SIM_CHECK(op.code == 403, "list", "%s is exported off the master: %d", op.Name().c_str(), op.code);
    return;
  }
  if (op.code == 404) {
    SIM_CHECK(partial && op.how && truth.Ever(op, [&](const Snapshot& s) { return select(s).empty(); }), "list", "%s is not found, while it has been there all along", op.Name().c_str());
    return;
  }
  // Which entries there are, and, if known, what they are; as well as what is known about the rest of them.
  std::map<Key, T> full;
  std::set<string> names;
  std::map<string, size_t> totals;
  std::vector<string> order;
  size_t total = 0;
  bool prev = false, next = false, whole = true;
  const auto lines = [](const string& s) { std::vector<string> r; size_t o = 0; while (o < s.size()) { const size_t e = s.find('\n', o); r.push_back(s.substr(o, e - o)); o = e + 1; } return r; };
  const bool outer = partial && !op.how;
  if (op.kind == kList && op.how) {
    if (op.how != 2) for (const auto& l : lines(op.body)) { const T x = ParseJSON<T>(l); full[KeyOf(field, x)] = x; }
    else {
      string s = op.body;
      size_t o = 0;
      while ((o = s.find("\"data\":{", o)) != string::npos) {
        const size_t e = s.find('}', o);
        const T x = ParseJSON<T>(s.substr(o + 7, e - o - 6));
        const ll us = truth.ModifiedAt(KeyOf(field, x), x.value);
        const size_t at = s.rfind("\"timestamp_us\":", o);
        SIM_CHECK(at != string::npos && strtoll(s.c_str() + at + 15, nullptr, 10) == us, "list", "%s has an entry of %lld as `%s`", op.Name().c_str(), us, Esc(s).c_str());
        SIM_CHECK(full.insert(std::make_pair(KeyOf(field, x), x)).second, "list", "%s has an entry twice", op.Name().c_str());
        o = e;
      }
      SIM_CHECK(s.size() >= 3 && s[0] == '[' && s[s.size() - 2] == ']', "list", "%s is `%s`", op.Name().c_str(), Esc(s).c_str());
    }
    total = full.size();
  } else if (op.format == kPlain) {
    for (const auto& l : lines(op.body)) {
      if (outer) { const size_t tab = l.rfind('\t'); totals[l.substr(0, tab)] = atoi(l.c_str() + tab + 1); names.insert(l.substr(0, tab)); continue; }
      const size_t tab = l.rfind("\t{");
      const T x = ParseJSON<T>(tab == string::npos ? l : l.substr(tab + 1));
      SIM_CHECK(full.insert(std::make_pair(KeyOf(field, x), x)).second, "list", "%s has an entry twice", op.Name().c_str());
    }
    total = outer ? names.size() : full.size();
  } else if (op.format == kSimple) {
    const auto r = ParseJSON<rest::simple::SimpleRESTContainerResponse>(op.body);
    const string at = string("/r/data/") + kFields[field] + (outer ? op.row_or_col ? ".2/" : ".1/" : "/");
    for (const auto& u : r.data) {
      SIM_CHECK(!u.compare(0, at.size(), at), "list", "%s has `%s`", op.Name().c_str(), u.c_str());
      SIM_CHECK(names.insert(u.substr(at.size())).second, "list", "%s has `%s` twice", op.Name().c_str(), u.c_str());
    }
    total = names.size();
  } else if (outer) {
    const auto r = ParseJSON<rest::hypermedia::HypermediaRESTCollectionResponse<rest::hypermedia::HypermediaRESTFullCollectionRecord<rest::generic::RESTSubCollection<T>>>>(op.body);
    const string at = string("/r/data/") + kFields[field] + (op.row_or_col ? ".2/" : ".1/");
    total = r.total;
    for (const auto& x : r.data) {
      SIM_CHECK(!x.url.compare(0, at.size(), at), "list", "%s has `%s`", op.Name().c_str(), x.url.c_str());
      const string name = x.url.substr(at.size());
      SIM_CHECK(names.insert(name).second, "list", "%s has `%s` twice", op.Name().c_str(), name.c_str());
      totals[name] = x.data.total;
      SIM_CHECK(x.data.preview.size() == std::min<size_t>(3, x.data.total), "list", "%s has %zu entries of %zu", op.Name().c_str(), x.data.preview.size(), size_t(x.data.total));
      for (const auto& p : x.data.preview) {
        const Key k = KeyOf(field, p);
        SIM_CHECK((op.row_or_col ? std::to_string(k.c) : string(kRows[k.k])) == name, "list", "%s has an entry of another one under `%s`", op.Name().c_str(), name.c_str());
        full[k] = p;
      }
    }
    whole = false;
  } else {
    const auto r = ParseJSON<rest::hypermedia::HypermediaRESTCollectionResponse<rest::hypermedia::HypermediaRESTFullCollectionRecord<T>>>(op.body);
    total = r.total;
    prev = Exists(r.url_previous_page);
    next = Exists(r.url_next_page);
    const uint64_t i = partial ? 0 : op.i, n = partial ? 1000 : op.n;
    SIM_CHECK(r.success && r.i == std::min<uint64_t>(i, total) && r.n == std::min<uint64_t>(n, total - r.i) && r.data.size() == r.n, "list", "%s from %llu is from %llu, %llu of %llu, and has %zu", op.Name().c_str(), (ull)i, (ull)r.i, (ull)r.n, (ull)total, r.data.size());
    SIM_CHECK(prev == (std::min<uint64_t>(i, total) > 0) && next == (r.i + r.n < total), "list", "%s from %llu, %llu of %llu: previous %d, next %d", op.Name().c_str(), (ull)r.i, (ull)r.n, (ull)total, prev, next);
    // Following the links misses no entry.
    const auto page = [&](const Optional<std::string>& url) {
      ull at = 0, size = 0;
      const size_t q = Value(url).find("?i=");
      SIM_CHECK(q != string::npos && sscanf(Value(url).c_str() + q, "?i=%llu&n=%llu", &at, &size) == 2 && size == n && Value(url).substr(0, q) == string("/r/data/") + kFields[field] + (partial ? Value(url).substr(string("/r/data/").size() + strlen(kFields[field]), q - string("/r/data/").size() - strlen(kFields[field])) : ""), "list", "the link of %s is `%s`", op.Name().c_str(), Value(url).c_str());
      return at;
    };
    if (next) SIM_CHECK(page(r.url_next_page) > r.i && page(r.url_next_page) <= r.i + r.n, "list", "the next page of %s, of %llu from %llu, is `%s`", op.Name().c_str(), (ull)r.n, (ull)r.i, Value(r.url_next_page).c_str());
    if (prev) SIM_CHECK(page(r.url_previous_page) < r.i && page(r.url_previous_page) + n >= r.i, "list", "the previous page of %s, of %llu from %llu, is `%s`", op.Name().c_str(), (ull)r.n, (ull)r.i, Value(r.url_previous_page).c_str());
    for (const auto& x : r.data) {
      const Key k = KeyOf(field, x.data);
      SIM_CHECK(x.url == string("/r/data/") + kFields[field] + '/' + k.Name(), "list", "%s has `%s` at `%s`", op.Name().c_str(), k.Name().c_str(), x.url.c_str());
      SIM_CHECK(full.insert(std::make_pair(k, x.data)).second, "list", "%s has an entry twice", op.Name().c_str());
      order.push_back(k.Name());
    }
    whole = r.data.size() == total;
  }
  const bool ok = truth.Ever(op, [&](const Snapshot& all) {
    const Snapshot s = select(all);
    for (const auto& x : full) if (!mine(x.first) || !Matches(s, x.first, x.second)) return false;
    if (outer) {
      std::map<string, size_t> t;
      for (const auto& x : s) ++t[op.row_or_col ? std::to_string(x.first.c) : string(kRows[x.first.k])];
      if (total != t.size() || names.size() != t.size()) return false;
      for (const auto& x : t) if (!names.count(x.first)) return false;
      return totals.empty() || totals == t;
    }
    if (total != s.size()) return false;
    if (op.format == kSimple && !(op.kind == kList && op.how)) {
      std::set<string> n;
      for (const auto& x : s) n.insert(x.first.Name());
      return n == names;
    }
    if (whole) return full.size() == s.size();
    if (field == 0 && op.kind == kList) {  // Ordered: the page is a part of the list.
      std::vector<string> n;
      for (const auto& x : s) n.push_back(x.first.Name());
      std::sort(n.begin(), n.end());
      for (size_t j = 0; j < order.size(); ++j) if (op.i + j >= n.size() || n[op.i + j] != order[j]) return false;
    }
    return true;
  });
  SIM_CHECK(ok, "list", "%s is what it has never been at the time: `%s`", op.Name().c_str(), Esc(op.body).c_str());
}

void CheckOps(const Truth& truth, const std::vector<Op>& ops, const std::set<uint64_t>& direct) {
  std::set<uint64_t> may;  // The values which may be in the log.
  for (const auto& v : direct) may.insert(v);
  std::set<std::pair<Key, ll>> deletions;  // Which have been accounted for.
  std::map<Key, std::vector<const Op*>> deletes;
  std::set<uint64_t> never;
  for (const auto& op : ops) {
    const bool mutates = op.kind == kPut || op.kind == kPatch || op.kind == kPost || op.kind == kCommand || op.kind == kDelete;
    const bool done = op.code >= 200 && op.code < 300;
    if (op.kind == kDelete && (done || !op.code)) deletes[op.key].push_back(&op);
    if (mutates && op.kind != kDelete) for (uint64_t i = 0; i < op.n_values; ++i) (op.code && (!done || op.bad || (op.kind == kCommand && op.how)) ? never : may).insert(op.value + i);
    if (op.refused && op.code) {
      SIM_CHECK(op.code == 503 || op.code == 404, "refused", "%s is responded to with %d, while it is not being served any more", op.Name().c_str(), op.code);
      continue;
    }
    if (!op.code) continue;
    if (op.what == "gone" && (op.code == 503 || op.code == 404)) continue;
    if (op.follower && (op.kind == kCommand || (op.kind == kNonsense && (op.how == 0 || op.how == 2)))) {
      SIM_CHECK(op.code == 503, "code", "a command to the one which follows: %d", op.code);
      continue;
    }
    // What the refusal is about, of the ones which may be refused.
    const bool absent = truth.Ever(op, [&](const Snapshot& s) { return !s.count(op.key); });
    const bool present = truth.Ever(op, [&](const Snapshot& s) { return s.count(op.key); });
    if (op.code == 412) {
      SIM_CHECK(op.cond >= 0 && (op.kind == kPut || op.kind == kPatch || op.kind == kDelete), "condition", "%s has no condition to fail", op.Name().c_str());
      SIM_CHECK(truth.Ever(op, [&](const Snapshot& s) { const auto it = s.find(op.key); return it != s.end() && truth.ModifiedAt(op.key, it->second.value) > op.cond; }), "condition", "%s fails as modified since %lld, while it has not been", op.Name().c_str(), op.cond);
      sim::Count("condition_failed");
      continue;
    }
    if (op.follower && mutates) {
      SIM_CHECK(op.code == 405, "code", "%s to the one which follows: %d", op.Name().c_str(), op.code);
      continue;
    }
    // The conditions under which the operation, if it is done, is done.
    const auto predecessor = [&](const Key& k, size_t i) { const auto& v = truth.versions.at(k); return i ? v[i - 1] : Version{0, false, 0, "-", 0}; };
    const auto check_write = [&](const Key& k, uint64_t value) {
      const auto it = truth.by_value.find(value);
      SIM_CHECK(it != truth.by_value.end() && it->second.first == k, "lost", "%s is responded to with %d, and is not in the log", op.Name().c_str(), op.code);
      const auto& v = truth.versions.at(k)[it->second.second];
      SIM_CHECK(v.us > op.t0 && v.us < op.t1, "log", "%s from %lld to %lld is done at %lld", op.Name().c_str(), op.t0, op.t1, v.us);
      if (op.format != kPlain && op.kind != kCommand) SIM_CHECK(op.lm == v.us, "log", "%s is done at %lld, while the response is of %lld", op.Name().c_str(), v.us, op.lm);
      const auto p = predecessor(k, it->second.second);
      if (op.cond >= 0 && p.live) SIM_CHECK(p.us <= op.cond, "condition", "%s is done, while it has been modified at %lld since %lld", op.Name().c_str(), p.us, op.cond);
      return std::make_pair(v, p);
    };
    if (op.kind == kGet) {
      SIM_CHECK(op.code == 200 || op.code == 404, "code", "%s: %d", op.Name().c_str(), op.code);
      if (op.key.field) CheckGet<Link>(truth, op); else CheckGet<Item>(truth, op);
    } else if (op.kind == kPut) {
      if (op.bad || op.bad_key) { SIM_CHECK(op.code == 400, "code", "%s, which is bad: %d", op.Name().c_str(), op.code); continue; }
      SIM_CHECK(op.code == 200 || op.code == 201, "code", "%s: %d `%s`", op.Name().c_str(), op.code, Esc(op.body).c_str());
      const auto v = check_write(op.key, op.value);
      SIM_CHECK(v.first.note == op.note, "log", "%s is in the log with another contents", op.Name().c_str());
      SIM_CHECK(v.second.live == (op.code == 200), "code", "%s is %d, while it %s", op.Name().c_str(), op.code, v.second.live ? "has existed" : "has not existed");
    } else if (op.kind == kPatch) {
      if (op.code == 404) { SIM_CHECK(absent, "code", "%s is not found, while it has been there all along", op.Name().c_str()); continue; }
      if (op.bad || op.bad_key) { SIM_CHECK(op.code == 400, "code", "%s, which is bad: %d", op.Name().c_str(), op.code); continue; }
      SIM_CHECK(op.code == 200, "code", "%s: %d `%s`", op.Name().c_str(), op.code, Esc(op.body).c_str());
      const auto v = check_write(op.key, op.value);
      SIM_CHECK(v.second.live && v.first.note == v.second.note, "patch", "%s results in `%s` of `%s`", op.Name().c_str(), v.first.note.c_str(), v.second.note.c_str());
    } else if (op.kind == kPost) {
      if (op.key.field) { SIM_CHECK(op.code == 405 || (op.code == 400 && (op.bad || op.bad_key)), "code", "%s: %d", op.Name().c_str(), op.code); continue; }
      if (op.bad_key) { SIM_CHECK(op.code == 400, "code", "%s with a key: %d", op.Name().c_str(), op.code); continue; }
      if (op.bad) { SIM_CHECK(op.code == 400, "code", "%s, which is bad: %d", op.Name().c_str(), op.code); continue; }
      Item x;
      x.value = op.value;
      x.InitializeOwnKey();
      const Key k = KeyOf(0, x);
      if (op.code == 409) {
        SIM_CHECK(!op.overwrite && truth.Ever(op, [&](const Snapshot& s) { return s.count(k); }), "code", "%s fails as existing already, while it does not have to", op.Name().c_str());
        sim::Count("post_conflicts");
        continue;
      }
      SIM_CHECK(op.code == 201, "code", "%s: %d `%s`", op.Name().c_str(), op.code, Esc(op.body).c_str());
      const auto v = check_write(k, op.value);
      SIM_CHECK(op.overwrite || !v.second.live, "overwritten", "%s has overwritten what has been there", op.Name().c_str());
      SIM_CHECK(op.format == kPlain ? op.body == x.key : op.body.find("/r/data/items/" + x.key + "\"") != string::npos, "code", "%s of `%s` is `%s`", op.Name().c_str(), x.key.c_str(), Esc(op.body).c_str());
    } else if (op.kind == kDelete) {
      SIM_CHECK(op.code == 200, "code", "%s: %d", op.Name().c_str(), op.code);
      if (op.format == kPlain) {
        SIM_CHECK(absent, "delete", "%s is done, while it has been there all along", op.Name().c_str());
      } else if (op.lm >= 0) {
        const auto it = truth.versions.find(op.key);
        SIM_CHECK(it != truth.versions.end(), "lost", "%s is done, and is not in the log", op.Name().c_str());
        size_t i = 0;
        while (i < it->second.size() && it->second[i].us != op.lm) ++i;
        SIM_CHECK(i && i < it->second.size() && !it->second[i].live && op.lm > op.t0 && op.lm < op.t1, "lost", "%s is done at %lld, and is not in the log", op.Name().c_str(), op.lm);
        SIM_CHECK(deletions.insert(std::make_pair(op.key, op.lm)).second, "delete", "%s is done twice", op.Name().c_str());
        if (op.cond >= 0) SIM_CHECK(it->second[i - 1].us <= op.cond, "condition", "%s is done, while it has been modified at %lld since %lld", op.Name().c_str(), it->second[i - 1].us, op.cond);
        SIM_CHECK(op.body.find("Resource deleted.") != string::npos, "delete", "%s: `%s`", op.Name().c_str(), Esc(op.body).c_str());
      } else {
        SIM_CHECK(absent && op.body.find("Resource didn't exist.") != string::npos, "delete", "%s has deleted nothing, while it has been there all along, or claims not to: `%s`", op.Name().c_str(), Esc(op.body).c_str());
      }
    } else if (op.kind == kList || op.kind == kPartial) {
      SIM_CHECK(op.code == 200 || op.code == 404 || (op.code == 403 && op.kind == kList && op.how), "code", "%s: %d", op.Name().c_str(), op.code);
      if (op.key.field) CheckList<Link>(truth, op, op.kind == kPartial); else CheckList<Item>(truth, op, false);
    } else if (op.kind == kQuery) {
      if (op.how == 3) { SIM_CHECK(op.code == 500, "code", "a query which has failed: %d", op.code); continue; }
      SIM_CHECK(op.code == 200 && truth.Ever(op, [&](const Snapshot& s) {
        std::map<string, uint64_t> m;
        for (const auto& x : FieldOf(s, 0)) m[x.first.Name()] = x.second.value;
        string r;
        for (const auto& x : m) r += std::to_string(x.second) + ' ';
        return op.body == r + '\n';
      }), "query", "the result of the query has never been `%s`", Esc(op.body).c_str());
    } else if (op.kind == kCommand) {
      if (op.bad) { SIM_CHECK(op.code == 400, "code", "a bad command: %d", op.code); continue; }
      static const int kCodes[] = {200, 500, 202, 500, 500};
      SIM_CHECK(op.code == kCodes[op.how], "code", "a command of the kind %d: %d", op.how, op.code);
      if (op.how) continue;
      size_t tx = 0;
      for (uint64_t i = 0; i < op.n_values; ++i) {
        const auto it = truth.by_value.find(op.value + i);
        SIM_CHECK(it != truth.by_value.end(), "lost", "a command is done, and is not in the log");
        const auto v = check_write(it->second.first, op.value + i);
        SIM_CHECK(!i || tx == v.first.tx, "log", "a command is several transactions");
        tx = v.first.tx;
      }
      SIM_CHECK(truth.mutations[tx] == op.n_values && truth.commands[tx] == "set", "log", "the transaction of a command has %zu mutations, and is of `%s`", truth.mutations[tx], truth.commands[tx].c_str());
    } else {
      static const int kCodes[] = {405, 405, 404, 404, 405, 404, 400, 400, 200, 200, 200};
      SIM_CHECK(op.code == (op.format == kPlain && (op.how == 8 || op.how == 9) ? 404 : kCodes[op.how]) || (op.follower && op.code == 405), "code", "nonsense %d (%d): %d", op.how, op.format, op.code);
      if (op.how == 8 && op.code == 200) SIM_CHECK(op.body.find("\"up\":true") != string::npos && op.body.find("\"items\":\"/r/data/items\"") != string::npos && op.body.find("\"links\":\"/r/data/links\"") != string::npos && op.body.find("\"bonds\":\"/r/data/bonds\"") != string::npos, "top", "the top level is `%s`", Esc(op.body).c_str());
      if (op.how == 9 && op.code == 200) SIM_CHECK(op.body.find("\"up\":true") != string::npos, "top", "the status is `%s`", Esc(op.body).c_str());
      if (op.how == 10) SIM_CHECK(op.body.find(op.key.field ? "Link" : "Item") != string::npos, "top", "the schema is `%s`", Esc(op.body).c_str());
    }
    static_cast<void>(present);
  }
  for (const auto& x : truth.by_value) SIM_CHECK(may.count(x.first) && !never.count(x.first), "trace", "what has been refused, or never asked for, is in the log: %llu", (ull)x.first);
  // The deletions which no response has the time of.
  for (const auto& x : truth.versions) if (x.first.field != 2) for (const auto& v : x.second) {
    if (v.live || deletions.count(std::make_pair(x.first, v.us))) continue;
    auto& d = deletes[x.first];
    const auto it = std::find_if(d.begin(), d.end(), [&](const Op* op) { return (op->format == kPlain || !op->code) && v.us > op->t0 && v.us < op->t1; });
    SIM_CHECK(it != d.end(), "trace", "`%s` has been deleted by no one", x.first.Name().c_str());
  }
}

// ---- The scenarios ------------------------------------------------------------------------------------------------------------
struct Endpoint {
  uint16_t port;
  int format;
  std::unique_ptr<RESTfulStorage<Db, rest::plain::Plain>> plain;
  std::unique_ptr<RESTfulStorage<Db, rest::Simple>> simple;
  std::unique_ptr<RESTfulStorage<Db, rest::Hypermedia>> hyper;
  template <typename R> static std::unique_ptr<R> Make(Db& db, uint16_t port, const char* prefix) {
    auto r = std::make_unique<R>(db, port, prefix, "/r");
    r->template AddCQSQuery<ListAll>("all");
    r->template AddCQSCommand<SetMany>("set");
    return r;
  }
  void Up(Db& db) {
    if (format == kPlain) plain = Make<RESTfulStorage<Db, rest::plain::Plain>>(db, port, "/plain");
    if (format == kSimple) simple = Make<RESTfulStorage<Db, rest::Simple>>(db, port, "/simple");
    if (format == kHypermedia) hyper = Make<RESTfulStorage<Db, rest::Hypermedia>>(db, port, "/hyper");
  }
  // Some more queries, while the ones which are there are being served.
  void More() {
    for (int i = sim::W(14); i > 0; --i) {
      const string name = "more" + std::to_string(i);
      if (plain) plain->AddCQSQuery<ListAll>(name);
      if (simple) simple->AddCQSQuery<ListAll>(name);
      if (hyper) hyper->AddCQSQuery<ListAll>(name);
    }
  }
  void Refuse() { if (plain) plain->SwitchHTTPEndpointsTo503s(); if (simple) simple->SwitchHTTPEndpointsTo503s(); if (hyper) hyper->SwitchHTTPEndpointsTo503s(); }
  void Down() { plain = nullptr; simple = nullptr; hyper = nullptr; }
};

void Rest(bool lossy, bool follow, bool lifecycle) {
  sim::SetLimits(2000000000, 100000ull * 1000000);
  h::Chaos(0.5);
  NetChaos(lossy);
  Owned<stream_t> stream = stream_t::CreateStream();
  auto master = std::make_unique<Owned<Db>>(Db::CreateMasterStorageAtopExistingStream(stream));
  std::unique_ptr<Owned<Db>> follower;
  if (follow) follower = std::make_unique<Owned<Db>>(Db::CreateFollowingStorageAtopExistingStream(stream));
  const auto new_server = []() { auto r = net::ReserveLocalPort(); const uint16_t p = r; auto& s = HTTP(std::move(r)); static_cast<void>(s); return p; };
  std::vector<uint16_t> ports;
  for (int i = 1 + sim::C(3); i > 0; --i) ports.push_back(new_server());
  std::vector<Endpoint> endpoints(1 + sim::C(3));
  const uint16_t follower_port = follow ? new_server() : 0;
  // At most one of each format per port, as the routes are.
  std::set<std::pair<int, int>> taken;
  std::vector<Endpoint> up;
  for (size_t i = 0; i < endpoints.size(); ++i) {
    const int port = i % ports.size(), format = sim::C(3);
    if (!taken.insert(std::make_pair(port, format)).second) continue;
    up.push_back(Endpoint{ports[port], format});
    up.back().Up(**master);
  }
  Endpoint behind{follower_port, int(sim::C(3))};
  if (follow) behind.Up(**follower);
  Shops w;
  std::atomic<bool> flipped(false);
  std::set<uint64_t> direct;
  const int keys = 1 + sim::C(8), n = 1 + sim::C(4);
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) t.Go([&]() {
      const int m = sim::W(14);
      for (int j = 0; j < m; ++j) {
        const size_t k = sim::W(up.size() + (follow ? 1 : 0));
        if (k == up.size()) Request1(w, behind.port, behind.format, !flipped, lossy, keys);
        else Request1(w, up[k].port, up[k].format, false, lossy, keys);
        if (sim::WB(0.2)) sim::SleepUs(sim::W(2000));
      }
    });
    if (sim::CB()) t.Go([&]() {
      const int m = sim::W(8);
      for (int j = 0; j < m; ++j) {
        if (lifecycle && w.gone) break;
        uint64_t v;
        const int count = 1 + sim::W(3), from = sim::W(keys);
        const bool cells = sim::WB(0.4);
        { sim::Atomic a; v = w.next; w.next += count; for (int i = 0; i < count; ++i) direct.insert(v + i); }
        if (!(**master).IsMasterStorage()) break;
        (**master).ReadWriteTransaction([&](MutableFields<Db> f) {
          for (int i = 0; i < count; ++i) {
            if (cells) { Link x; x.row = kRows[from % 4]; x.col = i; x.value = v + i; f.links.Add(x); }
            else { Item x; x.key = kKeys[(from + i) % keys]; x.value = v + i; f.items.Add(x); }
          }
        }).Go();
        if (sim::WB()) sim::SleepUs(sim::W(2000));
      }
    });
    if (sim::WB(0.3)) for (auto& e : up) e.More();
    if (lifecycle) {
      // They stop being served at some moment, in one way or another; and then some are up again.
      sim::SleepUs(sim::W(6000));
      if (sim::WB()) {
        for (auto& e : up) e.Refuse();
        w.refusing = true;
        if (sim::WB()) sim::SleepUs(sim::W(3000));
      }
      if (sim::WB(0.7)) {
        for (auto& e : up) e.Down();
        w.gone = true;
        if (sim::WB()) sim::SleepUs(sim::W(3000));
      }
      sim::Count("taken_down");
    }
  }
  sim::FaultsOff();
  if (lossy) {
    // What has been sent, and given up on, is served by then.
    for (const auto p : ports) HTTP(GET("http://localhost:" + std::to_string(p) + "/"));
    if (follow) HTTP(GET("http://localhost:" + std::to_string(follower_port) + "/"));
  }
  if (lifecycle) {
    for (auto& e : up) { e.Down(); e.Up(**master); }
    w.refusing = w.gone = false;
  }
  if (follow && sim::WB()) {
    for (auto& e : up) e.Down();
    up.clear();
    master = nullptr;
    (**follower).FlipToMaster();
    flipped = true;
  }
  // Whatever has been going on, it is being served, and it is what is in the log.
  if (lifecycle) for (auto& op : w.ops) op.what = "gone";
  const int m = 3 + sim::W(6);
  for (int j = 0; j < m; ++j) {
    const size_t k = sim::W(up.size() + (follow ? 1 : 0));
    if (k == up.size()) Request1(w, behind.port, behind.format, !flipped, false, keys);
    else Request1(w, up[k].port, up[k].format, false, false, keys);
  }
  const Truth truth(*stream);
  CheckOps(truth, w.ops, direct);
  for (const auto& op : w.ops) sim::Cover(std::string(kKinds[op.kind]) + std::to_string(op.format) + std::to_string(op.code) + std::to_string(op.key.field) + (op.cond >= 0 ? "c" : "") + (op.follower ? "f" : ""));
  sim::Cover("n" + std::to_string(truth.us.size()));
  for (auto& e : up) e.Down();
  behind.Down();
}
}  // namespace

SIM_SCENARIO("T04", served, 3) { Rest(false, false, false); }
SIM_SCENARIO("T04", served_lossy, 1) { Rest(true, false, false); }
SIM_SCENARIO("T04", followed, 1) { Rest(false, true, false); }
SIM_SCENARIO("T04", taken_down, 1) { Rest(false, false, true); }
