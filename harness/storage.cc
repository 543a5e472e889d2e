// T01, T02, T03: the storage, that is transactions, replay, and the containers.
#include "common.h"
#include "/repo/storage/storage.h"
#include "/repo/storage/persister/stream.h"

using namespace current;
using std::chrono::microseconds;
using ull = unsigned long long;
using current::locks::MutexLockStatus;

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(body, std::string);
};
CURRENT_STRUCT(Num) {
  CURRENT_FIELD(key, int32_t, 0);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(body, std::string);
};
CURRENT_STRUCT(Cell) {
  CURRENT_FIELD(row, int32_t, 0);
  CURRENT_FIELD(col, std::string);
  CURRENT_FIELD(value, uint64_t, 0);
  CURRENT_FIELD(body, std::string);
};
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, Rec, RecOD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, Num, NumUD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToOrderedMany, Cell, CellUMOM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToUnorderedMany, Cell, CellOMUM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedMany, Cell, CellOOUM);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedMany, Cell, CellUOOM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedOne, Cell, CellOOUO);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedOne, Cell, CellUOOO);
CURRENT_STORAGE(Db) {
  CURRENT_STORAGE_FIELD(d, RecOD);
  CURRENT_STORAGE_FIELD(u, NumUD);
  CURRENT_STORAGE_FIELD(mm, CellUMOM);
  CURRENT_STORAGE_FIELD(nn, CellOMUM);
  CURRENT_STORAGE_FIELD(om, CellOOUM);
  CURRENT_STORAGE_FIELD(on, CellUOOM);
  CURRENT_STORAGE_FIELD(oo, CellOOUO);
  CURRENT_STORAGE_FIELD(pp, CellUOOO);
};
using MemDb = Db<StreamInMemoryStreamPersister>;
using FileDb = Db<StreamStreamPersister>;
// The storages which share their stream with something else.
CURRENT_STRUCT(Note) {
  CURRENT_FIELD(id, uint64_t);
  CURRENT_CONSTRUCTOR(Note)(uint64_t id = 0) : id(id) {}
};
using MixedEntry = Variant<typename MemDb::transaction_t, Note>;
using MixedMemDb = Db<StreamInMemoryStreamPersister, current::storage::transaction_policy::Synchronous, MixedEntry>;
using MixedFileDb = Db<StreamStreamPersister, current::storage::transaction_policy::Synchronous, MixedEntry>;

namespace {
std::string Str(const char* fmt, ull a, ull b = 0, ull c = 0, ull d = 0, ull e = 0) {
  char x[160];
  snprintf(x, sizeof x, fmt, a, b, c, d, e);
  return x;
}
const char* const kStrings[] = {"a", "", "b c", "\"q\\", "z/%20", "\xd0\xb6", "a\tb\n", "aa"};
const int32_t kInts[] = {0, -1, 7, 2147483647, -2147483647, 42};

// ---- The reference model -------------------------------------------------------------------------------------------
template <typename K, typename V> struct Field {
  std::map<K, V> data;
  std::map<K, int64_t> lm;  // When it was last modified, or erased.
  bool operator==(const Field& r) const { return data == r.data && lm == r.lm; }
};
struct Val { uint64_t value = 0; std::string body; bool operator==(const Val& r) const { return value == r.value && body == r.body; } };
using CellKey = std::pair<int32_t, std::string>;
struct Model {
  Field<std::string, Val> d;
  Field<int32_t, Val> u;
  Field<CellKey, Val> m[6];  // mm, nn, om, on, oo, pp.
  bool operator==(const Model& r) const {
    if (!(d == r.d && u == r.u)) return false;
    for (int i = 0; i < 6; ++i) if (!(m[i] == r.m[i])) return false;
    return true;
  }
  size_t Size() const { size_t n = d.data.size() + u.data.size(); for (auto& x : m) n += x.data.size(); return n; }
};
struct Op { int kind, field, k1, k2; uint64_t value; };  // kind: 0 add, 1 erase, 2 erase row, 3 erase col.
enum { kD = 0, kU = 1 };
Val MakeVal(uint64_t v) { return Val{v, h::Payload(v, (v * 7) % 23)}; }

// What an operation does to the model, and how many mutations it takes. With `us` null the times are not tracked.
int Apply(Model& m, const Op& op, const std::vector<int64_t>* us) {
  size_t next_us = 0;
  auto now = [&]() { return us && next_us < us->size() ? (*us)[next_us++] : int64_t(0); };
  int n = 0;
  auto erase = [&](auto& f, const auto& key) { if (f.data.erase(key)) { f.lm[key] = now(); ++n; } };
  if (op.field == kD || op.field == kU) {
    auto run = [&](auto& f, const auto& key) {
      if (op.kind == 0) { f.data[key] = MakeVal(op.value); f.lm[key] = now(); ++n; } else erase(f, key);
    };
    if (op.field == kD) run(m.d, std::string(kStrings[op.k1])); else run(m.u, kInts[op.k1]);
    return n;
  }
  auto& f = m.m[op.field - 2];
  const CellKey key(kInts[op.k1], kStrings[op.k2]);
  const bool one_row = op.field >= 6, one_col = op.field >= 4;
  if (op.kind == 0) {
    if (!f.data.count(key)) {
      std::vector<CellKey> conflicts;
      if (one_row) for (const auto& x : f.data) if (x.first.first == key.first) conflicts.push_back(x.first);
      if (one_col) for (const auto& x : f.data) if (x.first.second == key.second) conflicts.push_back(x.first);
      for (const auto& c : conflicts) erase(f, c);
    }
    f.data[key] = MakeVal(op.value);
    f.lm[key] = now();
    ++n;
  } else if (op.kind == 1) {
    erase(f, key);
  } else if (op.kind == 2 && one_row) {
    for (const auto& x : f.data) if (x.first.first == key.first) { const CellKey k = x.first; erase(f, k); break; }
  } else if (op.kind == 3 && one_col) {
    for (const auto& x : f.data) if (x.first.second == key.second) { const CellKey k = x.first; erase(f, k); break; }
  }
  return n;
}

// ---- Comparing the storage to the model ----------------------------------------------------------------------------
Cell MakeCell(const CellKey& k, uint64_t v) { Cell c; c.row = k.first; c.col = k.second; const Val x = MakeVal(v); c.value = x.value; c.body = x.body; return c; }
template <typename E> bool Is(const E& e, const Val& v) { return e.value == v.value && e.body == v.body; }

template <typename F, typename MF> void CheckDictionary(const F& f, const MF& m, const char* name, bool ordered) {
  SIM_CHECK(f.Size() == m.data.size() && f.Empty() == m.data.empty(), "size", "%s: %zu entries instead of %zu", name, f.Size(), m.data.size());
  size_t n = 0;
  auto expected = m.data.begin();
  for (const auto& e : f) {
    const auto it = m.data.find(e.key);
    SIM_CHECK(it != m.data.end() && Is(e, it->second), "contents", "%s: an unexpected entry while iterating", name);
    if (ordered) { SIM_CHECK(expected->first == e.key, "iteration-order", "%s: iterated over out of order", name); ++expected; }
    ++n;
  }
  SIM_CHECK(n == m.data.size(), "iteration", "%s: iterated over %zu entries of %zu", name, n, m.data.size());
  for (const auto& x : m.data) {
    const auto e = f[x.first];
    SIM_CHECK(f.Has(x.first) && Exists(e) && Is(Value(e), x.second), "contents", "%s: an entry is missing or different", name);
  }
  for (const auto& x : m.lm) {
    const auto t = f.LastModified(x.first);
    SIM_CHECK(Exists(t), "last-modified", "%s: a modification time is missing", name);
    SIM_CHECK(!x.second || Value(t).count() == x.second, "last-modified", "%s: last modified at %lld instead of %lld", name, (long long)Value(t).count(), (long long)x.second);
    if (!m.data.count(x.first)) SIM_CHECK(!f.Has(x.first) && !Exists(f[x.first]), "contents", "%s: an erased entry is there", name);
  }
  const auto absent = [&](const auto& k) {
    if (!m.data.count(k)) SIM_CHECK(!f.Has(k) && !Exists(f[k]), "contents", "%s: an absent entry is there", name);
    if (!m.lm.count(k)) SIM_CHECK(!Exists(f.LastModified(k)), "last-modified", "%s: an entry which has never been there has its modification time", name);
  };
  if constexpr (std::is_same_v<std::decay_t<decltype(m.data.begin()->first)>, std::string>) { for (const char* s : kStrings) absent(std::string(s)); }
  else { for (int32_t i : kInts) absent(i); }
}
// `INNER`: what a row, or a column, of a matrix is.
template <typename F> void CheckMatrix(const F& f, const Field<CellKey, Val>& m, const char* name, bool ordered_rows, bool ordered_cols) {
  using S = typename F::semantics_t;
  constexpr static bool kOneToOne = std::is_same_v<S, storage::semantics::OneToOne>;
  SIM_CHECK(f.Size() == m.data.size() && f.Empty() == m.data.empty(), "size", "%s: %zu entries instead of %zu", name, f.Size(), m.data.size());
  size_t n = 0;
  for (const auto& e : f) {
    const auto it = m.data.find(CellKey(e.row, e.col));
    SIM_CHECK(it != m.data.end() && Is(e, it->second), "contents", "%s: an unexpected entry while iterating", name);
    ++n;
  }
  SIM_CHECK(n == m.data.size(), "iteration", "%s: iterated over %zu entries of %zu", name, n, m.data.size());
  std::map<int32_t, std::map<std::string, Val>> rows;
  std::map<std::string, std::map<int32_t, Val>> cols;
  for (const auto& x : m.data) {
    const auto e = f[x.first];
    SIM_CHECK(Exists(e) && Is(Value(e), x.second), "contents", "%s: an entry is missing or different", name);
    if constexpr (!kOneToOne) SIM_CHECK(f.Has(x.first) && f.Has(x.first.first, x.first.second), "contents", "%s: an entry is misreported", name);
    const auto g = f.Get(x.first.first, x.first.second);
    SIM_CHECK(Exists(g) && Is(Value(g), x.second), "contents", "%s: an entry is missing or different", name);
    rows[x.first.first][x.first.second] = x.second;
    cols[x.first.second][x.first.first] = x.second;
  }
  for (const auto& x : m.lm) {
    const auto t = f.LastModified(x.first);
    SIM_CHECK(Exists(t), "last-modified", "%s: a modification time is missing", name);
    SIM_CHECK(!x.second || Value(t).count() == x.second, "last-modified", "%s: last modified at %lld instead of %lld", name, (long long)Value(t).count(), (long long)x.second);
  }
  for (const char* s : kStrings) for (int32_t i : kInts) {
    const CellKey k(i, s);
    if (!m.data.count(k)) SIM_CHECK(!Exists(f[k]) && !Exists(f.Get(i, s)), "contents", "%s: an absent entry is there", name);
    if constexpr (!kOneToOne) if (!m.data.count(k)) SIM_CHECK(!f.Has(k), "contents", "%s: an absent entry is there", name);
    if (!m.lm.count(k)) SIM_CHECK(!Exists(f.LastModified(k)), "last-modified", "%s: an entry which has never been there has its modification time", name);
  }
  // The rows.
  SIM_CHECK(f.Rows().Size() == rows.size() && f.Rows().Empty() == rows.empty(), "rows", "%s: %zu rows instead of %zu", name, f.Rows().Size(), rows.size());
  SIM_CHECK(f.Cols().Size() == cols.size() && f.Cols().Empty() == cols.empty(), "cols", "%s: %zu columns instead of %zu", name, f.Cols().Size(), cols.size());
  const auto check_line = [&](const auto& line, const auto& expected, bool by_col, bool ordered, const char* what) {
    SIM_CHECK(line.Size() == expected.size() && line.Empty() == expected.empty(), what, "%s: %zu elements instead of %zu", name, line.Size(), expected.size());
    size_t n = 0;
    auto next = expected.begin();
    for (const auto& e : line) {
      const Cell& c = e;
      const auto it = m.data.find(CellKey(c.row, c.col));
      SIM_CHECK(it != m.data.end() && Is(c, it->second), what, "%s: an unexpected element", name);
      if constexpr (std::is_same_v<std::decay_t<decltype(next->first)>, std::string>) {
        SIM_CHECK(expected.count(c.col), what, "%s: an element of another row", name);
        if (ordered) SIM_CHECK(next->first == c.col, "iteration-order", "%s: out of order", name);
      } else {
        SIM_CHECK(expected.count(c.row), what, "%s: an element of another column", name);
        if (ordered) SIM_CHECK(next->first == c.row, "iteration-order", "%s: out of order", name);
      }
      ++next;
      ++n;
    }
    SIM_CHECK(n == expected.size(), what, "%s: iterated over %zu elements of %zu", name, n, expected.size());
    for (const auto& x : expected) SIM_CHECK(line.Has(x.first), what, "%s: an element is missing", name);
  };
  if constexpr (std::is_same_v<S, storage::semantics::ManyToMany> || std::is_same_v<S, storage::semantics::OneToMany>) {
    size_t n = 0;
    for (const auto& row : f.Rows()) {
      SIM_CHECK(!row.Empty(), "rows", "%s: an empty row", name);
      const Cell& c = *row.begin();
      SIM_CHECK(rows.count(c.row), "rows", "%s: an unexpected row", name);
      if (ordered_rows) SIM_CHECK(std::next(rows.begin(), n)->first == c.row, "iteration-order", "%s: the rows are out of order", name);
      check_line(row, rows[c.row], true, ordered_cols, "rows");
      ++n;
    }
    SIM_CHECK(n == rows.size(), "rows", "%s: iterated over %zu rows of %zu", name, n, rows.size());
    for (int32_t i : kInts) {
      static const std::map<std::string, Val> kNone;
      const auto it = rows.find(i);
      check_line(f.Row(i), it == rows.end() ? kNone : it->second, true, ordered_cols, "rows");
      SIM_CHECK(f.Rows().Has(i) == (it != rows.end()) && Exists(f.Rows()[i]) == (it != rows.end()), "rows", "%s: a row is misreported", name);
    }
  } else {
    size_t n = 0;
    for (const auto& e : f.Rows()) {
      const Cell& c = e;
      const auto it = m.data.find(CellKey(c.row, c.col));
      SIM_CHECK(it != m.data.end() && Is(c, it->second), "rows", "%s: an unexpected row", name);
      if (ordered_rows) SIM_CHECK(std::next(rows.begin(), n)->first == c.row, "iteration-order", "%s: the rows are out of order", name);
      ++n;
    }
    SIM_CHECK(n == rows.size(), "rows", "%s: iterated over %zu rows of %zu", name, n, rows.size());
    for (const auto& x : rows) {
      const auto e = f.GetEntryFromRow(x.first);
      SIM_CHECK(Exists(e) && Value(e).col == x.second.begin()->first && Is(Value(e), x.second.begin()->second), "rows", "%s: the entry of a row is missing or different", name);
    }
    for (int32_t i : kInts) SIM_CHECK(Exists(f.GetEntryFromRow(i)) == (rows.count(i) != 0) && f.Rows().Has(i) == (rows.count(i) != 0), "rows", "%s: a row is misreported", name);
  }
  if constexpr (std::is_same_v<S, storage::semantics::ManyToMany>) {
    size_t n = 0;
    for (const auto& col : f.Cols()) {
      SIM_CHECK(!col.Empty(), "cols", "%s: an empty column", name);
      const Cell& c = *col.begin();
      SIM_CHECK(cols.count(c.col), "cols", "%s: an unexpected column", name);
      if (ordered_cols) SIM_CHECK(std::next(cols.begin(), n)->first == c.col, "iteration-order", "%s: the columns are out of order", name);
      check_line(col, cols[c.col], false, ordered_rows, "cols");
      ++n;
    }
    SIM_CHECK(n == cols.size(), "cols", "%s: iterated over %zu columns of %zu", name, n, cols.size());
    for (const char* s : kStrings) {
      static const std::map<int32_t, Val> kNone;
      const auto it = cols.find(s);
      check_line(f.Col(s), it == cols.end() ? kNone : it->second, false, ordered_rows, "cols");
    }
  } else {
    size_t n = 0;
    for (const auto& e : f.Cols()) {
      const Cell& c = e;
      const auto it = m.data.find(CellKey(c.row, c.col));
      SIM_CHECK(it != m.data.end() && Is(c, it->second), "cols", "%s: an unexpected column", name);
      if (ordered_cols) SIM_CHECK(std::next(cols.begin(), n)->first == c.col, "iteration-order", "%s: the columns are out of order", name);
      ++n;
    }
    SIM_CHECK(n == cols.size(), "cols", "%s: iterated over %zu columns of %zu", name, n, cols.size());
    for (const auto& x : cols) {
      const auto e = f.GetEntryFromCol(x.first);
      SIM_CHECK(Exists(e) && Value(e).row == x.second.begin()->first && Is(Value(e), x.second.begin()->second), "cols", "%s: the entry of a column is missing or different", name);
    }
    for (const char* s : kStrings) {
      SIM_CHECK(Exists(f.GetEntryFromCol(s)) == (cols.count(s) != 0) && f.Cols().Has(s) == (cols.count(s) != 0), "cols", "%s: a column is misreported", name);
      for (int32_t i : kInts) {
        const bool conflict = cols.count(s) || (std::is_same_v<S, storage::semantics::OneToOne> && rows.count(i));
        SIM_CHECK(f.DoesNotConflict(i, s) == !conflict, "conflict", "%s: DoesNotConflict() is wrong", name);
      }
    }
  }
}
template <typename FIELDS> void CheckAll(const FIELDS& f, const Model& m) {
  CheckDictionary(f.d, m.d, "OrderedDictionary", true);
  CheckDictionary(f.u, m.u, "UnorderedDictionary", false);
  CheckMatrix(f.mm, m.m[0], "UnorderedManyToOrderedMany", false, true);
  CheckMatrix(f.nn, m.m[1], "OrderedManyToUnorderedMany", true, false);
  CheckMatrix(f.om, m.m[2], "OrderedOneToUnorderedMany", true, false);
  CheckMatrix(f.on, m.m[3], "UnorderedOneToOrderedMany", false, true);
  CheckMatrix(f.oo, m.m[4], "OrderedOneToUnorderedOne", true, false);
  CheckMatrix(f.pp, m.m[5], "UnorderedOneToOrderedOne", false, true);
}
// Just the entries, cheap.
template <typename FIELDS> void CheckSome(const FIELDS& f, const Model& m) {
  SIM_CHECK(f.d.Size() == m.d.data.size() && f.u.Size() == m.u.data.size() && f.mm.Size() == m.m[0].data.size() && f.nn.Size() == m.m[1].data.size() && f.om.Size() == m.m[2].data.size() &&
            f.on.Size() == m.m[3].data.size() && f.oo.Size() == m.m[4].data.size() && f.pp.Size() == m.m[5].data.size(), "size", "a container has an unexpected number of entries");
  for (const auto& x : m.d.data) { const auto e = f.d[x.first]; SIM_CHECK(Exists(e) && Is(Value(e), x.second), "contents", "an entry is missing or different"); }
  for (const auto& x : m.u.data) { const auto e = f.u[x.first]; SIM_CHECK(Exists(e) && Is(Value(e), x.second), "contents", "an entry is missing or different"); }
  const auto matrix = [&](const auto& c, const auto& mm) { for (const auto& x : mm.data) { const auto e = c[x.first]; SIM_CHECK(Exists(e) && Is(Value(e), x.second), "contents", "an entry is missing or different"); } };
  matrix(f.mm, m.m[0]); matrix(f.nn, m.m[1]); matrix(f.om, m.m[2]); matrix(f.on, m.m[3]); matrix(f.oo, m.m[4]); matrix(f.pp, m.m[5]);
}

Op RandomOp(int fields, int keys) {
  Op op;
  op.field = sim::W(8);
  if (fields >= 0) op.field = fields;
  const int k = sim::W(8);
  op.kind = k < 5 ? 0 : k < 6 ? 1 : k < 7 ? 2 : 3;
  op.k1 = sim::W(op.field == kD ? std::min(keys, 8) : std::min(keys, 6));
  op.k2 = sim::W(std::min(keys, 8));
  op.value = 1 + sim::W(100000);
  return op;
}
// Performs an operation on both the storage and the model; checks the modification times it leaves behind.
template <typename FIELDS> int Do(FIELDS& f, Model& m, const Op& op, bool track_us) {
  const int64_t t0 = current::time::Now().count();
  const Val v = MakeVal(op.value);
  const auto cell = MakeCell(CellKey(kInts[op.k1 % 6], kStrings[op.k2]), op.value);
  const CellKey key(cell.row, cell.col);
  const auto with = [&](auto&& g) {
    switch (op.field) {
      case 2: g(f.mm); break;
      case 3: g(f.nn); break;
      case 4: g(f.om); break;
      case 5: g(f.on); break;
      case 6: g(f.oo); break;
      default: g(f.pp); break;
    }
  };
  const auto erase = [&](auto& c) { if (op.value % 2) c.Erase(key); else c.Erase(key.first, key.second); };
  if (op.field == kD) {
    Rec r; r.key = kStrings[op.k1]; r.value = v.value; r.body = v.body;
    if (op.kind == 0) f.d.Add(r); else f.d.Erase(r.key);
  } else if (op.field == kU) {
    Num r; r.key = kInts[op.k1]; r.value = v.value; r.body = v.body;
    if (op.kind == 0) f.u.Add(r); else f.u.Erase(r.key);
  } else if (op.kind == 0) {
    with([&](auto& c) { c.Add(cell); });
  } else if (op.kind == 1) {
    with([&](auto& c) { erase(c); });
  } else {
    with([&](auto& c) {
      using S = typename std::decay_t<decltype(c)>::semantics_t;
      if constexpr (std::is_same_v<S, storage::semantics::OneToOne>) { if (op.kind == 2) c.EraseRow(key.first); }
      if constexpr (!std::is_same_v<S, storage::semantics::ManyToMany>) { if (op.kind == 3) c.EraseCol(key.second); }
    });
  }
  const int64_t t1 = current::time::Now().count();
  // The times of the mutations are to be learned from the storage, and to be sane.
  const Model before = m;
  const int n = Apply(m, op, nullptr);
  if (track_us) {
    const auto learn = [&](const auto& c, const auto& was, auto& now) {
      for (auto& x : now.lm) {
        const auto it = was.lm.find(x.first);
        if (x.second == 0) {  // Just modified.
          const auto t = c.LastModified(x.first);
          SIM_CHECK(Exists(t) && Value(t).count() > t0 && Value(t).count() < t1, "last-modified", "%s: modified between %lld and %lld, last modified at %lld", c.FieldName().c_str(), (long long)t0, (long long)t1,
                    Exists(t) ? (long long)Value(t).count() : -1ll);
          x.second = Value(t).count();
        }
        (void)it;
      }
    };
    if (op.field == kD) learn(f.d, before.d, m.d);
    else if (op.field == kU) learn(f.u, before.u, m.u);
    else with([&](auto& c) { learn(c, before.m[op.field - 2], m.m[op.field - 2]); });
  }
  return n;
}

// ---- T03: the containers against the model, one transaction at a time ----------------------------------------------
struct TestException : std::runtime_error { using std::runtime_error::runtime_error; };
struct SecondStepException : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename DB, typename... ARGS> void Containers(const ARGS&... args) {
  sim::SetLimits(400000000, 36000ull * 1000000);
  if (sim::CB(0.3)) { sim::K().clock_jump = 0.1; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  if (sim::CB(0.3)) sim::K().clock_coarse = true;
  const int focus = sim::CB(0.7) ? static_cast<int>(sim::C(8)) : -1;
  const int keys = 1 + sim::C(8);
  auto storage = DB::CreateMasterStorage(args...);
  Model m;
  const auto client = [&](int transactions) {
    for (int i = 0; i < transactions; ++i) {
      const int ops = sim::W(10);
      const int how = sim::W(5);  // Commit, commit, commit, roll back, throw.
      bool committed = false;
      try {
        const auto result = storage->ReadWriteTransaction([&](MutableFields<DB> f) {
          Model work = m;
          for (int k = 0; k < ops; ++k) {
            Do(f, work, RandomOp(focus, keys), true);
            if (sim::WB(0.3)) CheckAll(f, work);
          }
          CheckAll(f, work);
          if (how == 3) CURRENT_STORAGE_THROW_ROLLBACK();
          if (how == 4) throw TestException("test");
          m = work;
        }).Go();
        committed = WasCommitted(result);
        SIM_CHECK(how != 4, "result", "the exception thrown by a transaction is lost");
      } catch (const TestException&) {
        SIM_CHECK(how == 4, "internal", "");
      }
      SIM_CHECK(committed == (how < 3), "result", "a transaction is reported as %scommitted", committed ? "" : "not ");
      storage->ReadOnlyTransaction([&](ImmutableFields<DB> f) { CheckAll(f, m); }).Wait();
      sim::Count(committed ? "committed" : "rolled_back");
    }
  };
  if (sim::CB()) {
    client(1 + sim::W(8));
  } else {
    h::Threads t;
    const int n = 2 + sim::C(2);
    for (int i = 0; i < n; ++i) t.Go([&]() { client(1 + sim::W(4)); });
  }
  sim::Cover(Str("%llu %llu", focus, m.Size()));
}
}  // namespace
SIM_SCENARIO("T03", containers, 1.0) { Containers<MemDb>(); }

// ---- T01: transactions, concurrently -------------------------------------------------------------------------------
namespace {
template <typename DB, typename... ARGS> void Transactions(const ARGS&... args) {
  sim::SetLimits(400000000, 36000ull * 1000000);
  h::Chaos();
  if (sim::CB(0.3)) { sim::K().clock_jump = 0.1; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  if (sim::CB(0.3)) sim::K().clock_coarse = true;
  const int focus = sim::CB(0.5) ? static_cast<int>(sim::C(8)) : -1;
  const int keys = 1 + sim::C(6);
  auto storage = DB::CreateMasterStorage(args...);
  Model m;           // The state committed by the last transaction.
  uint64_t entries = 0;
  bool inside = false;
  std::vector<std::map<std::string, std::string>> metas;
  std::vector<int> sizes;
  const auto& stream = storage->UnderlyingStream();
  const int n = 2 + sim::C(3);
  std::atomic<uint64_t> committed(0);
  // Called within a transaction, which is the only one at the time.
  const auto enter = [&](const auto& f) {
    SIM_CHECK(!inside, "not-isolated", "a transaction starts within another one");
    inside = true;
    const uint64_t size = stream->Data()->template Size<MutexLockStatus::AlreadyLocked>();
    SIM_CHECK(size == entries, "log", "there are %llu entries in the log, while %llu transactions with mutations have been committed", (ull)size, (ull)entries);
    if (sim::WB(0.3)) CheckAll(f, m); else CheckSome(f, m);
  };
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&, i]() {
        const int transactions = 1 + sim::W(5);
        for (int j = 0; j < transactions; ++j) {
          const int ops = sim::W(6);
          const int how = sim::W(5);
          const int kind = sim::W(5);
          int mutations = 0;
          bool ran = false, ran2 = false;
          const bool throws2 = sim::WB(0.2);
          const auto work = [&](MutableFields<DB> f) {
            enter(f);
            ran = true;
            Model w = m;
            for (int k = 0; k < ops; ++k) {
              mutations += Do(f, w, RandomOp(focus, keys), true);
              if (sim::WB(0.3)) sim::Yield();
            }
            std::map<std::string, std::string> meta;
            if (sim::WB(0.3)) { meta["who"] = Str("%llu", i); f.SetTransactionMetaField("who", "?"); f.SetTransactionMetaField("who", meta["who"]); }
            if (sim::WB(0.3)) { meta[Str("k%llu", j)] = "v"; f.SetTransactionMetaField(Str("k%llu", j), "v"); }
            if (sim::WB(0.1) && meta.count("who")) { meta.erase("who"); f.EraseTransactionMetaField("who"); }
            if (sim::WB(0.3)) CheckSome(f, w);
            if (how < 3) { m = w; if (mutations) { ++entries; metas.push_back(meta); sizes.push_back(mutations); } }
            inside = false;
          };
          try {
            switch (kind) {
              case 0: {
                const auto r = storage->ReadWriteTransaction([&](MutableFields<DB> f) {
                  work(f);
                  if (how == 3) CURRENT_STORAGE_THROW_ROLLBACK();
                  if (how == 4) throw TestException("test");
                }).Go();
                SIM_CHECK(how != 4 && WasCommitted(r) == (how < 3), "result", "a transaction is misreported");
                break;
              }
              case 1: {
                const auto r = storage->ReadWriteTransaction([&](MutableFields<DB> f) -> int {
                  work(f);
                  if (how == 3 && j % 2) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, 42 + j);
                  if (how == 3) CURRENT_STORAGE_THROW_ROLLBACK();
                  if (how == 4) throw TestException("test");
                  return 1000 + mutations;
                }).Go();
                SIM_CHECK(how != 4 && WasCommitted(r) == (how < 3), "result", "a transaction is misreported");
                if (how < 3) SIM_CHECK(Exists(r) && Value(r) == 1000 + mutations, "result", "the result of a transaction is lost");
                if (how == 3 && j % 2) SIM_CHECK(Exists(r) && Value(r) == 42 + j, "result", "the result of a rolled back transaction is lost");
                if (how == 3 && !(j % 2)) SIM_CHECK(!Exists(r), "result", "a rolled back transaction has a result");
                break;
              }
              case 2: {
                int got = -1;
                const auto r = storage->ReadWriteTransaction([&](MutableFields<DB> f) -> int {
                  work(f);
                  if (how == 3 && j % 2) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, 42 + j);
                  if (how == 3) CURRENT_STORAGE_THROW_ROLLBACK();
                  if (how == 4) throw TestException("test");
                  return 1000 + mutations;
                }, [&](int x) {
                  got = x;
                  ran2 = true;
                  // By now, what has been committed is in the log already.
                  const uint64_t size = stream->Data()->template Size<MutexLockStatus::AlreadyLocked>();
                  SIM_CHECK(size == entries, "log", "there are %llu entries in the log as the second step begins, while %llu transactions with mutations have been committed", (ull)size, (ull)entries);
                  if (throws2) throw SecondStepException("test");
                }).Go();
                SIM_CHECK(how != 4 && !(ran2 && throws2) && WasCommitted(r) == (how < 3), "result", "a transaction is misreported");
                SIM_CHECK(got == (how < 3 ? 1000 + mutations : j % 2 ? 42 + j : -1), "result", "the second step of a transaction gets %d", got);
                break;
              }
              case 3: {
                const auto r = storage->ReadOnlyTransaction([&](ImmutableFields<DB> f) -> int {
                  enter(f);
                  if (sim::WB(0.3)) sim::Yield();
                  inside = false;
                  if (how == 4) throw TestException("test");
                  return 7;
                }).Go();
                SIM_CHECK(how != 4 && WasCommitted(r) && Value(r) == 7, "result", "a read-only transaction is misreported");
                break;
              }
              default: {
                // Runs while another transaction is certainly in progress, and is waited for later.
                auto future = storage->ReadWriteTransaction([&](MutableFields<DB> f) { work(f); if (how == 3) CURRENT_STORAGE_THROW_ROLLBACK(); if (how == 4) throw TestException("test"); });
                if (sim::WB()) sim::SleepUs(sim::W(300));
                SIM_CHECK(WasCommitted(future.Go()) == (how < 3), "result", "a transaction is misreported");
                break;
              }
            }
          } catch (const TestException&) {
            SIM_CHECK(how == 4, "result", "a transaction throws what it has not thrown");
          } catch (const SecondStepException&) {
            SIM_CHECK(ran2 && throws2 && how < 4, "result", "a transaction throws what its second step has not thrown");
          }
          if (how < 3) ++committed;
          SIM_CHECK(ran || kind == 3, "result", "a transaction has not been run");
          if (sim::WB(0.3)) sim::SleepUs(sim::W(300));
        }
      });
    }
  }
  storage->ReadOnlyTransaction([&](ImmutableFields<DB> f) { enter(f); CheckAll(f, m); inside = false; }).Wait();
  // The log: every transaction with its mutations in order, times nested.
  uint64_t index = 0;
  int64_t prev = -1;
  for (const auto& e : stream->Data()->Iterate()) {
    SIM_CHECK(e.idx_ts.index == index++, "log", "the log has an unexpected index");
    SIM_CHECK(index <= sizes.size() && static_cast<int>(e.entry.mutations.size()) == sizes[index - 1], "log", "a transaction in the log has %zu mutations", e.entry.mutations.size());
    SIM_CHECK((std::map<std::string, std::string>(e.entry.meta.fields.begin(), e.entry.meta.fields.end())) == metas[index - 1], "log", "a transaction in the log has the metadata of another one");
    const int64_t b = e.entry.meta.begin_us.count(), d = e.entry.meta.end_us.count();
    SIM_CHECK(b > prev && b < d && d < e.idx_ts.us.count(), "log", "the times of a transaction are wrong: %lld, %lld, %lld, after %lld", (long long)b, (long long)d, (long long)e.idx_ts.us.count(), (long long)prev);
    prev = e.idx_ts.us.count();
    int64_t at = b;
    for (const auto& mutation : e.entry.mutations) {
      mutation.Call([&](const auto& ev) {
        const int64_t us = ev.us.count();
        SIM_CHECK(us >= at && us <= d, "log", "a mutation of a transaction from %lld to %lld is at %lld, after %lld", (long long)b, (long long)d, (long long)us, (long long)at);
        at = us;
      });
    }
  }
  SIM_CHECK(index == entries, "log", "there are %llu entries in the log, while %llu transactions with mutations have been committed", (ull)index, (ull)entries);
  SIM_CHECK(storage->LastAppliedTimestamp().count() == prev, "last-applied", "the last transaction is at %lld, the last applied one is at %lld", (long long)prev, (long long)storage->LastAppliedTimestamp().count());
  storage->GracefulShutdown();
  const std::string what = h::Throws([&]() { storage->ReadWriteTransaction([&](MutableFields<DB>) { sim::Fail("shutdown", "a transaction is run after the shutdown"); }).Go(); });
  SIM_CHECK(!what.empty(), "shutdown", "a transaction is not refused after the shutdown");
  sim::Count("committed", committed);
  sim::Cover(Str("%llu %llu %llu %llu", focus, m.Size(), entries, n));
}
}  // namespace
SIM_SCENARIO("T01", transactions, 1.0) { Transactions<MemDb>(); }
SIM_SCENARIO("T01", transactions_on_disk, 0.5) { Transactions<FileDb>(sim::RunDir() + "/db"); }

// ---- T02: restarts and followers -----------------------------------------------------------------------------------
namespace {
// `I <n> <ops>`: transaction #n of the log is about to be persisted; `A <n>`: it has been acknowledged; `O <n>`: this many
// were there after a restart.
std::string Encode(const std::vector<Op>& ops) {
  std::string s;
  for (const auto& o : ops) s += Str("%llu,%llu,%llu,%llu,%llu;", o.kind, o.field, o.k1, o.k2, o.value);
  return s;
}
struct Lineage {
  std::map<uint64_t, std::string> tx;
  uint64_t acknowledged = 0;  // The number of transactions which have to be there.
  Lineage() {
    for (const auto& r : sim::History()) {
      ull n;
      if (sscanf(r.c_str(), "I %llu", &n) == 1) tx[n] = r.substr(r.find(':') + 1);
      else if (sscanf(r.c_str(), "A %llu", &n) == 1) acknowledged = std::max<uint64_t>(acknowledged, n + 1);
      else if (sscanf(r.c_str(), "O %llu", &n) == 1) { acknowledged = n; tx.erase(tx.lower_bound(n), tx.end()); }
    }
  }
  Model State(uint64_t n) const {
    Model m;
    for (uint64_t i = 0; i < n; ++i) {
      const auto it = tx.find(i);
      SIM_CHECK(it != tx.end(), "invented", "there are more transactions than have ever been run: %llu", (ull)n);
      std::string s = it->second;
      for (size_t at = 0; at < s.size();) {
        Op op;
        ull v;
        SIM_CHECK(sscanf(s.c_str() + at, "%d,%d,%d,%d,%llu;", &op.kind, &op.field, &op.k1, &op.k2, &v) == 5, "internal", "%s", s.c_str());
        op.value = v;
        Apply(m, op, nullptr);
        at = s.find(';', at) + 1;
      }
    }
    return m;
  }
};
void Restarts() {
  sim::SetLimits(400000000, 36000ull * 1000000);
  h::Chaos();
  if (!sim::FinalPhase()) {
    static const double kP[] = {0.05, 0.01, 0.2, 0.5};
    switch (sim::C(4)) {
      case 0: sim::K().crash_at_write = kP[sim::C(4)]; break;
      case 1: sim::K().crash_at_point = 0.002; break;
      case 2: sim::K().crash_at_write = kP[sim::C(4)]; sim::K().disk_short_write = 0.3; break;
      default: {
        // The process stops by itself if it can not write.
        sim::ExitIsCrash(true);
        if (sim::CB()) sim::K().disk_capacity = sim::C(6000); else sim::K().disk_enospc = 0.05;
        sim::K().disk_eintr = 0.1;
      }
    }
  }
  // Can fail to open if, and only if, the disk fails.
  std::unique_ptr<Owned<FileDb>> opened;
  const std::string failure = h::Throws([&]() { opened = std::make_unique<Owned<FileDb>>(FileDb::CreateMasterStorage(sim::RunDir() + "/db")); });
  if (!opened) {
    SIM_CHECK(sim::InjectedDiskErrors(), "open", "the storage can not be opened, and the disk has not failed: %s", failure.c_str());
    sim::Count("opening_failed");
    sim::CrashNow("can not open");
  }
  Owned<FileDb>& storage = *opened;
  const auto& stream = storage->UnderlyingStream();
  Model m;
  uint64_t entries = 0;
  {
    Lineage l;
    entries = stream->Data()->Size();
    SIM_CHECK(entries >= l.acknowledged, "lost", "%llu transactions have been acknowledged, %llu are there after a restart", (ull)l.acknowledged, (ull)entries);
    m = l.State(entries);
    storage->ReadOnlyTransaction([&](ImmutableFields<FileDb> f) { CheckAll(f, m); }).Wait();
    sim::HistoryAppend(Str("O %llu", entries));
    if (sim::Phase()) sim::Count("restarts_checked");
    sim::Cover(Str("restart %llu %llu", entries, m.Size()));
  }
  const int n = 1 + sim::C(3);
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      t.Go([&]() {
        const int transactions = 1 + sim::W(6);
        for (int j = 0; j < transactions; ++j) {
          const int ops = sim::W(5);
          const bool roll_back = sim::WB(0.2);
          bool persisted = false;
          uint64_t mine = 0;
          const auto work = [&](MutableFields<FileDb> f) {
            CheckSome(f, m);
            Model w = m;
            std::vector<Op> log;
            int mutations = 0;
            for (int k = 0; k < ops; ++k) { log.push_back(RandomOp(-1, 8)); mutations += Do(f, w, log.back(), false); }
            if (roll_back) CURRENT_STORAGE_THROW_ROLLBACK();
            m = w;
            if (mutations) {
              persisted = true;
              mine = entries++;
              sim::HistoryAppend(Str("I %llu:", mine) + Encode(log));
            }
          };
          // The second step is where the transaction gets acknowledged.
          const auto acknowledge = [&]() { if (persisted) { sim::HistoryAppend(Str("A %llu", mine)); sim::Count("acknowledged"); } };
          if (sim::WB()) {
            const auto r = storage->ReadWriteTransaction(work).Go();
            SIM_CHECK(WasCommitted(r) == !roll_back, "result", "a transaction is misreported");
            acknowledge();
          } else {
            const auto r = storage->ReadWriteTransaction([&](MutableFields<FileDb> f) -> int { work(f); return 1; }, [&](int) { acknowledge(); }).Go();
            SIM_CHECK(WasCommitted(r) == !roll_back, "result", "a transaction is misreported");
          }
          if (sim::WB(0.3)) sim::SleepUs(sim::W(300));
        }
      });
    }
  }
  storage->ReadOnlyTransaction([&](ImmutableFields<FileDb> f) { CheckAll(f, m); }).Wait();
  if (!sim::FinalPhase() && sim::CB()) sim::CrashNow("the end of a life");
}

// Replaying the very same log gives the very same state, the modification times included.
template <typename DB, typename CREATE> void Followers(CREATE create, bool durable) {
  using stream_t = typename DB::stream_t;
  sim::SetLimits(400000000, 36000ull * 1000000);
  h::Chaos();
  if (sim::CB(0.3)) { sim::K().clock_jump = 0.1; sim::K().clock_jump_max_us = sim::CB() ? 50 : 3000000; }
  const int keys = 1 + sim::C(8);
  std::vector<Model> states(1);  // The states after so many transactions with mutations; for the last one, before it is published.
  constexpr bool mixed = std::is_same_v<typename stream_t::entry_t, MixedEntry>;
  uint64_t notes = 0;
  const auto transact = [&](DB& db) {
    const int ops = sim::W(6);
    const bool roll_back = sim::WB(0.15);
    const bool note = mixed && sim::WB(0.3);
    if constexpr (mixed) {
      if (sim::WB(0.3)) {
        // Not a part of any transaction.
        std::lock_guard<std::mutex> lock(db.UnderlyingStream()->Impl()->publishing_mutex);
        db.PublisherUsed()->template Publish<MutexLockStatus::AlreadyLocked>(Note(notes++));
      }
    }
    const auto r = db.ReadWriteTransaction([&](MutableFields<DB> f) {
      if constexpr (mixed) {
        if (note) db.PublisherUsed()->template Publish<MutexLockStatus::AlreadyLocked>(Note(notes++));
      }
      CheckSome(f, states.back());
      Model w = states.back();
      int mutations = 0;
      for (int k = 0; k < ops; ++k) mutations += Do(f, w, RandomOp(-1, keys), true);
      if (roll_back) CURRENT_STORAGE_THROW_ROLLBACK();
      if (mutations) states.push_back(w);
    }).Go();
    SIM_CHECK(WasCommitted(r) == !roll_back, "result", "a transaction is misreported");
    sim::Count(roll_back ? "rolled_back" : "committed");
  };
  // How many transactions has it applied.
  const auto applied = [&](DB& db, const stream_t& stream) {
    const int64_t us = db.template LastAppliedTimestamp<MutexLockStatus::AlreadyLocked>().count();
    if (us == -1) return uint64_t(0);
    uint64_t n = 0;
    for (const auto& e : stream.Data()->template Iterate<MutexLockStatus::AlreadyLocked>()) {
      if (!Exists<typename DB::transaction_t>(e.entry)) continue;
      ++n;
      if (e.idx_ts.us.count() == us) return n;
    }
    sim::Fail("follower", "a storage claims to have applied the transaction at %lld, and there is none", (long long)us);
    return uint64_t(0);
  };
  const auto check = [&](DB& db, const stream_t& stream) {
    uint64_t n = 0;
    db.ReadOnlyTransaction([&](ImmutableFields<DB> f) {
      n = applied(db, stream);
      SIM_CHECK(n < states.size(), "follower", "%llu transactions have been applied of %llu", (ull)n, (ull)states.size() - 1);
      if (sim::WB()) CheckAll(f, states[n]); else CheckSome(f, states[n]);
    }).Wait();
    sim::Count("follower_checks");
    return n;
  };
  {
    Owned<stream_t> stream = create();
    auto master = std::make_unique<Owned<DB>>(DB::CreateMasterStorageAtopExistingStream(stream));
    const int before = sim::W(4);
    for (int i = 0; i < before; ++i) transact(**master);
    const int nf = 1 + sim::C(3);
    std::vector<std::unique_ptr<Owned<DB>>> followers;
    for (int i = 0; i < nf; ++i) followers.push_back(std::make_unique<Owned<DB>>(DB::CreateFollowingStorageAtopExistingStream(stream)));
    const bool flip = sim::CB(0.7);
    const bool early = sim::WB();  // Begins flipping while the master is still there.
    std::atomic<bool> master_gone(false), done(false);
    {
      h::Threads t;
      for (int i = 0; i < nf; ++i) {
        DB* db = &**followers[i];
        t.Go([&, db, i]() {
          uint64_t prev = 0;
          while (!done) {
            if (!flip || i) SIM_CHECK(!db->IsMasterStorage(), "follower", "a follower claims to be the master");
            if (sim::WB(0.2) && (!flip || i)) {
              const auto refused = [&]() { sim::Fail("follower", "a follower runs a mutating transaction"); };
              const int how = sim::W(3);
              const std::string what = h::Throws([&]() {
                if (how == 0) db->ReadWriteTransaction([&](MutableFields<DB>) { refused(); }).Go();
                if (how == 1) db->ReadWriteTransaction([&](MutableFields<DB>) -> int { refused(); return 1; }).Go();
                if (how == 2) db->ReadWriteTransaction([&](MutableFields<DB>) -> int { refused(); return 1; }, [&](int) { refused(); }).Go();
              });
              SIM_CHECK(!what.empty(), "follower", "a follower does not refuse a mutating transaction");
            }
            const uint64_t n = check(*db, *stream);
            SIM_CHECK(n >= prev, "follower", "a follower has gone back from %llu to %llu transactions", (ull)prev, (ull)n);
            prev = n;
            sim::SleepUs(100 + sim::W(2000));
          }
        });
      }
      if (flip) {
        t.Go([&]() {
          DB& db = **followers[0];
          if (early) sim::SleepUs(sim::W(3000)); else while (!master_gone) sim::SleepUs(100);
          const std::string what = h::Throws([&]() { db.FlipToMaster(); });
          SIM_CHECK(what.empty(), "flip", "can not become the master: %s", what.c_str());
          SIM_CHECK(db.IsMasterStorage(), "flip", "is not the master having become one");
          SIM_CHECK(check(db, *stream) == states.size() - 1, "flip", "the new master has not applied the whole log");
          SIM_CHECK(!h::Throws([&]() { db.FlipToMaster(); }).empty(), "flip", "becomes the master twice");
          const int after = sim::W(5);
          for (int i = 0; i < after; ++i) { transact(db); if (sim::WB(0.3)) sim::SleepUs(sim::W(1000)); }
          sim::Count("flips");
        });
      }
      t.Go([&]() {
        const int during = sim::W(6);
        for (int i = 0; i < during; ++i) { transact(**master); if (sim::WB(0.4)) sim::SleepUs(sim::W(1500)); }
        if (flip) { master = nullptr; master_gone = true; }
      });
      // Converges in a bounded time.
      const size_t others = t.t.size() - nf;
      for (size_t i = nf; i < nf + others; ++i) t.t[i].join();
      t.t.resize(nf);
      for (int i = 0; i < nf; ++i) {
        const bool converged = sim::WaitUntil([&]() {
          uint64_t n = 0;
          (**followers[i]).ReadOnlyTransaction([&](ImmutableFields<DB>) { n = applied(**followers[i], *stream); }).Wait();
          return n == states.size() - 1;
        }, 2000ull * 1000000);
        SIM_CHECK(converged, "follower", "a follower does not catch up");
      }
      done = true;
    }
    for (int i = 0; i < nf; ++i) (**followers[i]).ReadOnlyTransaction([&](ImmutableFields<DB> f) { CheckAll(f, states.back()); }).Wait();
    SIM_CHECK(stream->Data()->Size() == states.size() - 1 + notes, "log", "the log has %llu entries, %llu transactions have been committed, %llu notes published", (ull)stream->Data()->Size(), (ull)states.size() - 1, (ull)notes);
    if constexpr (mixed) {
      uint64_t id = 0;
      for (const auto& e : stream->Data()->Iterate()) if (Exists<Note>(e.entry)) SIM_CHECK(Value<Note>(e.entry).id == id++, "log", "a note is lost");
      SIM_CHECK(id == notes, "log", "%llu notes of %llu", (ull)id, (ull)notes);
    }
    sim::Cover(Str("followers %llu %llu %llu %llu", nf, flip, states.size(), states.back().Size()));
    if (sim::WB()) { followers.clear(); master = nullptr; } else { master = nullptr; followers.clear(); }
  }
  if (!durable) return;
  // The same state, and the same modification times, once restarted.
  Owned<stream_t> stream = create();
  SIM_CHECK(stream->Data()->Size() == states.size() - 1 + notes, "lost", "%llu entries are there after a restart of %llu", (ull)stream->Data()->Size(), (ull)states.size() - 1 + notes);
  auto again = DB::CreateMasterStorageAtopExistingStream(stream);
  again->ReadOnlyTransaction([&](ImmutableFields<DB> f) { CheckAll(f, states.back()); }).Wait();
  for (int i = 0; i < 2; ++i) transact(*again);
  again->ReadOnlyTransaction([&](ImmutableFields<DB> f) { CheckAll(f, states.back()); }).Wait();
}
}  // namespace
SIM_SCENARIO("T02", restarts, 1.0, 4) { Restarts(); }
SIM_SCENARIO("T02", followers, 1.0) { Followers<MemDb>([]() { return MemDb::stream_t::CreateStream(); }, false); }
SIM_SCENARIO("T02", followers_on_disk, 0.5) { Followers<FileDb>([]() { return FileDb::stream_t::CreateStream(sim::RunDir() + "/db"); }, true); }
SIM_SCENARIO("T02", followers_shared_stream, 0.5) { Followers<MixedMemDb>([]() { return MixedMemDb::stream_t::CreateStream(); }, false); }
SIM_SCENARIO("T02", followers_shared_stream_on_disk, 0.25) { Followers<MixedFileDb>([]() { return MixedFileDb::stream_t::CreateStream(sim::RunDir() + "/db"); }, true); }
