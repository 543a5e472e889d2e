// The entries, the streams, and the history as the publishers know it.
#pragma once
#include "common.h"
#include "/repo/stream/stream.h"
#include "/repo/blocks/persistence/file.h"
#include "/repo/blocks/persistence/memory.h"

using namespace current;
using std::chrono::microseconds;

CURRENT_STRUCT(EvA) {
  CURRENT_FIELD(id, uint64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(EvA)(uint64_t id = 0, std::string s = "") : id(id), s(std::move(s)) {}
};
CURRENT_STRUCT(EvB) {
  CURRENT_FIELD(id, uint64_t, 0);
  CURRENT_FIELD(n, int64_t, 0);
  CURRENT_CONSTRUCTOR(EvB)(uint64_t id = 0, int64_t n = 0) : id(id), n(n) {}
};
CURRENT_VARIANT(Ev, EvA, EvB);

namespace {
using ull = unsigned long long;
using MemStream = stream::Stream<Ev, persistence::Memory>;
using FileStream = stream::Stream<Ev, persistence::File>;

std::string Str(const char* fmt, ull a, ull b = 0, ull c = 0, ull d = 0) {
  char x[128];
  snprintf(x, sizeof x, fmt, a, b, c, d);
  return x;
}

template <typename S> struct Make;
template <> struct Make<MemStream> { static Owned<MemStream> Go() { return MemStream::CreateStream(); } };
template <> struct Make<FileStream> { static Owned<FileStream> Go() { return FileStream::CreateStream(sim::RunDir() + "/log"); } };

uint64_t IdOf(const Ev& e) { return Exists<EvA>(e) ? Value<EvA>(e).id : Value<EvB>(e).id; }
// Odd IDs are of one type, even ones are of another one; the contents are the function of the ID.
std::string TextOf(uint64_t id) { return h::Payload(id, (id * 7) % 40); }
void CheckEv(const EvA& e) { SIM_CHECK(e.id % 2 == 1 && e.s == TextOf(e.id), "corrupted", "the entry with ID %llu is corrupted", (ull)e.id); }
void CheckEv(const EvB& e) { SIM_CHECK(e.id % 2 == 0 && e.n == static_cast<int64_t>(e.id * 17), "corrupted", "the entry with ID %llu is corrupted", (ull)e.id); }
void CheckEv(const Ev& e) { if (Exists<EvA>(e)) CheckEv(Value<EvA>(e)); else { SIM_CHECK(Exists<EvB>(e), "corrupted", "an empty entry"); CheckEv(Value<EvB>(e)); } }
template <typename P, typename... T> idxts_t Pub(P& p, uint64_t id, T... ts) {
  return id % 2 ? p.Publish(EvA(id, TextOf(id)), ts...) : p.Publish(EvB(id, id * 17), ts...);
}

Ev MakeEv(uint64_t id) { if (id % 2) return Ev(EvA(id, TextOf(id))); return Ev(EvB(id, id * 17)); }

struct Item { uint64_t index; int64_t us; uint64_t id; };
// The history as the publishers know it.
struct Model {
  std::map<uint64_t, Item> by_index;
  std::map<uint64_t, Item> by_id;
  std::set<uint64_t> attempted;
  uint64_t next_id = 1;
  uint64_t NewId() { sim::Atomic a; const uint64_t id = next_id++; attempted.insert(id); return id; }
  void Done(uint64_t id, idxts_t r) {
    sim::Atomic a;
    const Item it{r.index, r.us.count(), id};
    SIM_CHECK(by_index.insert({r.index, it}).second, "index-reused", "the index %llu has been given out twice", (ull)r.index);
    by_id[id] = it;
  }
  uint64_t Size() { sim::Atomic a; return by_index.size(); }
  void CheckComplete() {
    uint64_t i = 0;
    int64_t us = -1;
    for (const auto& e : by_index) {
      SIM_CHECK(e.first == i, "gap", "no publisher was given the index %llu", (ull)i);
      SIM_CHECK(e.second.us > us, "order", "the timestamp of %llu, %lld, does not exceed the previous one, %lld", (ull)i, (long long)e.second.us, (long long)us);
      us = e.second.us;
      ++i;
    }
  }
  template <typename S> void CheckStored(S& stream) {
    const auto& p = *stream->Data();
    SIM_CHECK(p.Size() == by_index.size(), "size", "%zu publishes have succeeded, the size is %llu", by_index.size(), (ull)p.Size());
    uint64_t i = 0;
    for (const auto& e : p.Iterate()) {
      CheckEv(e.entry);
      const Item& m = by_index[i];
      SIM_CHECK(e.idx_ts.index == i && e.idx_ts.us.count() == m.us && IdOf(e.entry) == m.id, "stored", "entry %llu is id %llu at %lld, while it has been published as id %llu at %lld", (ull)i,
                (ull)IdOf(e.entry), (long long)e.idx_ts.us.count(), (ull)m.id, (long long)m.us);
      ++i;
    }
    SIM_CHECK(i == by_index.size(), "size", "%llu entries iterated over", (ull)i);
    if (i) {
      const auto last = p.LastPublishedIndexAndTimestamp();
      SIM_CHECK(last.index == i - 1 && last.us.count() == by_index[i - 1].us, "last", "the last entry is misreported");
      SIM_CHECK(p.CurrentHead().count() >= by_index[i - 1].us, "head", "the head is behind the last entry");
    }
  }
};

}  // namespace
