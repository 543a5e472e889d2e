// Shared by the harnesses.
#pragma once
#include "../sim/sim.h"

// What the code asserts about itself must hold: the failed assertions, which the code just prints, are violations.
// `H_UNCHECKED_ASSERTION` is the one which is about what the user of the running system asks for, and not about the code.
#ifndef H_UNCHECKED_ASSERTION
#define H_UNCHECKED_ASSERTION ""
#endif
#define CURRENT_ASSERT(expr) \
  ((expr) || !__builtin_strcmp(#expr, H_UNCHECKED_ASSERTION) ? static_cast<void>(0) : ::sim::Fail("assertion", "%s, %s : %d", #expr, __FILE__, __LINE__))

#include <algorithm>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace h {

// Joins on scope exit, and never lets an exception escape into `std::terminate` unnoticed: it is a violation.
struct Threads {
  std::vector<std::thread> t;
  template <typename F>
  void Go(F f) {
    t.emplace_back([f]() {
      try {
        f();
      } catch (const std::exception& e) {
        sim::Fail("unexpected-exception", "in a client thread: %s", e.what());
      }
    });
  }
  void Join() {
    for (auto& x : t) x.join();
    t.clear();
  }
  ~Threads() { Join(); }
};

// A payload which carries its own checksum.
inline std::string Payload(uint64_t id, size_t len) {
  std::string s;
  s.reserve(len);
  uint64_t x = id * 0x9e3779b97f4a7c15ull + 12345;
  for (size_t i = 0; i < len; ++i) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    s += "abcdefghijklmnopqrstuvwxyz0123456789 {}:,#\"\\\n\t"[x % 46];
  }
  return s;
}

template <typename F>
std::string Throws(F f) {  // The name of what it throws, or an empty string.
  try {
    f();
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  }
  return "";
}

inline void Chaos(double intensity = 1.0) {  // Scheduling-only faults: always legal.
  auto& k = sim::K();
  if (sim::CB(0.5)) k.spurious_wakeup = 0.2 * intensity;
  if (sim::CB(0.3)) { k.stall = 0.02 * intensity; k.stall_max_us = sim::CB(0.5) ? 2000 : 200000; }
  if (sim::CB(0.3)) k.time_leap = 0.02 * intensity;
}

}  // namespace h
