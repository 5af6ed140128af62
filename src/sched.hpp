// Controlled scheduler + happens-before race detector behind the compiler's
// thread-sanitizer instrumentation (compiled with -fsanitize=thread, linked
// against this runtime instead of libtsan).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
constexpr int MAXT = 5;  // thread 0 is the controller
enum Kind : uint8_t { kBegin, kLoad, kStore, kRmw, kLock, kUnlock, kYield, kWait, kWake, kFence, kEnd };
struct Op { uint64_t addr; uint8_t kind; };
struct Node {
  uint8_t enabled, chosen, nt, sleep;
  Op op[MAXT];
};
constexpr int MAXNODES = 4096;
struct Log {  // shared with the explorer
  volatile uint32_t nnodes, done, redundant, violated;
  volatile uint64_t steps, spins;
  uint8_t prefix[MAXNODES];
  uint32_t nprefix;
  uint8_t start_sleep;     // sleep set at the end of the prefix
  uint64_t patience;       // consecutive unchanged reads before a spinning thread is set aside
  Node node[MAXNODES];
  char why[2000];
  char trace[4000];
};
// Runs the bodies as threads 1..n under the schedule in log; returns when all ended.
void run(Log* log, const std::vector<std::function<void()>>& bodies);
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern int fail_alloc_over;  // nothrow allocations of at least this size fail (0 = off)
extern uint64_t injected;
inline bool independent(const Op& a, const Op& b) {
  auto local = [](uint8_t k) { return k == kBegin || k == kYield || k == kFence || k == kEnd; };
  if (local(a.kind) || local(b.kind)) return true;
  if (a.addr != b.addr) return true;
  return a.kind == kLoad && b.kind == kLoad;
}
}  // namespace sched
