#ifndef WODSIM_RT_INTERNAL_H_
#define WODSIM_RT_INTERNAL_H_
#include <stddef.h>
#include <stdint.h>
namespace sim {
void Count(const char* name, uint64_t n, int kind);
namespace rtinternal {
constexpr uint32_t kMaxChoices = 1 << 16;
constexpr size_t kMaxLog = 1 << 18;
constexpr int kMaxCounters = 200;
enum Verdict { kOk = 1, kViolation = 2, kSkip = 3, kHarness = 4 };
struct Shared {
  int verdict;
  char cls[96];
  char msg[1800];
  uint64_t workload_hash, trace_hash, steps, switches;
  int nontrivial, allow_abort, choice_overflow, tool_faults;
  struct { char name[80]; int kind; uint64_t n; } counters[kMaxCounters];
  int ncounters;
  uint32_t nchoices[3];
  uint32_t loglen;
  uint32_t choices[3][kMaxChoices];
  char log[kMaxLog];
};
extern Shared* g_shared;
extern volatile bool in_child;
void InitMemory();
void StartChildMemory();
}  // namespace rtinternal
}  // namespace sim
#endif
