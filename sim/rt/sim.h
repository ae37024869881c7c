// Deterministic simulator runtime for the C++ half of the repository.
//
// One run = one forked child. Every choice of a run (workload, faults,
// schedule) is drawn from one of three choice streams which are expanded from
// a single integer seed, recorded, and can be fed back verbatim (replay) or
// edited (minimisation). A drawn value of 0 is always the simplest choice.
#ifndef WODSIM_SIM_H_
#define WODSIM_SIM_H_

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Stream { kWork = 0, kFault = 1, kSched = 2, kNumStreams = 3 };

// Draws a value in [0, n). n >= 1.
uint64_t Draw(Stream s, uint64_t n);
inline uint64_t W(uint64_t n) { return Draw(kWork, n); }
inline uint64_t F(uint64_t n) { return Draw(kFault, n); }
// True with probability num/den; a recorded 0 means false.
bool WP(uint64_t num, uint64_t den);
bool FP(uint64_t num, uint64_t den);
// lo + k * (hi - lo) / steps for a drawn k in [0, steps].
double WU(double lo, double hi, uint64_t steps = 1000);
int WI(int lo, int hi);  // inclusive
template <typename T>
const T& WPick(const std::vector<T>& v) { return v[W(v.size())]; }

// A random permutation, drawn from `s` (all zeros: identity).
std::vector<int> Permutation(Stream s, int n);

// Ends the run. A violation names its class (stable under minimisation).
[[noreturn]] void Violation(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void Skip(const char* why);
[[noreturn]] void HarnessError(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
[[noreturn]] void EndRun();

void Probe(const char* name, uint64_t n = 1);  // a rare condition was reached
void Fault(const char* name, uint64_t n = 1);  // a fault was injected
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Adds to the hash that identifies the workload of this run.
void NoteWorkload(uint64_t h);
// Whether ending in abort() (a fatal check) is an acceptable end of the run
// from here on.
void AllowAbort(bool on);
void Nontrivial();  // marks the run as non-trivial by the property's rule

// Runs `main` as simulated thread 0; returns when it has returned.
void Simulate(const std::function<void()>& main);
// Usable only inside Simulate().
int Spawn(const std::function<void()>& fn);
void Join(int tid);
void JoinAll(const std::vector<int>& tids);
void YieldPoint();
bool InSim();
int SelfId();
uint64_t Steps();
int DrawnParallelism();

// Memory: garbage for buffers handed to the code under test.
void FillGarbage(void* p, size_t n);
void* ArenaAlloc(size_t n, size_t align);
void ArenaFree(void* p);
void ScribbleStack();
// From here on memory is placed and filled as in another process.
void NewProcessMemory();

// ---- properties register themselves
struct Property {
  const char* id;
  void (*run)();
  void (*warm)();  // once, in the parent, before any fork
};
struct Register {
  Register(const char* id, void (*run)(), void (*warm)() = nullptr);
};

uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return HashBytes(s.data(), s.size(), h);
}
std::string StrF(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool Verbose();

// Child I/O fault plan (used by interposed file calls); see io.cc.
namespace rtinternal {
extern volatile bool sim_active;
void OnAccess(const void* addr, unsigned size, bool write, const void* pc);
}

}  // namespace sim
#endif
