// Shared by the simulations of the command-line tools: damage done to files
// before a tool starts, and faults of its file operations while it runs.
#ifndef WODSIM_TOOLS_H_
#define WODSIM_TOOLS_H_
#include <sys/stat.h>

#include <map>
#include <string>
#include <vector>

#include "rt/io.h"
#include "rt/sim.h"

namespace tools {
using sim::io::Plan;
using sim::io::Result;
using Files = std::map<std::string, std::string>;

inline sim::io::Plan DrawPlan(bool writes, bool crashes, int files) {
  using namespace sim::io;
  Plan p;
  if (sim::FP(1, 4)) p.short_reads = true;
  if (writes && sim::FP(1, 4)) p.short_writes = true;
  if (p.short_reads || p.short_writes) p.jitter = 1 + sim::F(1000);
  if (p.short_reads) sim::Fault("short reads");
  if (p.short_writes) sim::Fault("short writes");
  int n = sim::F(3);
  for (int i = 0; i < n; ++i) {
    Planned a{kOpen, 0, kNone, 0};
    switch (sim::F(writes ? 8 : 3)) {
      case 0: a.kind = kRead; a.act = kReadError; break;
      case 1: a.kind = kOpen; a.act = std::vector<Act>{kOpenNotFound, kOpenDenied, kOpenTooMany}[sim::F(3)]; break;
      case 2: a.kind = kRead; a.act = kReadInterrupted; break;
      case 3: a.kind = kWrite; a.act = std::vector<Act>{kDiskFull, kDiskFullOnce, kWriteError}[sim::F(3)]; break;
      case 4: a.kind = kWrite; a.act = kTornThenFull; break;
      case 5: a.kind = kClose; a.act = kCloseError; break;
      case 6: a.kind = kWrite; a.act = kWriteInterrupted; break;
      default: a.kind = kRename; a.act = kRenameError; break;
    }
    a.nth = sim::F(a.kind == kRead ? 2 * files + 2 : files + 1);
    a.arg = sim::F(200);
    p.acts.push_back(a);
  }
  if (crashes && sim::FP(1, 4)) {
    Planned a{kAny, 0, kCrash, 0};
    a.nth = sim::F(4 * files + 4);
    a.arg = sim::F(200);
    p.acts.push_back(a);
  }
  return p;
}

// What happened to a stored file before the tool reads it. Returns false when
// it is no longer there (or is a directory).
inline bool Damage(const char* name, std::string* c) {
  size_t n = c->size();
  switch (sim::F(7)) {
    case 0:
      sim::Fault("file lost");
      sim::Log("  %s lost", name);
      return false;
    case 1: {
      sim::Fault("file truncated");
      size_t k = n ? sim::F(n) : 0;
      sim::Log("  %s cut to %zu of %zu bytes", name, k, n);
      c->resize(k);
      break;
    }
    case 2: {
      sim::Fault("byte of a file changed");
      if (n == 0) break;
      size_t at = sim::F(n);
      unsigned char x = 1 + sim::F(255);
      (*c)[at] ^= x;
      sim::Log("  %s byte %zu xor %02x", name, at, x);
      break;
    }
    case 3: {
      sim::Fault("stretch of a file lost (zeros)");
      if (n == 0) break;
      size_t at = sim::F(n), len = 1 + sim::F(512);
      for (size_t i = at; i < std::min(n, at + len); ++i) (*c)[i] = 0;
      sim::Log("  %s zeros at %zu for %zu", name, at, len);
      break;
    }
    case 4: {
      sim::Fault("torn file: tail of an older version");
      if (n < 4) break;
      size_t at = n / 2 + sim::F(n / 2), len = 1 + sim::F(n / 2);
      c->append(c->substr(at - len > n ? 0 : at - len, len));
      sim::Log("  %s has %zu stale bytes at its end", name, len);
      break;
    }
    case 5:
      sim::Fault("a directory in place of a file");
      sim::Log("  %s is a directory", name);
      mkdir(name, 0777);
      return false;
    default:
      sim::Fault("file emptied");
      sim::Log("  %s is empty", name);
      c->clear();
  }
  return true;
}
inline void Store(const Files& fs) {
  for (const auto& f : fs) sim::io::Put(f.first, f.second);
}
inline void Unchanged(const Files& fs) {
  for (const auto& f : fs) {
    std::string c;
    if (!sim::io::Get(f.first, &c) || c != f.second)
      sim::Violation("input-modified", "the tool changed or removed its input %s", f.first.c_str());
  }
}
inline std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (const auto& x : v) s += (s.empty() ? "" : ",") + x;
  return s;
}
}  // namespace tools
#endif
