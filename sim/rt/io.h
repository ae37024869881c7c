// Runs a command-line tool's main as a process of its own inside a run, with
// its file operations behind a seam that injects planned faults.
#ifndef WODSIM_IO_H_
#define WODSIM_IO_H_
#include <stdint.h>

#include <string>
#include <vector>

namespace sim {
namespace io {

enum Kind { kOpen, kRead, kWrite, kClose, kRename, kAny, kNumKinds };
enum Act {
  kNone,
  kOpenNotFound, kOpenDenied, kOpenTooMany,   // open fails
  kReadError,                                 // EIO
  kReadInterrupted, kWriteInterrupted,        // EINTR
  kDiskFullOnce, kDiskFull, kWriteError,      // ENOSPC (once / from now on), EIO
  kTornThenFull,                              // some bytes, then ENOSPC from now on
  kCloseError,                                // EIO and the tail is lost
  kRenameError,
  kCrash,                                     // SIGKILL, a prefix of a write done
};
// `act` hits the nth operation of its kind (counted from 0).
struct Planned {
  Kind kind;
  uint32_t nth;
  Act act;
  uint32_t arg;
};
struct Plan {
  std::vector<Planned> acts;
  bool short_reads = false, short_writes = false;
  uint64_t jitter = 0;      // decides how short
  int fail_big_alloc = -1;  // which allocation of >= 64 MB fails
};
struct Result {
  bool crashed = false;    // by the plan
  int sig = 0, code = -1;  // how it ended otherwise
  int hard = 0;            // faults injected that the tool cannot hide
  int soft = 0;            // interrupted calls: a tool may retry or give up
  int unread = 0;          // files whose reading failed and was never made good
  uint32_t ops[kNumKinds] = {};
  std::string out, err;
  bool failed() const { return crashed || sig != 0 || code != 0; }
};

// An empty directory of this run becomes the working directory.
void EnterScratch();
void Put(const std::string& path, const std::string& content);
bool Get(const std::string& path, std::string* content);
std::vector<std::string> List();

// Ends the run with a violation when the tool dies by anything but its own
// abort(), damages the heap or does not end.
Result RunTool(int (*tool)(int, char**), const std::vector<std::string>& args, const Plan& plan);

}  // namespace io
}  // namespace sim
#endif
