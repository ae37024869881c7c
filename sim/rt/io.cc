#include "rt/io.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>

#include "rt_internal.h"
#include "sim.h"

extern "C" char __executable_start, etext;

namespace sim {
void SetVerbose(bool on);
namespace rtinternal {
extern int g_big_allocs, g_fail_big;
}
using namespace rtinternal;
namespace io {
namespace {

struct Live {
  int hard, soft, crashed;
  uint32_t ops[kNumKinds];
  struct { char name[64]; int bad; } files[128];  // bad: could not be read so far
};
Live* g_live = nullptr;
bool g_tool = false;
const Plan* g_plan = nullptr;
bool g_full = false;
uint64_t g_jitter = 0;
constexpr int kFds = 4096;
struct Fd {
  bool on = false, wrote = false;
  char name[64];
} g_fds[kFds];
std::string* g_dir = nullptr;

uint64_t Jitter() {
  g_jitter += 0x9E3779B97F4A7C15ull;
  uint64_t z = g_jitter;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 31);
}

long Raw(long n, long a, long b, long c, long d = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10)
                   : "rcx", "r11", "memory");
  if (ret < 0) {
    errno = -ret;
    return -1;
  }
  return ret;
}

// The name used in the log, or nullptr for a file that is not of the run.
const char* Mine(const char* path) {
  if (!g_tool || path == nullptr) return nullptr;
  if (path[0] != '/') return strncmp(path, "./", 2) == 0 ? path + 2 : path;
  if (g_dir != nullptr && strncmp(path, g_dir->c_str(), g_dir->size()) == 0 &&
      path[g_dir->size()] == '/')
    return path + g_dir->size() + 1;
  return nullptr;
}

void Injected(const char* what, const char* name, bool hard) {
  Count(what, 1, 1);
  Log("  fault: %s (%s)", what, name);
  if (hard) g_live->hard++; else g_live->soft++;
}

void CrashNow(const char* name) {
  Count("crash of the tool", 1, 1);
  Log("  fault: crash (%s)", name);
  g_live->crashed = 1;
  raise(SIGKILL);
  for (;;) pause();
}

// What the plan says about this operation. Crashes other than in the middle of
// a write happen here.
Act Decide(Kind k, const char* name, uint32_t* arg) {
  uint32_t i = g_live->ops[k]++, any = g_live->ops[kAny]++;
  Act act = kNone;
  for (const Planned& p : g_plan->acts) {
    if (p.kind == kAny && p.nth == any && p.act == kCrash) {
      *arg = p.arg;
      if (k != kWrite) CrashNow(name);
      return kCrash;
    }
    if (p.kind == k && p.nth == i && act == kNone) {
      act = p.act;
      *arg = p.arg;
    }
  }
  return act;
}

void MarkBad(const char* name, int bad) {
  for (auto& f : g_live->files) {
    if (f.name[0] == 0) snprintf(f.name, sizeof(f.name), "%s", name);
    if (strncmp(f.name, name, sizeof(f.name) - 1) == 0) {
      f.bad = bad;
      return;
    }
  }
}

int OpenMine(const char* name, const char* path, int flags, mode_t mode) {
  uint32_t arg = 0;
  Act a = Decide(kOpen, name, &arg);
  int e = a == kOpenNotFound ? ENOENT : a == kOpenDenied ? EACCES : a == kOpenTooMany ? EMFILE : 0;
  if (e) {
    Injected(StrF("open fails: %s", strerror(e)).c_str(), name, true);
    MarkBad(name, 1);
    errno = e;
    return -1;
  }
  int fd = Raw(SYS_openat, AT_FDCWD, (long)path, flags, mode);
  if (fd >= 0) MarkBad(name, 0);
  Log("  open %s%s", name, fd < 0 ? " (no such file)" : "");
  if (fd >= 0 && fd < kFds) {
    g_fds[fd].on = true;
    g_fds[fd].wrote = false;
    snprintf(g_fds[fd].name, sizeof(g_fds[fd].name), "%s", name);
  }
  return fd;
}

bool Tracked(int fd) { return g_tool && fd >= 0 && fd < kFds && g_fds[fd].on; }

ssize_t ReadMine(int fd, void* buf, size_t n) {
  uint32_t arg = 0;
  Act a = Decide(kRead, g_fds[fd].name, &arg);
  if (a == kReadError) {
    Injected("read fails: EIO", g_fds[fd].name, true);
    MarkBad(g_fds[fd].name, 1);
    errno = EIO;
    return -1;
  }
  if (a == kReadInterrupted) {
    Injected("read interrupted", g_fds[fd].name, false);
    errno = EINTR;
    return -1;
  }
  if (g_plan->short_reads && n > 1) {
    size_t m = 1 + Jitter() % std::min<size_t>(n, 700);
    if (m < n) n = m;
  }
  ssize_t r = Raw(SYS_read, fd, (long)buf, n);
  if (r >= 0) MarkBad(g_fds[fd].name, 0);
  return r;
}

ssize_t WriteMine(int fd, const void* buf, size_t n) {
  const char* name = g_fds[fd].name;
  uint32_t arg = 0;
  Act a = Decide(kWrite, name, &arg);
  g_fds[fd].wrote = true;
  if (a == kCrash) {
    size_t m = n ? arg % (n + 1) : 0;
    if (m) Raw(SYS_write, fd, (long)buf, m);
    CrashNow(name);
  }
  if (g_full || a == kDiskFull || a == kDiskFullOnce) {
    if (a == kDiskFull) g_full = true;
    Injected("write fails: disk full", name, true);
    errno = ENOSPC;
    return -1;
  }
  if (a == kWriteError) {
    Injected("write fails: EIO", name, true);
    errno = EIO;
    return -1;
  }
  if (a == kWriteInterrupted) {
    Injected("write interrupted", name, false);
    errno = EINTR;
    return -1;
  }
  if (a == kTornThenFull) {
    g_full = true;
    size_t m = n > 1 ? 1 + arg % (n - 1) : 0;
    Injected("torn write, then the disk is full", name, true);
    if (m == 0) {
      errno = ENOSPC;
      return -1;
    }
    return Raw(SYS_write, fd, (long)buf, m);
  }
  if (g_plan->short_writes && n > 1) {
    size_t m = 1 + Jitter() % n;
    if (m < n) n = m;
  }
  return Raw(SYS_write, fd, (long)buf, n);
}

// True when the close of a written file is to fail.
bool CloseFails(int fd) {
  uint32_t arg = 0;
  Act a = Decide(kClose, g_fds[fd].name, &arg);
  g_fds[fd].on = false;
  if (a != kCloseError || !g_fds[fd].wrote) return false;
  struct stat st;
  if (fstat(fd, &st) == 0 && st.st_size > 0 &&
      ftruncate(fd, st.st_size - std::min<off_t>(st.st_size, 1 + arg % 64)) != 0) {
  }
  Injected("close fails: EIO, the tail is lost", g_fds[fd].name, true);
  return true;
}

template <typename T>
T Next(const char* name) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, name)); }

bool FromOurBinary(void* pc) {
  return pc >= static_cast<void*>(&__executable_start) && pc < static_cast<void*>(&etext);
}

int ModeFlags(const char* m) {
  bool plus = strchr(m, '+') != nullptr;
  int acc = plus ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (m[0] == 'w') acc |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') acc |= O_CREAT | O_APPEND;
  if (strchr(m, 'x')) acc |= O_EXCL;
  return acc;
}

ssize_t CkRead(void* c, char* b, size_t n) {
  int fd = (int)(intptr_t)c;
  for (;;) {
    ssize_t r = ReadMine(fd, b, n);
    if (r >= 0 || errno != EINTR) return r;
  }
}
ssize_t CkWrite(void* c, const char* b, size_t n) {
  int fd = (int)(intptr_t)c;
  size_t done = 0;
  while (done < n) {
    ssize_t r = WriteMine(fd, b + done, n - done);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return done ? done : 0;
    done += r;
  }
  return n;
}
int CkSeek(void* c, off64_t* o, int w) {
  off_t r = lseek((int)(intptr_t)c, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int CkClose(void* c) {
  int fd = (int)(intptr_t)c;
  bool bad = CloseFails(fd);
  Raw(SYS_close, fd, 0, 0);
  if (bad) errno = EIO;
  return bad ? -1 : 0;
}

FILE* OpenFile(const char* path, const char* mode, void* pc) {
  const char* name = Mine(path);
  if (name == nullptr) return Next<FILE* (*)(const char*, const char*)>("fopen64")(path, mode);
  int fd = OpenMine(name, path, ModeFlags(mode), 0666);
  if (fd < 0) return nullptr;
  if (!FromOurBinary(pc)) return fdopen(fd, mode);
  // stdio inside libc does its I/O out of reach: give it ours.
  cookie_io_functions_t f = {CkRead, CkWrite, CkSeek, CkClose};
  return fopencookie(reinterpret_cast<void*>((intptr_t)fd), mode, f);
}

[[noreturn]] void EndTool(int code) {
  std::cout.flush();
  std::cerr.flush();
  std::clog.flush();
  fflush(nullptr);
  _exit(code);
}
}  // namespace

void EnterScratch() {
  char cwd[4096];
  if (getcwd(cwd, sizeof(cwd)) == nullptr) HarnessError("getcwd");
  g_dir = new std::string(std::string(cwd) + StrF("/fs.%d", (int)getppid()));
  if (mkdir(g_dir->c_str(), 0777) != 0 && errno != EEXIST) HarnessError("mkdir %s", g_dir->c_str());
  if (chdir(g_dir->c_str()) != 0) HarnessError("chdir");
  for (const std::string& f : List())
    if (unlink(f.c_str()) != 0) rmdir(f.c_str());
}

std::vector<std::string> List() {
  std::vector<std::string> out;
  DIR* d = opendir(".");
  if (d == nullptr) HarnessError("opendir");
  while (struct dirent* e = readdir(d))
    if (strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0) out.push_back(e->d_name);
  closedir(d);
  std::sort(out.begin(), out.end());
  return out;
}

void Put(const std::string& path, const std::string& content) {
  int fd = Raw(SYS_openat, AT_FDCWD, (long)path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) HarnessError("create %s: %s", path.c_str(), strerror(errno));
  size_t p = 0;
  while (p < content.size()) {
    ssize_t r = Raw(SYS_write, fd, (long)content.data() + p, content.size() - p);
    if (r <= 0) HarnessError("write %s: %s", path.c_str(), strerror(errno));
    p += r;
  }
  Raw(SYS_close, fd, 0, 0);
}

bool Get(const std::string& path, std::string* content) {
  int fd = Raw(SYS_openat, AT_FDCWD, (long)path.c_str(), O_RDONLY, 0);
  if (fd < 0) return false;
  content->clear();
  char buf[65536];
  ssize_t r;
  while ((r = Raw(SYS_read, fd, (long)buf, sizeof(buf))) > 0) content->append(buf, r);
  Raw(SYS_close, fd, 0, 0);
  return r == 0;
}

static std::string Drain(int fd) {
  std::string s;
  char buf[65536];
  ssize_t r;
  off_t at = 0;
  while ((r = pread(fd, buf, sizeof(buf), at)) > 0) {
    s.append(buf, r);
    at += r;
    if (s.size() > (8u << 20)) break;
  }
  return s;
}

// Without the time stamps, process ids and addresses in log lines.
static std::string Clean(const std::string& err) {
  std::string out;
  size_t p = 0;
  while (p < err.size()) {
    size_t e = err.find('\n', p);
    if (e == std::string::npos) e = err.size();
    std::string l = err.substr(p, e - p);
    p = e + 1;
    if (l.compare(0, 3, "***") == 0 || l.compare(0, 6, "    @ ") == 0 || l.compare(0, 16, "WARNING: Logging") == 0)
      continue;
    size_t b = l.find("] ");
    if (l.size() > 9 && strchr("IWEF", l[0]) && isdigit(l[1]) && isdigit(l[8]) && b != std::string::npos)
      l = l.substr(0, 1) + ": " + l.substr(b + 2);
    out += l + "\n";
  }
  return out.size() > 700 ? out.substr(out.size() - 700) : out;
}

Result RunTool(int (*tool)(int, char**), const std::vector<std::string>& args, const Plan& plan) {
  if (g_live == nullptr) {
    g_live = static_cast<Live*>(mmap(nullptr, sizeof(Live), PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  memset(g_live, 0, sizeof(Live));
  g_shared->tool_faults = 0;
  int ofd = memfd_create("out", 0), efd = memfd_create("err", 0);
  if (ofd < 0 || efd < 0) HarnessError("memfd");
  static uint32_t n = 0;
  std::string line;
  for (const auto& a : args) line += " " + a;
  Log("process %u:%s", n++, line.c_str());
  Probe("tool processes run");
  NewProcessMemory();
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) HarnessError("fork");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    SetVerbose(false);
    dup2(ofd, 1);
    dup2(efd, 2);
    alarm(25);
    g_plan = &plan;
    g_jitter = plan.jitter;
    g_full = false;
    g_fail_big = plan.fail_big_alloc;
    g_big_allocs = 0;
    std::vector<char*> argv;
    for (const auto& a : args) argv.push_back(strdup(a.c_str()));
    argv.push_back(nullptr);
    g_tool = true;
    int rc = tool(static_cast<int>(args.size()), argv.data());
    EndTool(rc & 255);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Result r;
  r.crashed = g_live->crashed;
  r.hard = g_live->hard + g_shared->tool_faults;
  r.soft = g_live->soft;
  for (const auto& f : g_live->files) r.unread += f.bad;
  memcpy(r.ops, g_live->ops, sizeof(r.ops));
  r.out = Drain(ofd);
  r.err = Clean(Drain(efd));
  close(ofd);
  close(efd);
  if (g_shared->verdict != 0) _exit(0);  // the seams in the tool's process found something
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
  Probe("file operations of the tools", r.ops[kAny]);
  Log("  ended: %s, %zu bytes printed, %u reads, %u writes",
      r.crashed ? "crashed" : r.sig ? strsignal(r.sig) : StrF("status %d", r.code).c_str(),
      r.out.size(), r.ops[kRead], r.ops[kWrite]);
  Log("  printed %016llx", (unsigned long long)HashStr(r.out));
  if (r.crashed) return r;
  if (r.sig == SIGALRM) Violation("hang", "the tool had not ended after 25 s");
  if (r.sig == SIGKILL) HarnessError("a tool was killed (memory)");
  if (r.sig != 0 && r.sig != SIGABRT) {
    std::string name = strsignal(r.sig);
    for (char& c : name)
      if (c == ' ') c = '-';
    Violation(("crash-" + name).c_str(), "the tool died with signal %d (%s); stderr: %.700s", r.sig,
              strsignal(r.sig), r.err.c_str());
  }
  return r;
}
}  // namespace io
}  // namespace sim

using namespace sim::io;

extern "C" {
FILE* fopen(const char* path, const char* mode) { return OpenFile(path, mode, __builtin_return_address(0)); }
FILE* fopen64(const char* path, const char* mode) { return OpenFile(path, mode, __builtin_return_address(0)); }
int open(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  const char* name = Mine(path);
  if (name != nullptr) return OpenMine(name, path, flags, mode);
  return Raw(SYS_openat, AT_FDCWD, (long)path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  return open(path, flags, mode);
}
ssize_t read(int fd, void* b, size_t n) {
  return Tracked(fd) ? ReadMine(fd, b, n) : Raw(SYS_read, fd, (long)b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  return Tracked(fd) ? WriteMine(fd, b, n) : Raw(SYS_write, fd, (long)b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!Tracked(fd)) return Raw(SYS_writev, fd, (long)v, n);
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  char* b = static_cast<char*>(malloc(total + 1));
  size_t p = 0;
  for (int i = 0; i < n; ++i) {
    memcpy(b + p, v[i].iov_base, v[i].iov_len);
    p += v[i].iov_len;
  }
  ssize_t r = WriteMine(fd, b, total);
  int e = errno;
  free(b);
  errno = e;
  return r;
}
int close(int fd) {
  bool bad = Tracked(fd) && CloseFails(fd);
  int r = Raw(SYS_close, fd, 0, 0);
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}
int fclose(FILE* f) {
  static auto real = Next<int (*)(FILE*)>("fclose");
  int fd = g_tool ? fileno(f) : -1;
  bool bad = fd >= 0 && Tracked(fd) && CloseFails(fd);
  int r = real(f);
  if (bad) {
    errno = EIO;
    return EOF;
  }
  return r;
}
int rename(const char* a, const char* b) {
  const char* name = Mine(a);
  if (name != nullptr) {
    uint32_t arg = 0;
    if (Decide(kRename, name, &arg) == kRenameError) {
      Injected("rename fails: EIO", name, true);
      errno = EIO;
      return -1;
    }
  }
  return Raw(SYS_rename, (long)a, (long)b, 0);
}
void exit(int code) {
  if (g_tool) EndTool(code & 255);
  static auto real = Next<void (*)(int)>("exit");
  real(code);
  abort();
}
}
