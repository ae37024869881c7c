#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>

#include "rt_internal.h"
#include "sim.h"

namespace sim {
namespace rtinternal {
Shared* g_shared = nullptr;
volatile bool in_child = false;
}  // namespace rtinternal
using namespace rtinternal;

namespace {
bool g_verbose = false;

uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s = 0;
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

struct Feed {
  bool replay = false;
  Rng rng[kNumStreams];
  const std::vector<uint32_t>* rec = nullptr;  // [kNumStreams]
  size_t pos[kNumStreams] = {0, 0, 0};
} g_feed;

std::vector<Property>* Props() {
  static std::vector<Property>* p = new std::vector<Property>;
  return p;
}
}  // namespace

Register::Register(const char* id, void (*run)(), void (*warm)()) {
  Props()->push_back({id, run, warm});
}

bool Verbose() { return g_verbose; }
void SetVerbose(bool on) { g_verbose = on; }

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

std::string StrF(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

uint64_t Draw(Stream s, uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (g_feed.replay) {
    const auto& r = g_feed.rec[s];
    v = g_feed.pos[s] < r.size() ? r[g_feed.pos[s]] : 0;
    g_feed.pos[s]++;
    if (v >= n) v %= n;
  } else {
    v = g_feed.rng[s].Next() % n;
  }
  if (g_shared != nullptr) {
    uint32_t& k = g_shared->nchoices[s];
    if (k < kMaxChoices) {
      g_shared->choices[s][k++] = static_cast<uint32_t>(v);
    } else {
      g_shared->choice_overflow = 1;
      return 0;
    }
  }
  return v;
}

bool WP(uint64_t num, uint64_t den) { return Draw(kWork, den) >= den - num && num > 0; }
bool FP(uint64_t num, uint64_t den) { return Draw(kFault, den) >= den - num && num > 0; }
double WU(double lo, double hi, uint64_t steps) {
  return lo + (hi - lo) * static_cast<double>(Draw(kWork, steps + 1)) / steps;
}
int WI(int lo, int hi) { return lo + static_cast<int>(Draw(kWork, hi - lo + 1)); }

std::vector<int> Permutation(Stream s, int n) {
  std::vector<int> rest, out;
  for (int i = 0; i < n; ++i) rest.push_back(i);
  for (int i = 0; i < n; ++i) {
    size_t k = Draw(s, rest.size());
    out.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  return out;
}

namespace {
std::string g_note;
void AppendLog(const char* s) {
  if (g_shared == nullptr) return;
  size_t n = strlen(s);
  g_shared->trace_hash = HashBytes(s, n, g_shared->trace_hash);
  if (g_shared->loglen + n + 1 < kMaxLog) {
    memcpy(g_shared->log + g_shared->loglen, s, n);
    g_shared->loglen += n;
    g_shared->log[g_shared->loglen++] = '\n';
  }
  if (g_verbose) fprintf(stdout, "  %s\n", s);
}
}  // namespace

void Log(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  AppendLog(buf);
}

void Count(const char* name, uint64_t n, int kind) {
  if (g_shared == nullptr) return;
  for (int i = 0; i < g_shared->ncounters; ++i) {
    if (g_shared->counters[i].kind == kind &&
        strncmp(g_shared->counters[i].name, name, sizeof(g_shared->counters[i].name) - 1) == 0) {
      g_shared->counters[i].n += n;
      return;
    }
  }
  if (g_shared->ncounters < kMaxCounters) {
    auto& c = g_shared->counters[g_shared->ncounters++];
    snprintf(c.name, sizeof(c.name), "%s", name);
    c.kind = kind;
    c.n = n;
  }
}
void Probe(const char* name, uint64_t n) { Count(name, n, 0); }
void Fault(const char* name, uint64_t n) {
  Count(name, n, 1);
  Log("fault: %s", name);
}
void NoteWorkload(uint64_t h) {
  g_shared->workload_hash = HashBytes(&h, 8, g_shared->workload_hash);
}
void Nontrivial() { g_shared->nontrivial = 1; }
void AllowAbort(bool on) { g_shared->allow_abort = on; }

static void FinishChild() {
  g_shared->steps = Steps();
  fflush(stdout);
  _exit(0);
}

void Violation(const char* cls, const char* fmt, ...) {
  g_shared->verdict = kViolation;
  snprintf(g_shared->cls, sizeof(g_shared->cls), "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shared->msg, sizeof(g_shared->msg), fmt, ap);
  va_end(ap);
  Log("VIOLATION %s: %s", g_shared->cls, g_shared->msg);
  FinishChild();
  abort();
}
void Skip(const char* why) {
  g_shared->verdict = kSkip;
  snprintf(g_shared->cls, sizeof(g_shared->cls), "%s", why);
  Count(StrF("skipped: %s", why).c_str(), 1, 0);
  FinishChild();
  abort();
}
void HarnessError(const char* fmt, ...) {
  g_shared->verdict = kHarness;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shared->msg, sizeof(g_shared->msg), fmt, ap);
  va_end(ap);
  FinishChild();
  abort();
}
void EndRun() {
  g_shared->verdict = kOk;
  FinishChild();
  abort();
}

namespace {

struct Outcome {
  int verdict = 0;
  std::string cls, msg, log, err;
  uint64_t trace_hash = 0, workload_hash = 0, steps = 0, switches = 0;
  bool nontrivial = false, overflow = false;
  std::vector<uint32_t> choices[kNumStreams];
  std::vector<std::pair<std::string, std::pair<int, uint64_t>>> counters;
};

int g_errfd = -1;
int g_wall_limit = 40;

Outcome RunOnce(const Property& p, uint64_t seed, const std::vector<uint32_t>* rec,
                bool want_detail) {
  Shared* sh = g_shared;
  memset(sh, 0, offsetof(Shared, choices));
  sh->trace_hash = 1469598103934665603ull;
  sh->workload_hash = 1469598103934665603ull;
  if (ftruncate(g_errfd, 0) != 0) perror("ftruncate");
  lseek(g_errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    in_child = true;
    if (!g_verbose) dup2(g_errfd, 2);
    alarm(g_wall_limit);
    g_feed = Feed();
    if (rec != nullptr) {
      g_feed.replay = true;
      g_feed.rec = rec;
    } else {
      for (int s = 0; s < kNumStreams; ++s)
        g_feed.rng[s].s = Mix(seed * 4 + s + 0x1234567) ^ Mix(seed);
    }
    StartChildMemory();
    // The run happens on a stack at a fixed address.
    static const Property* prop;
    prop = &p;
    pthread_attr_t at;
    pthread_attr_init(&at);
    void* st = mmap(reinterpret_cast<void*>(0x310000000000ull), 64 << 20, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_setstack(&at, st, 64 << 20);
    pthread_t pt;
    int rc = pthread_create(&pt, &at, [](void*) -> void* {
      prop->run();
      EndRun();
      return nullptr;
    }, nullptr);
    if (rc) HarnessError("cannot start the run's thread: %d", rc);
    for (;;) pause();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.verdict = sh->verdict;
  o.cls = sh->cls;
  o.msg = sh->msg;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    char buf[1500];
    ssize_t n = 0;
    off_t len = lseek(g_errfd, 0, SEEK_END);
    off_t from = 0;
    n = pread(g_errfd, buf, sizeof(buf) - 1, from);
    (void)len;
    o.err = n > 0 ? std::string(buf, n) : "";
    if (sig == SIGALRM) {
      // The step limit ends loops of instrumented code; this is one outside it.
      o.verdict = kViolation;
      o.cls = "hang";
      o.msg = StrF("a run that takes milliseconds had not ended after %d s", g_wall_limit);
    } else if (sig == SIGKILL) {
      o.verdict = kHarness;
      o.msg = StrF("run killed by signal %d (memory)", sig);
    } else if (o.verdict == 0 && sig == SIGABRT && sh->allow_abort) {
      o.verdict = kOk;
    } else if (o.verdict == 0) {
      o.verdict = kViolation;
      o.cls = StrF("crash-%s", strsignal(sig));
      for (char& c : o.cls)
        if (c == ' ') c = '-';
      o.msg = StrF("process died with signal %d (%s); stderr: %.400s", sig, strsignal(sig),
                   o.err.c_str());
    }
  } else if (o.verdict == 0) {
    // The code under test called exit(): the harness never does that silently.
    o.verdict = kViolation;
    o.cls = "unexpected-exit";
    o.msg = StrF("process exited with status %d in the middle of a run", WEXITSTATUS(st));
  }
  o.trace_hash = sh->trace_hash;
  o.workload_hash = sh->workload_hash;
  o.steps = sh->steps;
  o.switches = sh->switches;
  o.nontrivial = sh->nontrivial;
  o.overflow = sh->choice_overflow;
  for (int i = 0; i < sh->ncounters; ++i)
    o.counters.push_back({sh->counters[i].name, {sh->counters[i].kind, sh->counters[i].n}});
  if (want_detail || o.verdict == kViolation) {
    for (int s = 0; s < kNumStreams; ++s)
      o.choices[s].assign(sh->choices[s], sh->choices[s] + sh->nchoices[s]);
    o.log.assign(sh->log, sh->loglen);
  }
  return o;
}

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      o += StrF("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o + "\"";
}

void Trim(std::vector<uint32_t>* v) {
  while (!v->empty() && v->back() == 0) v->pop_back();
}

// Shrinks the choice streams while the same violation class persists.
Outcome Minimise(const Property& p, Outcome best, double budget, int* tries_out) {
  double end = Now() + budget;
  int tries = 0;
  auto attempt = [&](const std::vector<uint32_t>* c) {
    ++tries;
    Outcome o = RunOnce(p, 0, c, false);
    if (o.verdict == kViolation && o.cls == best.cls) {
      for (int s = 0; s < kNumStreams; ++s) Trim(&o.choices[s]);
      // Use what the run consumed: never longer than what it was given.
      for (int s = 0; s < kNumStreams; ++s)
        if (o.choices[s].size() > c[s].size()) o.choices[s] = c[s];
      best = o;
      return true;
    }
    return false;
  };
  for (int s = 0; s < kNumStreams; ++s) Trim(&best.choices[s]);
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    for (int s : {2, 1, 0}) {
      // whole stream to zero
      if (!best.choices[s].empty()) {
        std::vector<uint32_t> c[kNumStreams] = {best.choices[0], best.choices[1], best.choices[2]};
        c[s].clear();
        if (attempt(c)) { progress = true; continue; }
      }
      for (size_t chunk = std::max<size_t>(1, best.choices[s].size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < best.choices[s].size() && Now() < end;) {
          bool ok = false;
          size_t e = std::min(i + chunk, best.choices[s].size());
          {  // delete
            std::vector<uint32_t> c[kNumStreams] = {best.choices[0], best.choices[1], best.choices[2]};
            c[s].erase(c[s].begin() + i, c[s].begin() + e);
            ok = attempt(c);
          }
          if (!ok) {  // zero
            std::vector<uint32_t> c[kNumStreams] = {best.choices[0], best.choices[1], best.choices[2]};
            bool any = false;
            for (size_t k = i; k < e; ++k) { any |= c[s][k] != 0; c[s][k] = 0; }
            if (any) { ok = attempt(c); if (ok) i += chunk; }
          }
          if (ok) progress = true; else i += chunk;
        }
        if (chunk == 1) break;
      }
      // reduce single values
      for (size_t i = 0; i < best.choices[s].size() && Now() < end; ++i) {
        while (i < best.choices[s].size() && best.choices[s][i] > 0 && Now() < end) {
          uint32_t v = best.choices[s][i];
          bool ok = false;
          for (uint32_t nv : {v / 2, v - 1}) {
            if (nv >= v) continue;
            std::vector<uint32_t> c[kNumStreams] = {best.choices[0], best.choices[1], best.choices[2]};
            c[s][i] = nv;
            if (attempt(c)) { ok = true; break; }
          }
          if (!ok) break;
          progress = true;
        }
      }
    }
  }
  *tries_out = tries;
  return best;
}

void WriteReplay(const std::string& path, const Property& p, uint64_t seed, uint64_t index,
                 const Outcome& o, size_t orig_choices, int tries) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "{\n \"property\": \"%s\",\n \"engine\": \"cc\",\n \"seed\": %llu,\n \"run\": %llu,\n", p.id,
          (unsigned long long)seed, (unsigned long long)index);
  fprintf(f, " \"class\": %s,\n \"message\": %s,\n", JsonStr(o.cls).c_str(), JsonStr(o.msg).c_str());
  fprintf(f, " \"trace_hash\": \"%016llx\",\n", (unsigned long long)o.trace_hash);
  fprintf(f, " \"original_choices\": %zu,\n \"minimisation_runs\": %d,\n", orig_choices, tries);
  const char* names[] = {"workload", "faults", "schedule"};
  for (int s = 0; s < kNumStreams; ++s) {
    fprintf(f, " \"%s\": [", names[s]);
    for (size_t i = 0; i < o.choices[s].size(); ++i) fprintf(f, "%s%u", i ? "," : "", o.choices[s][i]);
    fprintf(f, "],\n");
  }
  fprintf(f, " \"trace\": [");
  size_t pos = 0;
  bool first = true;
  while (pos < o.log.size()) {
    size_t e = o.log.find('\n', pos);
    if (e == std::string::npos) e = o.log.size();
    fprintf(f, "%s\n  %s", first ? "" : ",", JsonStr(o.log.substr(pos, e - pos)).c_str());
    first = false;
    pos = e + 1;
  }
  fprintf(f, "\n ]\n}\n");
  fclose(f);
}

bool ReadStream(const std::string& text, const char* name, std::vector<uint32_t>* out) {
  size_t p = text.find(std::string("\"") + name + "\": [");
  if (p == std::string::npos) return false;
  p = text.find('[', p) + 1;
  while (text[p] != ']') {
    char* e;
    out->push_back(strtoul(text.c_str() + p, &e, 10));
    p = e - text.c_str();
    if (text[p] == ',') ++p;
  }
  return true;
}
std::string ReadField(const std::string& text, const char* name) {
  size_t p = text.find(std::string("\"") + name + "\": \"");
  if (p == std::string::npos) return "";
  p += strlen(name) + 5;
  std::string o;
  while (p < text.size() && text[p] != '"') {
    if (text[p] == '\\') ++p;
    o += text[p++];
  }
  return o;
}

}  // namespace

int Main(int argc, char** argv) {
  std::string prop, out, replay_dir = ".", replay, tag = "0", known;
  uint64_t seed = 1, start = 0, stride = 1, count = 100;
  double budget = 30, min_budget = 20;
  bool digest = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--property") prop = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--count") count = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--time") budget = atof(next().c_str());
    else if (a == "--min-time") min_budget = atof(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--replay") replay = next();
    else if (a == "--tag") tag = next();
    else if (a == "--known") known = next();
    else if (a == "--digest") digest = true;
    else if (a == "--verbose") g_verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED) { perror("mmap"); return 3; }
  g_errfd = memfd_create("stderr", 0);
  InitMemory();
  std::string text;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 3; }
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) text.append(buf, n);
    fclose(f);
    prop = ReadField(text, "property");
  }
  const Property* p = nullptr;
  for (const auto& x : *Props())
    if (prop == x.id) p = &x;
  if (!p) { fprintf(stderr, "no property %s in this binary\n", prop.c_str()); return 3; }
  if (p->warm) p->warm();
  g_shared->loglen = 0;

  if (!replay.empty()) {
    std::vector<uint32_t> rec[kNumStreams];
    if (!ReadStream(text, "workload", &rec[0]) || !ReadStream(text, "faults", &rec[1]) ||
        !ReadStream(text, "schedule", &rec[2])) {
      fprintf(stderr, "bad replay file\n");
      return 3;
    }
    Outcome o = RunOnce(*p, 0, rec, true);
    bool same = o.verdict == kViolation && o.cls == ReadField(text, "class") &&
                StrF("%016llx", (unsigned long long)o.trace_hash) == ReadField(text, "trace_hash");
    printf("%s\n", o.log.c_str());
    printf("replay: verdict=%d class=%s trace_hash=%016llx message=%s\n", o.verdict, o.cls.c_str(),
           (unsigned long long)o.trace_hash, o.msg.c_str());
    printf("%s\n", same ? "REPRODUCED" : o.verdict == kViolation && o.cls == ReadField(text, "class")
                                              ? "SAME-CLASS-DIFFERENT-TRACE" : "NOT-REPRODUCED");
    return same ? 1 : 0;
  }

  double t0 = Now();
  uint64_t runs = 0, skips = 0, steps = 0, switches = 0, nontrivial = 0, overflow = 0, multi = 0;
  std::set<uint64_t> whash, thash, distinct;
  std::map<std::pair<int, std::string>, std::pair<uint64_t, uint64_t>> counters;  // n, runs
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> known_hits;
  std::string violation;
  int rc = 0;
  std::string harness_msg;
  for (uint64_t k = 0; k < count; ++k) {
    if (Now() - t0 > budget) break;
    uint64_t idx = start + k * stride;
    uint64_t rs = Mix(seed * 1000003 + idx);
    Outcome o = RunOnce(*p, rs, nullptr, samples.size() < 2);
    ++runs;
    if (digest)
      printf("D %llu %d %s %016llx %016llx %llu\n", (unsigned long long)idx, o.verdict, o.cls.c_str(),
             (unsigned long long)o.workload_hash, (unsigned long long)o.trace_hash,
             (unsigned long long)o.steps);
    steps += o.steps;
    switches += o.switches;
    if (o.switches > 1) ++multi;
    overflow += o.overflow;
    for (auto& c : o.counters) {
      auto& x = counters[{c.second.first, c.first}];
      x.first += c.second.second;
      x.second++;
    }
    if (o.verdict == kSkip) { ++skips; continue; }
    if (o.verdict == kHarness) { harness_msg = o.msg; rc = 3; break; }
    whash.insert(o.workload_hash);
    thash.insert(o.trace_hash);
    if (o.nontrivial) {
      ++nontrivial;
      distinct.insert(o.workload_hash * 31 + o.trace_hash);
      if (samples.size() < 2 && !o.log.empty())
        samples.push_back(StrF("seed=%llu run=%llu: ", (unsigned long long)seed, (unsigned long long)idx) +
                          o.log.substr(0, 1500));
    }
    if (o.verdict == kViolation) {
      if (("," + known + ",").find("," + o.cls + ",") != std::string::npos) {
        known_hits[o.cls]++;
        continue;
      }
      if (digest) continue;
      // Determinism first: the raw seed must fail again in the same way.
      Outcome again = RunOnce(*p, rs, nullptr, false);
      if (again.verdict != kViolation || again.cls != o.cls ||
          (again.trace_hash != o.trace_hash && o.cls != "hang")) {
        harness_msg = StrF("run %llu (%s: %s) did not repeat", (unsigned long long)idx, o.cls.c_str(),
                           o.msg.c_str());
        rc = 3;
        break;
      }
      size_t orig = o.choices[0].size() + o.choices[1].size() + o.choices[2].size();
      int tries = 0;
      Outcome m = o.cls == "hang" ? o : Minimise(*p, o, min_budget, &tries);
      std::string path = replay_dir + "/" + p->id + "-" + tag + ".json";
      WriteReplay(path, *p, seed, idx, m, orig, tries);
      violation = path;
      printf("FOUND property=%s class=%s replay=%s run=%llu msg=%s\n", p->id, m.cls.c_str(), path.c_str(),
             (unsigned long long)idx, m.msg.c_str());
      rc = 1;
      break;
    }
  }
  double wall = Now() - t0;
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }
    fprintf(f, "{\"runs\": %llu, \"skips\": %llu, \"steps\": %llu, \"switches\": %llu, \"nontrivial\": %llu, \"multi\": %llu, \"choice_overflow\": %llu, \"wall\": %.3f, \"rc\": %d, \"harness\": %s, \"replay\": %s,\n",
            (unsigned long long)runs, (unsigned long long)skips, (unsigned long long)steps,
            (unsigned long long)switches, (unsigned long long)nontrivial, (unsigned long long)multi,
            (unsigned long long)overflow, wall, rc,
            JsonStr(harness_msg).c_str(), JsonStr(violation).c_str());
    auto dump = [&](const char* name, const std::set<uint64_t>& s) {
      fprintf(f, "\"%s\": [", name);
      bool first = true;
      for (uint64_t x : s) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)x); first = false; }
      fprintf(f, "],\n");
    };
    dump("workloads", whash);
    dump("traces", thash);
    dump("distinct", distinct);
    fprintf(f, "\"known\": {");
    bool first = true;
    for (auto& c : known_hits) { fprintf(f, "%s%s: %llu", first ? "" : ",", JsonStr(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n");
    for (int kind = 0; kind < 2; ++kind) {
      fprintf(f, "\"%s\": {", kind ? "faults" : "probes");
      first = true;
      for (auto& c : counters) {
        if (c.first.first != kind) continue;
        fprintf(f, "%s%s: [%llu, %llu]", first ? "" : ", ", JsonStr(c.first.second).c_str(),
                (unsigned long long)c.second.first, (unsigned long long)c.second.second);
        first = false;
      }
      fprintf(f, "},\n");
    }
    fprintf(f, "\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", JsonStr(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
  if (!harness_msg.empty()) fprintf(stderr, "harness error: %s\n", harness_msg.c_str());
  return rc;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::Main(argc, argv); }
