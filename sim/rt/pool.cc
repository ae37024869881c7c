// The thread-pool seam: TensorFlow's tsl::thread::ThreadPool implemented on
// simulated threads. Which task a worker takes, how many workers there are and
// whether a full queue makes the caller run the task itself are seeded.
#include "sim.h"
#include "tensorflow/tsl/platform/threadpool.h"

#include <deque>
#include <map>
#include <thread>

namespace sim {
namespace rtinternal {
void Block(const std::function<bool()>& ready);
void StallPoint();
}
}  // namespace sim

// The header's private members hold these two types by unique_ptr; here they
// are the simulated pool and nothing.
namespace Eigen {
template <>
class ThreadPoolTempl<tsl::thread::EigenEnvironment> {
 public:
  std::deque<std::function<void()>> q;
  std::vector<int> tids;
  bool stop = false;
  int n = 0;
  int running = 0;
  bool inline_ok = false;
};
struct ThreadPoolDevice {};
}  // namespace Eigen

namespace tsl {
namespace thread {
struct EigenEnvironment {};
using EigenThreadPoolWrapper = Eigen::ThreadPoolTempl<EigenEnvironment>;

namespace {
void Start(EigenThreadPoolWrapper* w, int n) {
  if (n < 1) n = 1;
  w->n = n;
  if (!sim::InSim()) return;
  int k = std::min(n, 8);
  sim::Probe("thread pools created");
  w->inline_ok = sim::Draw(sim::kFault, 3) == 2;
  for (int i = 0; i < k; ++i) {
    w->tids.push_back(sim::Spawn([w] {
      for (;;) {
        sim::rtinternal::Block([w] { return w->stop || !w->q.empty(); });
        if (w->q.empty()) return;
        size_t i = sim::Draw(sim::kSched, w->q.size());
        std::function<void()> f = std::move(w->q[i]);
        w->q.erase(w->q.begin() + i);
        sim::rtinternal::StallPoint();
        sim::Probe("pool tasks run");
        w->running++;
        if (w->running > 1) sim::Probe("pool tasks overlapping");
        sim::ScribbleStack();
        f();
        f = nullptr;
        w->running--;
      }
    }));
  }
}
void Put(EigenThreadPoolWrapper* w, std::function<void()> fn) {
  if (!sim::InSim()) {
    fn();
    return;
  }
  if (w->inline_ok && sim::Draw(sim::kFault, 4) == 3) {
    sim::Fault("pool queue full: caller runs the task");
    fn();
    return;
  }
  w->q.push_back(std::move(fn));
}
void Finish(EigenThreadPoolWrapper* w) {
  w->stop = true;
  sim::JoinAll(w->tids);
}
}  // namespace

ThreadPool::ThreadPool(Env*, const ThreadOptions&, const std::string&, int n, bool,
                       Eigen::Allocator*) {
  underlying_threadpool_ = nullptr;
  eigen_threadpool_ = std::make_unique<EigenThreadPoolWrapper>();
  Start(eigen_threadpool_.get(), n);
}
ThreadPool::ThreadPool(Env* e, const std::string& name, int n)
    : ThreadPool(e, ThreadOptions(), name, n, true, nullptr) {}
ThreadPool::ThreadPool(Env* e, const ThreadOptions& o, const std::string& name, int n)
    : ThreadPool(e, o, name, n, true, nullptr) {}
ThreadPool::~ThreadPool() { Finish(eigen_threadpool_.get()); }
void ThreadPool::Schedule(std::function<void()> fn) { Put(eigen_threadpool_.get(), std::move(fn)); }
void ThreadPool::ScheduleWithHint(std::function<void()> fn, int, int) { Schedule(std::move(fn)); }
int ThreadPool::NumThreads() const { return eigen_threadpool_->n; }
int ThreadPool::CurrentThreadId() const { return sim::SelfId(); }
void ThreadPool::ParallelFor(int64_t total, int64_t, const std::function<void(int64_t, int64_t)>& fn) {
  if (total <= 0) return;
  int64_t block = 1 + (total - 1) / std::max(1, eigen_threadpool_->n * 2);
  int left = 0;
  for (int64_t i = 0; i < total; i += block) {
    ++left;
    Put(eigen_threadpool_.get(), [&fn, &left, i, block, total] {
      fn(i, std::min(total, i + block));
      --left;
    });
  }
  if (sim::InSim()) sim::rtinternal::Block([&left] { return left == 0; });
}
void ThreadPool::ParallelFor(int64_t total, const SchedulingParams&,
                             const std::function<void(int64_t, int64_t)>& fn) {
  ParallelFor(total, 1, fn);
}

}  // namespace thread

namespace port {
int MaxParallelism() { return sim::InSim() ? sim::DrawnParallelism() : 1; }
int MaxParallelism(int) { return MaxParallelism(); }
int NumSchedulableCPUs() { return MaxParallelism(); }
}  // namespace port
}  // namespace tsl
