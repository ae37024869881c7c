// Runs TensorFlow kernels of the repository directly, without a session.
#ifndef WODSIM_OPS_H_
#define WODSIM_OPS_H_
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "rt/sim.h"
#include "tensorflow/core/framework/allocator.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def.pb.h"
#include "tensorflow/core/framework/attr_value.pb.h"
#include "tensorflow/core/framework/op.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/public/version.h"

namespace ops {
using tensorflow::Tensor;
using tensorflow::TensorShape;

class SimAllocator : public tensorflow::Allocator {
 public:
  std::string Name() override { return "sim"; }
  void* AllocateRaw(size_t align, size_t n) override {
    auto it = fail_.find(sim::SelfId());
    if (it != fail_.end() && it->second >= 0 && it->second-- == 0) {
      failed_.insert(sim::SelfId());
      return nullptr;
    }
    return sim::ArenaAlloc(n ? n : 1, align);
  }
  // The nth allocation from now of this simulated thread fails (-1: none).
  void Fail(int n) { fail_[sim::SelfId()] = n; failed_.erase(sim::SelfId()); }
  bool Failed() const { return failed_.count(sim::SelfId()) > 0; }
  void DeallocateRaw(void* p) override { sim::ArenaFree(p); }

 private:
  std::map<int, int> fail_;
  std::set<int> failed_;
};
class SimDevice : public tensorflow::DeviceBase {
 public:
  SimDevice() : DeviceBase(tensorflow::Env::Default()) {
    attr_.set_name("/job:localhost/replica:0/task:0/device:CPU:0");
    attr_.set_device_type("CPU");
  }
  tensorflow::Allocator* GetAllocator(tensorflow::AllocatorAttributes) override { return &alloc_; }
  const tensorflow::DeviceAttributes& attributes() const override { return attr_; }
  const std::string& name() const override { return attr_.name(); }
  SimAllocator* alloc() { return &alloc_; }

 private:
  SimAllocator alloc_;
  tensorflow::DeviceAttributes attr_;
};

struct Result {
  std::shared_ptr<SimDevice> device;  // owns the memory of `out`
  bool ok = false;
  std::string error;
  std::vector<Tensor> out;
};

class Kernel {
 public:
  struct In { std::string name; tensorflow::DataType dt; };
  // `config` sets the string attribute "config" when non-null.
  Kernel(const std::string& op, const std::vector<tensorflow::DataType>& in, const std::string* config)
      : Kernel(op, in, [config](tensorflow::NodeDef* def) {
          if (config) (*def->mutable_attr())["config"].set_s(*config);
        }) {}
  Kernel(const std::string& op, const std::vector<tensorflow::DataType>& in,
         const std::function<void(tensorflow::NodeDef*)>& attrs) {
    device_ = std::make_shared<SimDevice>();
    tensorflow::NodeDef def;
    def.set_name("k");
    def.set_op(op);
    for (size_t i = 0; i < in.size(); ++i) def.add_input(sim::StrF("i%zu", i));
    attrs(&def);
    tensorflow::Status st;
    kernel_ = tensorflow::CreateOpKernel(tensorflow::DeviceType(tensorflow::DEVICE_CPU), device_.get(),
                                         device_->GetAllocator({}), def, TF_GRAPH_DEF_VERSION, &st);
    if (!st.ok()) error_ = st.ToString();
  }
  const std::string& error() const { return error_; }
  void FailAllocation(int n) { device_->alloc()->Fail(n); }
  bool AllocationFailed() const { return device_->alloc()->Failed(); }
  bool ok() const { return kernel_ != nullptr && error_.empty(); }

  Result Run(std::vector<Tensor> in) const {
    tensorflow::OpKernelContext::Params p;
    p.device = device_.get();
    p.op_kernel = kernel_.get();
    std::vector<tensorflow::TensorValue> vals;
    for (Tensor& t : in) vals.emplace_back(&t);
    p.inputs = vals;
    std::vector<tensorflow::AllocatorAttributes> attrs(kernel_->num_outputs());
    p.output_attr_array = attrs.data();
    Result r;
    r.device = device_;
    {
      tensorflow::OpKernelContext ctx(&p, kernel_->num_outputs());
      kernel_->Compute(&ctx);
      r.ok = ctx.status().ok();
      if (!r.ok) {
        r.error = ctx.status().ToString();
      } else {
        for (int i = 0; i < kernel_->num_outputs(); ++i) {
          Tensor* t = ctx.mutable_output(i);
          if (t == nullptr) sim::Violation("missing-output", "output %d of a successful call is not set", i);
          r.out.push_back(*t);
        }
      }
    }
    return r;
  }

 private:
  std::shared_ptr<SimDevice> device_;
  std::unique_ptr<tensorflow::OpKernel> kernel_;
  std::string error_;
};

template <typename T>
Tensor Make(tensorflow::DataType dt, const std::vector<int64_t>& shape, const std::vector<T>& v) {
  Tensor t(dt, TensorShape(absl::Span<const int64_t>(shape.data(), shape.size())));
  if ((size_t)t.NumElements() != v.size()) sim::HarnessError("tensor size %lld != %zu", (long long)t.NumElements(), v.size());
  auto f = t.flat<T>();
  for (size_t i = 0; i < v.size(); ++i) f(i) = v[i];
  return t;
}
inline Tensor MakeBool(const std::vector<int64_t>& shape, const std::vector<char>& v) {
  Tensor t(tensorflow::DT_BOOL, TensorShape(absl::Span<const int64_t>(shape.data(), shape.size())));
  auto f = t.flat<bool>();
  for (size_t i = 0; i < v.size(); ++i) f(i) = v[i] != 0;
  return t;
}
inline Tensor MakeStr(const std::vector<int64_t>& shape, const std::vector<std::string>& v) {
  Tensor t(tensorflow::DT_STRING, TensorShape(absl::Span<const int64_t>(shape.data(), shape.size())));
  auto f = t.flat<tensorflow::tstring>();
  for (size_t i = 0; i < v.size(); ++i) f(i) = v[i];
  return t;
}

// Bit-exact comparison; returns "" or a description of the first difference.
inline std::string Diff(const Result& a, const Result& b) {
  if (a.ok != b.ok) return sim::StrF("status %s vs %s", a.ok ? "OK" : a.error.c_str(), b.ok ? "OK" : b.error.c_str());
  if (!a.ok) return "";
  if (a.out.size() != b.out.size()) return "number of outputs";
  for (size_t i = 0; i < a.out.size(); ++i) {
    if (a.out[i].shape().dim_sizes() != b.out[i].shape().dim_sizes())
      return sim::StrF("output %zu has shape %s vs %s", i, a.out[i].shape().DebugString().c_str(),
                       b.out[i].shape().DebugString().c_str());
    if (a.out[i].dtype() != b.out[i].dtype()) return "dtype";
    if (a.out[i].dtype() == tensorflow::DT_FLOAT) {
      auto x = a.out[i].flat<float>(), y = b.out[i].flat<float>();
      for (int k = 0; k < x.size(); ++k)
        if (memcmp(&x(k), &y(k), 4) != 0)
          return sim::StrF("output %zu element %d: %.9g vs %.9g", i, k, x(k), y(k));
    } else {
      auto x = a.out[i].tensor_data(), y = b.out[i].tensor_data();
      if (x.size() != y.size() || memcmp(x.data(), y.data(), x.size()) != 0)
        return sim::StrF("output %zu differs", i);
    }
  }
  return "";
}
inline uint64_t Hash(const Result& r) {
  uint64_t h = r.ok;
  for (auto& t : r.out) {
    auto d = t.tensor_data();
    h = sim::HashBytes(d.data(), d.size(), h);
  }
  return h;
}
}  // namespace ops
#endif
