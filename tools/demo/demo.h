// Runs op kernels directly, on TensorFlow's real thread pool.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/core/framework/allocator.h"
#include "tensorflow/core/framework/attr_value.pb.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def.pb.h"
#include "tensorflow/core/framework/op.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/public/version.h"
namespace tf = tensorflow;
namespace demo {
class Device : public tf::DeviceBase {
 public:
  Device() : DeviceBase(tf::Env::Default()) {
    a_.set_name("/job:localhost/replica:0/task:0/device:CPU:0");
    a_.set_device_type("CPU");
  }
  tf::Allocator* GetAllocator(tf::AllocatorAttributes) override { return tf::cpu_allocator(); }
  const tf::DeviceAttributes& attributes() const override { return a_; }
  const std::string& name() const override { return a_.name(); }
 private:
  tf::DeviceAttributes a_;
};
struct Kernel {
  Kernel(const std::string& op, const std::vector<tf::DataType>& in, const std::string& config) {
    tf::NodeDef def;
    def.set_name("k");
    def.set_op(op);
    for (size_t i = 0; i < in.size(); ++i) def.add_input("i" + std::to_string(i));
    if (!config.empty()) (*def.mutable_attr())["config"].set_s(config);
    tf::Status st;
    k = tf::CreateOpKernel(tf::DeviceType(tf::DEVICE_CPU), &dev, dev.GetAllocator({}), def,
                           TF_GRAPH_DEF_VERSION, &st);
    if (!st.ok()) { printf("kernel: %s\n", st.ToString().c_str()); exit(3); }
  }
  // Empty on failure.
  std::vector<tf::Tensor> Run(std::vector<tf::Tensor> in, std::string* error = nullptr) {
    tf::OpKernelContext::Params p;
    p.device = &dev;
    p.op_kernel = k.get();
    std::vector<tf::TensorValue> vals;
    for (auto& t : in) vals.emplace_back(&t);
    p.inputs = vals;
    std::vector<tf::AllocatorAttributes> attrs(k->num_outputs());
    p.output_attr_array = attrs.data();
    tf::OpKernelContext ctx(&p, k->num_outputs());
    k->Compute(&ctx);
    std::vector<tf::Tensor> out;
    if (!ctx.status().ok()) { if (error) *error = ctx.status().ToString(); return out; }
    for (int i = 0; i < k->num_outputs(); ++i) out.push_back(*ctx.mutable_output(i));
    return out;
  }
  Device dev;
  std::unique_ptr<tf::OpKernel> k;
};
template <typename T>
tf::Tensor Make(tf::DataType dt, std::vector<int64_t> shape, const std::vector<T>& v) {
  tf::Tensor t(dt, tf::TensorShape(absl::Span<const int64_t>(shape.data(), shape.size())));
  auto f = t.flat<T>();
  for (int64_t i = 0; i < t.NumElements(); ++i) f(i) = v[i];
  return t;
}
inline tf::Tensor Bools(std::vector<int64_t> shape, const std::vector<int>& v) {
  tf::Tensor t(tf::DT_BOOL, tf::TensorShape(absl::Span<const int64_t>(shape.data(), shape.size())));
  for (int64_t i = 0; i < t.NumElements(); ++i) t.flat<bool>()(i) = v[i];
  return t;
}
inline tf::Tensor Strs(const std::vector<std::string>& v) {
  tf::Tensor t(tf::DT_STRING, tf::TensorShape({(int64_t)v.size()}));
  for (size_t i = 0; i < v.size(); ++i) t.flat<tf::tstring>()(i) = v[i];
  return t;
}
inline std::string Show(const std::vector<tf::Tensor>& o) {
  std::string s;
  for (auto& t : o) s += t.SummarizeValue(1 << 20) + "\n";
  return s;
}
}  // namespace demo
