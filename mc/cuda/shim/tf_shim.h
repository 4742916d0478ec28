// What the op sources of /repo use of TensorFlow, over the emulated device.
#pragma once
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "emu.h"

namespace emu {
void* allocate(size_t bytes, bool host, const std::string& label);
void release(void* p, bool host);
const cudaStream_t& stream();
[[noreturn]] void host_fault(const std::string& what);
}  // namespace emu

namespace Eigen {
struct GpuDevice {
  const cudaStream_t& stream() const { return emu::stream(); }
};
}  // namespace Eigen

namespace tensorflow {

typedef long long int64;
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_DOUBLE = 2, DT_INT32 = 3,
                DT_INT64 = 9, DT_BOOL = 10 };
template <class T> struct DataTypeToEnum;
#define EMU_TYPE(T, E) \
  template <> struct DataTypeToEnum<T> { static constexpr DataType value = E; \
    static constexpr DataType v() { return E; } };
EMU_TYPE(float, DT_FLOAT)
EMU_TYPE(double, DT_DOUBLE)
EMU_TYPE(int, DT_INT32)
EMU_TYPE(long long, DT_INT64)
EMU_TYPE(long, DT_INT64)
EMU_TYPE(bool, DT_BOOL)
inline size_t DataTypeSize(DataType t) {
  return t == DT_FLOAT || t == DT_INT32 ? 4 : t == DT_BOOL ? 1 : 8;
}

class Status {
 public:
  Status() {}
  explicit Status(const std::string& m) : bad_(true), message_(m) {}
  static Status OK() { return Status(); }
  bool ok() const { return !bad_; }
  const std::string& error_message() const { return message_; }
  std::string ToString() const { return message_; }
 private:
  bool bad_ = false;
  std::string message_;
};
inline Status OkStatus() { return Status(); }

namespace errors {
inline void put(std::ostringstream&) {}
template <class A, class... R>
void put(std::ostringstream& s, const A& a, const R&... r) { s << a; put(s, r...); }
#define EMU_ERROR(NAME)                                        \
  template <class... A> Status NAME(const A&... a) {           \
    std::ostringstream s; s << #NAME << ": "; put(s, a...);    \
    return Status(s.str()); }
EMU_ERROR(InvalidArgument)
EMU_ERROR(Internal)
EMU_ERROR(Unimplemented)
EMU_ERROR(OutOfRange)
EMU_ERROR(ResourceExhausted)
EMU_ERROR(FailedPrecondition)
}  // namespace errors

class TensorShape {
 public:
  TensorShape() {}
  TensorShape(std::initializer_list<int64> d) : d_(d) {}
  explicit TensorShape(const std::vector<int64>& d) : d_(d) {}
  int dims() const { return (int)d_.size(); }
  int64 dim_size(int i) const {
    if (i < 0 || i >= dims())
      emu::host_fault("the op asks for a dimension which its input lacks");
    return d_[i];
  }
  void AddDim(int64 s) { d_.push_back(s); }
  void set_dim(int i, int64 s) { d_[i] = s; }
  int64 num_elements() const {
    int64 n = 1;
    for (int64 s : d_) n *= s;
    return n;
  }
  const std::vector<int64>& all() const { return d_; }
 private:
  std::vector<int64> d_;
};

template <class T>
struct Flat {
  T* p;
  int64 n;
  T& operator()(int64 i) const { return p[i]; }
  T* data() const { return p; }
  int64 size() const { return n; }
};

class Tensor {
 public:
  Tensor() {}
  Tensor(DataType t, const TensorShape& s, void* data)
      : type_(t), shape_(s), data_(data) {}
  ~Tensor() { if (owned_) emu::release(data_, host_); }
  Tensor(const Tensor& o) : type_(o.type_), shape_(o.shape_), data_(o.data_) {}
  Tensor& operator=(const Tensor& o) {
    type_ = o.type_; shape_ = o.shape_; data_ = o.data_; owned_ = false;
    return *this;
  }
  void own(DataType t, const TensorShape& s, void* data, bool host) {
    type_ = t; shape_ = s; data_ = data; owned_ = true; host_ = host;
  }
  template <class T> Flat<T> flat() {
    check(DataTypeToEnum<T>::value);
    return Flat<T>{(T*)data_, NumElements()};
  }
  template <class T> Flat<const T> flat() const {
    const_cast<Tensor*>(this)->check(DataTypeToEnum<T>::value);
    return Flat<const T>{(const T*)data_, NumElements()};
  }
  int dims() const { return shape_.dims(); }
  int64 dim_size(int i) const { return shape_.dim_size(i); }
  const TensorShape& shape() const { return shape_; }
  int64 NumElements() const { return shape_.num_elements(); }
  DataType dtype() const { return type_; }
  void* raw() const { return data_; }
 private:
  void check(DataType t) {
    if (t != type_) emu::host_fault("the op reads a tensor as another type");
  }
  DataType type_ = DT_INVALID;
  TensorShape shape_;
  void* data_ = nullptr;
  bool owned_ = false, host_ = false;
};

class AllocatorAttributes {
 public:
  void set_on_host(bool v) { host_ = v; }
  void set_gpu_compatible(bool) {}
  bool on_host() const { return host_; }
 private:
  bool host_ = false;
};

typedef std::map<std::string, int> Attributes;

class OpKernelConstruction {
 public:
  explicit OpKernelConstruction(const Attributes& a) : attributes_(a) {}
  Status GetAttr(const std::string& name, int* out) const {
    auto it = attributes_.find(name);
    if (it == attributes_.end()) return Status("no attribute " + name);
    *out = it->second;
    return Status();
  }
  void CtxFailure(const Status& s) { if (status_.ok()) status_ = s; }
  void CtxFailure(const char*, int, const Status& s) { CtxFailure(s); }
  void SetStatus(const Status& s) { CtxFailure(s); }
  const Status& status() const { return status_; }
 private:
  Attributes attributes_;
  Status status_;
};

class OpKernelContext {
 public:
  std::vector<Tensor*> inputs;
  std::vector<Tensor*> outputs;
  std::vector<DataType> output_types;
  std::vector<bool> output_host;

  const Tensor& input(int i) const {
    if (i < 0 || i >= (int)inputs.size())
      emu::host_fault("the op asks for an input which it does not have");
    return *inputs[i];
  }
  int num_inputs() const { return (int)inputs.size(); }
  Status allocate_output(int i, const TensorShape& s, Tensor** out);
  Status allocate_temp(DataType t, const TensorShape& s, Tensor* out,
                       AllocatorAttributes a = AllocatorAttributes());
  template <class D> const D& eigen_device() const {
    static const D device = D();
    return device;
  }
  template <class D> const D& eigen_gpu_device() const {
    return eigen_device<D>();
  }
  void CtxFailure(const Status& s) { if (status_.ok()) status_ = s; }
  void CtxFailure(const char*, int, const Status& s) { CtxFailure(s); }
  void SetStatus(const Status& s) { CtxFailure(s); }
  const Status& status() const { return status_; }
 private:
  Status status_;
};

class OpKernel {
 public:
  explicit OpKernel(OpKernelConstruction*) {}
  virtual ~OpKernel() {}
  virtual void Compute(OpKernelContext* context) = 0;
};

#define OP_REQUIRES(CTX, COND, STATUS)      \
  do {                                      \
    if (!(COND)) {                          \
      (CTX)->CtxFailure((STATUS));          \
      return;                               \
    }                                       \
  } while (0)
#define OP_REQUIRES_OK(CTX, ...)                     \
  do {                                               \
    ::tensorflow::Status emu_status = (__VA_ARGS__); \
    if (!emu_status.ok()) {                          \
      (CTX)->CtxFailure(emu_status);                 \
      return;                                        \
    }                                                \
  } while (0)
#define TF_RETURN_IF_ERROR(...)                      \
  do {                                               \
    ::tensorflow::Status emu_status = (__VA_ARGS__); \
    if (!emu_status.ok()) return emu_status;         \
  } while (0)
#define TF_PREDICT_TRUE(x) (x)
#define TF_PREDICT_FALSE(x) (x)

namespace shape_inference {
struct DimensionHandle { int64 v = -1; };
struct DimensionOrConstant {
  int64 v;
  DimensionOrConstant(int64 v) : v(v) {}
  DimensionOrConstant(int v) : v(v) {}
  DimensionOrConstant(DimensionHandle d) : v(d.v) {}
};
struct ShapeHandle { bool known = false; std::vector<int64> d; };

class InferenceContext {
 public:
  Attributes attributes;
  std::vector<ShapeHandle> inputs, outputs;
  static constexpr int64 kUnknownDim = -1;
  ShapeHandle input(int i) const { return inputs.at(i); }
  DimensionHandle Dim(ShapeHandle s, int i) const {
    DimensionHandle d;
    if (!s.known) return d;
    if (i < 0) i += (int)s.d.size();
    d.v = s.d.at(i);
    return d;
  }
  int64 Value(DimensionHandle d) const { return d.v; }
  int Rank(ShapeHandle s) const { return (int)s.d.size(); }
  DimensionHandle UnknownDim() const { return DimensionHandle(); }
  DimensionHandle MakeDim(DimensionOrConstant v) const {
    DimensionHandle d; d.v = v.v; return d;
  }
  ShapeHandle MakeShape(std::initializer_list<DimensionOrConstant> l) const {
    ShapeHandle s;
    s.known = true;
    for (auto& d : l) s.d.push_back(d.v);
    return s;
  }
  ShapeHandle Vector(DimensionOrConstant d) const { return MakeShape({d}); }
  ShapeHandle Matrix(DimensionOrConstant a, DimensionOrConstant b) const {
    return MakeShape({a, b});
  }
  ShapeHandle UnknownShape() const { return ShapeHandle(); }
  void set_output(int i, ShapeHandle s) {
    if ((int)outputs.size() <= i) outputs.resize(i + 1);
    outputs[i] = s;
  }
  Status WithRank(ShapeHandle s, int rank, ShapeHandle* out) const {
    if ((int)s.d.size() != rank) return Status("wrong rank");
    *out = s;
    return Status();
  }
  Status GetAttr(const std::string& name, int* out) const {
    auto it = attributes.find(name);
    if (it == attributes.end()) return Status("no attribute " + name);
    *out = it->second;
    return Status();
  }
};
}  // namespace shape_inference

struct OpDef {
  std::string name;
  std::vector<std::pair<std::string, DataType>> inputs, outputs;
  std::vector<std::string> attrs;
  std::function<Status(shape_inference::InferenceContext*)> shape;
};
std::map<std::string, OpDef>& op_registry();

class OpBuilder {
 public:
  explicit OpBuilder(const char* name) { def_.name = name; put(); }
  OpBuilder& Input(const std::string& s) { def_.inputs.push_back(arg(s)); return put(); }
  OpBuilder& Output(const std::string& s) { def_.outputs.push_back(arg(s)); return put(); }
  OpBuilder& Attr(const std::string& s) {
    std::string n = s.substr(0, s.find(':'));
    while (!n.empty() && n.back() == ' ') n.pop_back();
    def_.attrs.push_back(n);
    return put();
  }
  OpBuilder& Doc(const char*) { return *this; }
  template <class F> OpBuilder& SetShapeFn(F f) { def_.shape = f; return put(); }
 private:
  static std::pair<std::string, DataType> arg(const std::string& s) {
    size_t c = s.find(':');
    std::string t = s.substr(c + 1);
    t.erase(0, t.find_first_not_of(' '));
    return std::make_pair(s.substr(0, c),
        t == "float32" || t == "float" ? DT_FLOAT : t == "int32" ? DT_INT32 :
        t == "int64" ? DT_INT64 : t == "bool" ? DT_BOOL :
        t == "float64" || t == "double" ? DT_DOUBLE : DT_INVALID);
  }
  OpBuilder& put() { op_registry()[def_.name] = def_; return *this; }
  OpDef def_;
};

constexpr const char* DEVICE_GPU = "GPU";
constexpr const char* DEVICE_CPU = "CPU";
struct KernelDef {
  std::string name, device;
  std::vector<std::string> host;
  std::function<OpKernel*(OpKernelConstruction*)> make;
};
std::map<std::string, KernelDef>& kernel_registry();
class Name {
 public:
  explicit Name(const char* n) { def.name = n; }
  Name& Device(const char* d) { def.device = d; return *this; }
  Name& HostMemory(const char* n) { def.host.push_back(n); return *this; }
  KernelDef def;
};
struct KernelRegistrar {
  KernelRegistrar(const Name& n, std::function<OpKernel*(OpKernelConstruction*)> make) {
    KernelDef d = n.def;
    d.make = make;
    kernel_registry()[d.name] = d;
  }
};

}  // namespace tensorflow

#define EMU_CONCAT2(A, B) A##B
#define EMU_CONCAT(A, B) EMU_CONCAT2(A, B)
#define REGISTER_OP(NAME)                                      \
  static ::tensorflow::OpBuilder EMU_CONCAT(emu_op_, __COUNTER__) = \
      ::tensorflow::OpBuilder(NAME)
#define REGISTER_KERNEL_BUILDER(NAME, ...)                             \
  static ::tensorflow::KernelRegistrar EMU_CONCAT(emu_kernel_, __COUNTER__)( \
      ::tensorflow::NAME, [](::tensorflow::OpKernelConstruction* c) {  \
        return (::tensorflow::OpKernel*)new __VA_ARGS__(c); })
