// The simulated TFLite interpreter: same contracts towards kernels as TFLite's
// Subgraph (ownership of dims, early return on equal sizes, arena planning,
// lazily prepared dynamic graphs, release and re-acquisition of the arena
// without preparation), with every free choice taken from the run's seed.
#ifndef LCESIM_INTERPRETER_H_
#define LCESIM_INTERPRETER_H_
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
#include "tensorflow/lite/op_resolver.h"
namespace tflite {
// What a model file describes.
struct GraphTensor {
  TfLiteType type = kTfLiteFloat32;
  std::vector<int> dims;
  std::string name;
  bool quantized = false;
  std::vector<float> scales;
  std::vector<int> zero_points;
  const char* const_data = nullptr;  // mapped model bytes
  size_t const_bytes = 0;
};
struct GraphNode {
  std::string custom_name;
  int builtin = -1;
  std::vector<int> inputs, outputs;
  const char* options = nullptr;
  size_t options_size = 0;
};
struct Graph {
  std::vector<GraphTensor> tensors;
  std::vector<GraphNode> nodes;
  std::vector<int> inputs, outputs;
};
class Interpreter {
 public:
  Interpreter(const Graph& graph, const OpResolver& resolver, int num_threads,
              ExternalCpuBackendContext* shared_context = nullptr);
  ~Interpreter();
  bool ok() const { return ok_; }
  const std::vector<int>& inputs() const { return inputs_; }
  const std::vector<int>& outputs() const { return outputs_; }
  TfLiteTensor* tensor(int i) { return i < 0 || i >= (int)context_.tensors_size ? nullptr : &context_.tensors[i]; }
  const TfLiteTensor* tensor(int i) const { return i < 0 || i >= (int)context_.tensors_size ? nullptr : &context_.tensors[i]; }
  TfLiteTensor* input_tensor(size_t i) { return tensor(inputs_[i]); }
  const TfLiteTensor* input_tensor(size_t i) const { return tensor(inputs_[i]); }
  TfLiteTensor* output_tensor(size_t i) { return tensor(outputs_[i]); }
  const TfLiteTensor* output_tensor(size_t i) const { return tensor(outputs_[i]); }
  size_t tensors_size() const { return context_.tensors_size; }
  size_t nodes_size() const { return nodes_.size(); }
  TfLiteStatus ResizeInputTensor(int tensor_index, const std::vector<int>& dims);
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
  TfLiteStatus ReleaseNonPersistentMemory();
  TfLiteStatus SetCustomAllocationForTensor(int tensor_index, const TfLiteCustomAllocation& allocation);
  TfLiteStatus SetNumThreads(int n);
  template <class T> T* typed_input_tensor(int i) { return typed_tensor<T>(inputs_[i]); }
  template <class T> T* typed_output_tensor(int i) { return typed_tensor<T>(outputs_[i]); }
  template <class T> T* typed_tensor(int i) { return reinterpret_cast<T*>(tensor(i)->data.raw); }

  // --- simulator side ---
  struct Node {
    TfLiteNode* node = nullptr;
    const TfLiteRegistration* reg = nullptr;
    std::string name;
    bool inited = false;
    long prepares = 0, evals_since_prepare = 0;
    unsigned long long filter_reads = 0;
  };
  const Node& sim_node(int i) const { return nodes_[i]; }
  TfLiteContext* context() { return &context_; }
  int id() const { return id_; }
  bool prepared() const { return state_ok_; }
  std::vector<std::string> errors;
  ExternalCpuBackendContext* backend() { return ext_; }
  std::function<void(Interpreter*, int)> after_op;
  bool has_memory() const { return has_arena_; }
  bool is_custom(int i) const { return custom_.count(i) != 0; }

 private:
  friend struct InterpreterOps;
  TfLiteStatus PrepareFrom();
  TfLiteStatus PlanArena();
  void PlaceArena();
  void DropArena();
  TfLiteStatus ResizeTensorImpl(TfLiteTensor* t, TfLiteIntArray* new_size);
  TfLiteStatus AddTensorsImpl(int n, int* first);
  void Relocate(size_t new_count);
  void MaybeRelocate();
  void Teardown();
  bool HasDynamicOutputs(const Node& n);

  TfLiteContext context_{};
  size_t capacity_ = 0;
  std::vector<Node> nodes_;
  std::vector<int> inputs_, outputs_;
  std::vector<TfLiteAffineQuantization*> quants_;
  std::map<int, TfLiteCustomAllocation> custom_;
  std::vector<size_t> offsets_;
  size_t arena_bytes_ = 0, placed_bytes_ = 0;
  char* arena_ = nullptr;
  bool has_arena_ = false;
  bool state_ok_ = false;
  bool ok_ = false;
  bool resized_ = false;
  int next_prepare_ = 0, last_prepared_ = -1;
  int id_ = 0;
  std::unique_ptr<ExternalCpuBackendContext> own_ext_;
  ExternalCpuBackendContext* ext_ = nullptr;
};
class ErrorReporter;
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* data, size_t size, ErrorReporter* = nullptr);
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromBuffer(const char* data, size_t size) { return BuildFromBuffer(data, size); }
  const Graph& graph() const { return graph_; }
  bool initialized() const { return true; }
 private:
  Graph graph_;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model, const OpResolver& resolver) : graph_(model.graph()), resolver_(resolver) {}
  InterpreterBuilder(const Graph& graph, const OpResolver& resolver) : graph_(graph), resolver_(resolver) {}
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter) { return (*this)(interpreter, num_threads_); }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter, int num_threads);
  TfLiteStatus SetNumThreads(int n) { num_threads_ = n; return kTfLiteOk; }
 private:
  const Graph& graph_;
  const OpResolver& resolver_;
  int num_threads_ = -1;
};
}
#endif
