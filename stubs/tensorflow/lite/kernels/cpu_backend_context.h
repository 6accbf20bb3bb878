#ifndef LCESIM_CPU_BACKEND_CONTEXT_H_
#define LCESIM_CPU_BACKEND_CONTEXT_H_
#include <memory>
#include "ruy/context.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
class TfLiteInternalBackendContext {
 public:
  virtual ~TfLiteInternalBackendContext() {}
  virtual void ClearCaches() = 0;
  virtual void SetMaxNumThreads(int max_num_threads) = 0;
};
class CpuBackendContext final : public TfLiteInternalBackendContext {
 public:
  static CpuBackendContext* GetFromContext(TfLiteContext* context);
  CpuBackendContext();
  ~CpuBackendContext() override;
  ruy::Context* ruy_context() const { return ruy_context_.get(); }
  void SetMaxNumThreads(int max_num_threads) override;
  int max_num_threads() const { return max_num_threads_; }
  void SetUseCaching(bool flag) { use_caching_ = flag; }
  bool use_caching() const { return use_caching_; }
  void ClearCaches() override { ruy_context_->ClearPrepackedCache(); }
 private:
  std::unique_ptr<ruy::Context> ruy_context_;
  int max_num_threads_ = 1;
  bool use_caching_ = false;
};
class ExternalCpuBackendContext : public TfLiteExternalContext {
 public:
  ExternalCpuBackendContext();
  ~ExternalCpuBackendContext() {}
  void set_internal_backend_context(std::unique_ptr<TfLiteInternalBackendContext> c) { ctx_ = std::move(c); }
  TfLiteInternalBackendContext* internal_backend_context() const { return ctx_.get(); }
 private:
  std::unique_ptr<TfLiteInternalBackendContext> ctx_;
};
}
#endif
