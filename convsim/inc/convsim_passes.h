// TensorFlow's passes around the converter's own: stand-ins that record the
// order in which the pipeline asks for them.
#ifndef CONVSIM_PASSES_H_
#define CONVSIM_PASSES_H_
#include <string>
#include <vector>
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"
namespace convsim {
std::unique_ptr<mlir::OperationPass<mlir::func::FuncOp>> FuncStub(const char* name);
std::unique_ptr<mlir::OperationPass<mlir::ModuleOp>> ModuleStub(const char* name);
// how the quantizer is set up, for whoever wants to know
extern void (*on_prepare_quantize)(const mlir::quant::QuantizationSpecs&);
extern void (*on_default_ranges)(double, double, bool);
extern void (*on_assets)(const std::string&);
}  // namespace convsim
namespace mlir {
#define CONVSIM_FUNC(N) inline std::unique_ptr<OperationPass<func::FuncOp>> N
#define CONVSIM_MODULE(N) inline std::unique_ptr<OperationPass<ModuleOp>> N
namespace TFL {
CONVSIM_FUNC(CreatePrepareQuantizePass)(const quant::QuantizationSpecs& s) {
  if (convsim::on_prepare_quantize) convsim::on_prepare_quantize(s);
  return convsim::FuncStub("prepare-quantize");
}
CONVSIM_FUNC(CreateDefaultQuantParamsPass)(double low, double high, bool is_signed) {
  if (convsim::on_default_ranges) convsim::on_default_ranges(low, high, is_signed);
  return convsim::FuncStub("default-quant");
}
CONVSIM_FUNC(CreateQuantizePass)() { return convsim::FuncStub("quantize"); }
CONVSIM_FUNC(CreatePostQuantizePass)(bool) { return convsim::FuncStub("post-quantize"); }
CONVSIM_FUNC(CreatePostQuantizeRemoveQDQPass)() { return convsim::FuncStub("remove-qdq"); }
CONVSIM_FUNC(CreateOptimizeOpOrderPass)() { return convsim::FuncStub("op-order"); }
CONVSIM_FUNC(CreateOptimizePass)(bool) { return convsim::FuncStub("optimize"); }
CONVSIM_FUNC(CreateRaiseCustomOpsPass)(const std::vector<std::string>&) { return convsim::FuncStub("raise-custom"); }
CONVSIM_MODULE(CreatePrepareCompositeFunctionsPass)() { return convsim::ModuleStub("composite"); }
CONVSIM_MODULE(CreateLowerStaticTensorListPass)() { return convsim::ModuleStub("tensor-list"); }
CONVSIM_MODULE(CreateLegalizeTFWhilePass)() { return convsim::ModuleStub("legalize-while"); }
CONVSIM_FUNC(CreateReduceWhileOperandsPass)() { return convsim::FuncStub("reduce-while"); }
CONVSIM_FUNC(CreatePrepareTFPass)(bool, bool) { return convsim::FuncStub("prepare-tf"); }
CONVSIM_FUNC(CreateLegalizeTFPass)(bool) { return convsim::FuncStub("legalize-tf"); }
CONVSIM_MODULE(CreateAnalyzeVariablesPass)() { return convsim::ModuleStub("analyze-variables"); }
CONVSIM_MODULE(CreateLegalizeVariablesPass)() { return convsim::ModuleStub("legalize-variables"); }
CONVSIM_MODULE(CreateLegalizeHashTablesPass)() { return convsim::ModuleStub("hash-tables"); }
CONVSIM_MODULE(CreateOptimizeFunctionalOpsPass)() { return convsim::ModuleStub("functional-ops"); }
CONVSIM_FUNC(CreateSplitMergedOperandsPass)() { return convsim::FuncStub("split-merged"); }
CONVSIM_MODULE(CreateInsertCallOnceOpFromSessionInitializerPass)() { return convsim::ModuleStub("call-once"); }
CONVSIM_MODULE(CreateUnfoldLargeSplatConstantPass)() { return convsim::ModuleStub("unfold-splat"); }
CONVSIM_MODULE(CreateWhileOutlinePass)() { return convsim::ModuleStub("while-outline"); }
CONVSIM_FUNC(CreateRuntimeVerifyPass)() { return convsim::FuncStub("runtime-verify"); }
inline std::vector<std::string> AllTfFakeQuantOps() { return {}; }
}  // namespace TFL
namespace TF {
struct StandardPipelineOptions {
  bool enable_inliner = false, form_clusters = false;
};
struct LayoutOptimizationPipelineOptions {
  std::string force_data_format;
  bool skip_fold_transpose_in_ops = false;
};
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& options);
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options);
CONVSIM_FUNC(CreateDeviceIndexSelectorPass)() { return convsim::FuncStub("device-index"); }
CONVSIM_MODULE(CreateTFShapeInferencePass)() { return convsim::ModuleStub("shape-inference"); }
CONVSIM_MODULE(CreateTFFunctionalControlFlowToRegions)() { return convsim::ModuleStub("to-regions"); }
CONVSIM_MODULE(CreateTFRegionControlFlowToFunctional)() { return convsim::ModuleStub("to-functional"); }
CONVSIM_FUNC(CreateInitTextFileToImportPass)(const std::string&) { return convsim::FuncStub("text-file"); }
}  // namespace TF
namespace TFDevice {
CONVSIM_FUNC(CreateDecomposeResourceOpsPass)() { return convsim::FuncStub("decompose-resource"); }
}
namespace tf_saved_model {
CONVSIM_MODULE(CreateOptimizeGlobalTensorsPass)() { return convsim::ModuleStub("optimize-globals"); }
CONVSIM_MODULE(CreateFreezeGlobalTensorsPass)(bool = false) { return convsim::ModuleStub("freeze-globals"); }
CONVSIM_MODULE(CreateFreezeAssetsPass)(const std::string& dir) {
  if (convsim::on_assets) convsim::on_assets(dir);
  return convsim::ModuleStub("freeze-assets");
}
}  // namespace tf_saved_model
}  // namespace mlir
#endif
