#ifndef CONVSIM_QUANTIZATION_CONFIG_H_
#define CONVSIM_QUANTIZATION_CONFIG_H_
#include <optional>
#include <utility>
#include <vector>
namespace tensorflow {
enum DataType { DT_FLOAT = 1, DT_QINT8 = 11, DT_QUINT8 = 12, DT_BFLOAT16 = 14, DT_HALF = 19 };
}
namespace mlir {
namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic, kQDQStrict };
struct QuantizationSpecs {
  bool propagate = false;
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT, inference_input_type = tensorflow::DT_FLOAT;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  bool post_training_quantization = false, weight_quantization = false;
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool RunPropagationAndRewriteQuantizationPasses() const { return propagate || (inference_type != tensorflow::DT_FLOAT && inference_type != tensorflow::DT_BFLOAT16 && !weight_quantization); }
  bool IsSignedInferenceType() const { return inference_type == tensorflow::DT_QINT8; }
};
}  // namespace quant
}  // namespace mlir
#endif
