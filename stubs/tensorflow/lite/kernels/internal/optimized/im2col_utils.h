#ifndef LCESIM_IM2COL_UTILS_H_
#define LCESIM_IM2COL_UTILS_H_
#include <cstring>
#include "ruy/profiler/instrumentation.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
namespace optimized_ops {
// Semantics of TFLite's im2col: one row per output pixel, padding filled with
// zero_byte.  Written without its edge-case fast paths.
template <typename T>
void LcesimIm2colImpl(const ConvParams& params, uint8_t zero_byte, const RuntimeShape& input_shape, const T* input_data,
                      int kheight, int kwidth, int dil_h, int dil_w, int batches, int output_height, int output_width,
                      T* output_data) {
  const int input_depth = input_shape.Dims(3);
  const int input_width = input_shape.Dims(2);
  const int input_height = input_shape.Dims(1);
  MatchingDim(input_shape, 0, RuntimeShape{batches}, 0);
  T* out = output_data;
  for (int b = 0; b < batches; ++b)
    for (int y = 0; y < output_height; ++y)
      for (int x = 0; x < output_width; ++x)
        for (int fy = 0; fy < kheight; ++fy)
          for (int fx = 0; fx < kwidth; ++fx) {
            const int iy = y * params.stride_height - params.padding_values.height + fy * dil_h;
            const int ix = x * params.stride_width - params.padding_values.width + fx * dil_w;
            if (iy >= 0 && iy < input_height && ix >= 0 && ix < input_width)
              std::memcpy(out, input_data + ((b * input_height + iy) * input_width + ix) * input_depth, input_depth * sizeof(T));
            else
              std::memset(out, zero_byte, input_depth * sizeof(T));
            out += input_depth;
          }
}
template <typename T>
void Im2col(const ConvParams& params, int kheight, int kwidth, uint8_t zero_byte, const RuntimeShape& input_shape,
            const T* input_data, const RuntimeShape& output_shape, T* output_data) {
  ruy::profiler::ScopeLabel label("Im2col");
  TFLITE_DCHECK_EQ(input_shape.DimensionsCount(), 4);
  TFLITE_DCHECK_EQ(output_shape.DimensionsCount(), 4);
  TFLITE_DCHECK_EQ(output_shape.Dims(3), kheight * kwidth * input_shape.Dims(3));
  LcesimIm2colImpl(params, zero_byte, input_shape, input_data, kheight, kwidth, 1, 1,
                   MatchingDim(input_shape, 0, output_shape, 0), output_shape.Dims(1), output_shape.Dims(2), output_data);
}
template <typename T>
void DilatedIm2col(const ConvParams& params, uint8_t zero_byte, const RuntimeShape& input_shape, const T* input_data,
                   const RuntimeShape& filter_shape, const RuntimeShape& output_shape, T* im2col_data) {
  MatchingDim(input_shape, 3, filter_shape, 3);
  LcesimIm2colImpl(params, zero_byte, input_shape, input_data, filter_shape.Dims(1), filter_shape.Dims(2),
                   params.dilation_height_factor, params.dilation_width_factor,
                   MatchingDim(input_shape, 0, output_shape, 0), output_shape.Dims(1), output_shape.Dims(2), im2col_data);
}
}
}
#endif
