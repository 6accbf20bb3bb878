#ifndef TENSORFLOW_LITE_C_BUILTIN_OP_DATA_H_
#define TENSORFLOW_LITE_C_BUILTIN_OP_DATA_H_
#include "tensorflow/lite/c/common.h"
typedef enum { kTfLitePaddingUnknown = 0, kTfLitePaddingSame, kTfLitePaddingValid } TfLitePadding;
typedef enum {
  kTfLiteActNone = 0, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6, kTfLiteActTanh,
  kTfLiteActSignBit, kTfLiteActSigmoid,
} TfLiteFusedActivation;
typedef struct { int width; int height; int width_offset; int height_offset; } TfLitePaddingValues;
#endif
