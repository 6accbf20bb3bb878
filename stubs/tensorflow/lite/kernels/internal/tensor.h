#ifndef LCESIM_TENSOR_H_
#define LCESIM_TENSOR_H_
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
#include "tensorflow/lite/kernels/internal/types.h"
#endif
