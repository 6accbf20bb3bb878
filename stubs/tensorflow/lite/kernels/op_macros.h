#ifndef LCESIM_OP_MACROS_H_
#define LCESIM_OP_MACROS_H_
#include "tensorflow/lite/kernels/internal/compatibility.h"
#define TF_LITE_FATAL(msg) lcesim_check_failed(__FILE__, __LINE__, msg)
#define TF_LITE_ASSERT(x) do { if (!(x)) TF_LITE_FATAL(#x); } while (0)
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); } while (0)
#define TF_LITE_ABORT TF_LITE_FATAL("abort")
#endif
