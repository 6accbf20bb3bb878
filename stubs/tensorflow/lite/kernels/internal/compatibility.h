#ifndef LCESIM_COMPATIBILITY_H_
#define LCESIM_COMPATIBILITY_H_
#include <cstdint>
#include "tensorflow/lite/kernels/op_macros.h"
extern "C" void lcesim_check_failed(const char* file, int line, const char* cond);
#define LCESIM_TFL_CHECK_(c, t) ((c) ? (void)0 : lcesim_check_failed(__FILE__, __LINE__, t))
#define TFLITE_ABORT lcesim_check_failed(__FILE__, __LINE__, "TFLITE_ABORT")
#define TFLITE_ASSERT_FALSE TFLITE_ABORT
#define TFLITE_DCHECK(c) LCESIM_TFL_CHECK_((c), #c)
#define TFLITE_DCHECK_EQ(x, y) LCESIM_TFL_CHECK_((x) == (y), #x " == " #y)
#define TFLITE_DCHECK_NE(x, y) LCESIM_TFL_CHECK_((x) != (y), #x " != " #y)
#define TFLITE_DCHECK_GE(x, y) LCESIM_TFL_CHECK_((x) >= (y), #x " >= " #y)
#define TFLITE_DCHECK_GT(x, y) LCESIM_TFL_CHECK_((x) > (y), #x " > " #y)
#define TFLITE_DCHECK_LE(x, y) LCESIM_TFL_CHECK_((x) <= (y), #x " <= " #y)
#define TFLITE_DCHECK_LT(x, y) LCESIM_TFL_CHECK_((x) < (y), #x " < " #y)
#define TFLITE_CHECK(c) TFLITE_DCHECK(c)
#define TFLITE_CHECK_EQ(x, y) TFLITE_DCHECK_EQ(x, y)
#define TFLITE_CHECK_NE(x, y) TFLITE_DCHECK_NE(x, y)
#define TFLITE_CHECK_GE(x, y) TFLITE_DCHECK_GE(x, y)
#define TFLITE_CHECK_GT(x, y) TFLITE_DCHECK_GT(x, y)
#define TFLITE_CHECK_LE(x, y) TFLITE_DCHECK_LE(x, y)
#define TFLITE_CHECK_LT(x, y) TFLITE_DCHECK_LT(x, y)
#define TFLITE_ATTRIBUTE_WEAK __attribute__((weak))
#define TFLITE_EXPECT_TRUE(c) __builtin_expect(static_cast<bool>(c), 1)
#define TFLITE_EXPECT_FALSE(c) __builtin_expect(static_cast<bool>(c), 0)
#define TFLITE_NOINLINE __attribute__((noinline))
#endif
