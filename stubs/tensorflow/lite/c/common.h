// Stand-in for tensorflow/lite/c/common.h (same names, layouts close enough
// that code written against TFLite compiles and behaves the same).
#ifndef TENSORFLOW_LITE_C_COMMON_H_
#define TENSORFLOW_LITE_C_COMMON_H_
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef enum TfLiteStatus {
  kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2, kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4, kTfLiteDelegateDataWriteError = 5, kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7, kTfLiteCancelled = 8,
} TfLiteStatus;
typedef enum {
  kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3, kTfLiteInt64 = 4,
  kTfLiteString = 5, kTfLiteBool = 6, kTfLiteInt16 = 7, kTfLiteComplex64 = 8, kTfLiteInt8 = 9,
  kTfLiteFloat16 = 10, kTfLiteFloat64 = 11, kTfLiteComplex128 = 12, kTfLiteUInt64 = 13,
  kTfLiteResource = 14, kTfLiteVariant = 15, kTfLiteUInt32 = 16, kTfLiteUInt16 = 17, kTfLiteInt4 = 18,
} TfLiteType;
typedef enum TfLiteQuantizationType { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteQuantizationParams { float scale; int32_t zero_point; } TfLiteQuantizationParams;
typedef enum TfLiteExternalContextType {
  kTfLiteEigenContext = 0, kTfLiteGemmLowpContext = 1, kTfLiteEdgeTpuContext = 2, kTfLiteCpuBackendContext = 3,
  kTfLiteMaxExternalContexts = 4
} TfLiteExternalContextType;
struct TfLiteContext;
struct TfLiteRegistration;
struct TfLiteNode;
typedef struct TfLiteExternalContext {
  TfLiteExternalContextType type;
  TfLiteStatus (*Refresh)(struct TfLiteContext* context);
} TfLiteExternalContext;
#define kTfLiteOptionalTensor (-1)
typedef struct TfLiteIntArray { int size; int data[]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[]; } TfLiteFloatArray;
#ifdef __cplusplus
extern "C" {
#endif
size_t TfLiteIntArrayGetSizeInBytes(int size);
TfLiteIntArray* TfLiteIntArrayCreate(int size);
int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b);
int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int b_size, const int b_data[]);
TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src);
void TfLiteIntArrayFree(TfLiteIntArray* a);
TfLiteFloatArray* TfLiteFloatArrayCreate(int size);
void TfLiteFloatArrayFree(TfLiteFloatArray* a);
const char* TfLiteTypeGetName(TfLiteType type);
#ifdef __cplusplus
}
#endif
typedef struct TfLiteAffineQuantization {
  TfLiteFloatArray* scale;
  TfLiteIntArray* zero_point;
  int32_t quantized_dimension;
} TfLiteAffineQuantization;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef union TfLitePtrUnion {
  int32_t* i32; uint32_t* u32; int64_t* i64; uint64_t* u64; float* f; double* f64;
  char* raw; const char* raw_const; uint8_t* uint8; bool* b; int16_t* i16; uint16_t* ui16; int8_t* int8; void* data;
} TfLitePtrUnion;
typedef enum TfLiteAllocationType {
  kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent, kTfLiteDynamic,
  kTfLitePersistentRo, kTfLiteCustom, kTfLiteVariantObject,
} TfLiteAllocationType;
typedef int TfLiteBufferHandle;
typedef struct TfLiteCustomAllocation { void* data; size_t bytes; } TfLiteCustomAllocation;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  size_t bytes;
  const void* allocation;
  const char* name;
  struct TfLiteDelegate* delegate;
  TfLiteBufferHandle buffer_handle;
  bool data_is_stale;
  bool is_variable;
  TfLiteQuantization quantization;
  void* sparsity;
  const TfLiteIntArray* dims_signature;
} TfLiteTensor;
typedef struct TfLiteEvalTensor { TfLitePtrUnion data; TfLiteIntArray* dims; TfLiteType type; } TfLiteEvalTensor;
typedef struct TfLiteNode {
  TfLiteIntArray* inputs;
  TfLiteIntArray* outputs;
  TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries;
  void* user_data;
  void* builtin_data;
  const void* custom_initial_data;
  int custom_initial_data_size;
  struct TfLiteDelegate* delegate;
  bool might_have_side_effect;
} TfLiteNode;
typedef struct TfLiteContext {
  size_t tensors_size;
  TfLiteStatus (*GetExecutionPlan)(struct TfLiteContext* context, TfLiteIntArray** execution_plan);
  TfLiteTensor* tensors;
  void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor* tensor, TfLiteIntArray* new_size);
  void (*ReportError)(struct TfLiteContext*, const char* msg, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int tensors_to_add, int* first_new_tensor_index);
  TfLiteStatus (*GetNodeAndRegistration)(struct TfLiteContext*, int node_index, TfLiteNode** node,
                                         struct TfLiteRegistration** registration);
  int recommended_num_threads;
  TfLiteExternalContext* (*GetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType);
  void (*SetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType, TfLiteExternalContext*);
  bool allow_fp32_relax_to_fp16;
  void* profiler;
  void* (*AllocatePersistentBuffer)(struct TfLiteContext* ctx, size_t bytes);
  TfLiteStatus (*RequestScratchBufferInArena)(struct TfLiteContext* ctx, size_t bytes, int* buffer_idx);
  void* (*GetScratchBuffer)(struct TfLiteContext* ctx, int buffer_idx);
  TfLiteStatus (*ResizeTensorExplicit)(struct TfLiteContext* ctx, TfLiteTensor* tensor, int dims, const int* shape);
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext* context, int tensor_idx);
  TfLiteEvalTensor* (*GetEvalTensor)(const struct TfLiteContext* context, int tensor_idx);
} TfLiteContext;
typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context, const TfLiteNode* node);
  int32_t builtin_code;
  const char* custom_name;
  int version;
  void* registration_external;
  void* async_kernel;
} TfLiteRegistration;

#define TF_LITE_KERNEL_LOG(context, ...) do { (context)->ReportError((context), __VA_ARGS__); } while (false)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...) \
  do { if ((context) != nullptr) { (context)->ReportError((context), __VA_ARGS__); } } while (false)
#define TF_LITE_ENSURE_MSG(context, value, ...) \
  do { if (!(value)) { TF_LITE_KERNEL_LOG((context), __FILE__ " " __VA_ARGS__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE(context, a) \
  do { if (!(a)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__, __LINE__, #a); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_STATUS(a) \
  do { const TfLiteStatus s = (a); if (s != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b) \
  do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%d != %d)", __FILE__, __LINE__, #a, #b, (int)(a), (int)(b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) \
  do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%s != %s)", __FILE__, __LINE__, #a, #b, TfLiteTypeGetName(a), TfLiteTypeGetName(b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon) \
  do { double delta = ((a) > (b)) ? ((a) - (b)) : ((b) - (a)); if (delta > epsilon) { TF_LITE_KERNEL_LOG((context), "%s:%d not near", __FILE__, __LINE__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_OK(context, status) \
  do { const TfLiteStatus s = (status); if ((s) != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_UNUSED(x) (void)(x)
#define TF_LITE_OPAQUE_ENSURE(context, a) TF_LITE_ENSURE(context, a)
#define TF_LITE_UNSUPPORTED_TYPE(context, type, op_name) \
  do { TF_LITE_KERNEL_LOG((context), "Type %s is unsupported by op %s.", TfLiteTypeGetName(type), (op_name)); return kTfLiteError; } while (0)
#endif
