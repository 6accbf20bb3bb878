// What the float kernel of the runtime needs from ruy; convsim runs only the
// reference and the indirect kernel.
#include <stdio.h>
#include <stdlib.h>
#include "ruy/allocator.h"
#include "ruy/create_trmul_params.h"
#include "ruy/prepare_packed_matrices.h"
#include "ruy/trmul.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
extern "C" [[gnu::weak]] void lcesim_check_failed(const char* file, int line, const char* cond) {
  fprintf(stderr, "%s:%d: check failed: %s\n", file, line, cond);
  abort();
}
namespace ruy {
void Allocator::FreeAll() { abort(); }
void PreparePackedMatrices(Ctx*, TrMulParams*) { abort(); }
void TrMul(Ctx*, TrMulParams*) { abort(); }
int lcesim_packed_stride(int, int, int) { abort(); }
}  // namespace ruy
namespace tflite {
CpuBackendContext* CpuBackendContext::GetFromContext(TfLiteContext*) { abort(); }
}  // namespace tflite
