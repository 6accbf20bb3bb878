#ifndef RUY_RUY_PREPARE_PACKED_MATRICES_H_
#define RUY_RUY_PREPARE_PACKED_MATRICES_H_
#include "ruy/ctx.h"
#include "ruy/trmul_params.h"
namespace ruy {
void PreparePackedMatrices(Ctx* ctx, TrMulParams* params);
}
#endif
