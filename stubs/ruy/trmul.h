#ifndef RUY_RUY_TRMUL_H_
#define RUY_RUY_TRMUL_H_
#include "ruy/ctx.h"
#include "ruy/trmul_params.h"
namespace ruy {
void TrMul(Ctx* ctx, TrMulParams* params);
}
#endif
