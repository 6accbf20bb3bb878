#ifndef RUY_RUY_RUY_H_
#define RUY_RUY_RUY_H_
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/create_trmul_params.h"
#include "ruy/kernel_common.h"
#include "ruy/mat.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/pack_common.h"
#include "ruy/path.h"
#include "ruy/prepare_packed_matrices.h"
#include "ruy/trmul.h"
#include "ruy/trmul_params.h"
#endif
