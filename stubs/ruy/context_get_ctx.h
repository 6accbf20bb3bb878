#ifndef RUY_RUY_CONTEXT_GET_CTX_H_
#define RUY_RUY_CONTEXT_GET_CTX_H_
#include "ruy/context.h"
#include "ruy/ctx.h"
namespace ruy {
inline Ctx* get_ctx(Context* context) { return context->ctx(); }
inline const Ctx* get_ctx(const Context* context) { return context->ctx(); }
}  // namespace ruy
#endif
