#ifndef CONVSIM_TF_OPS_H_
#define CONVSIM_TF_OPS_H_
#include "convsim_support.h"
#include "tf_dialect.h.inc"
#define GET_OP_CLASSES
#include "tf_ops.h.inc"
#endif
