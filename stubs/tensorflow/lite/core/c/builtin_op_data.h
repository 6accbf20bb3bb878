#include "tensorflow/lite/c/builtin_op_data.h"
