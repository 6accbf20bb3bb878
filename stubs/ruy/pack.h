#include "ruy/pack_common.h"
