#include "convsim_passes.h"
