#include "convsim_entry.h"
