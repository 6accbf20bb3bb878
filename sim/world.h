#pragma once
#include "lcesim.h"
namespace lcesim {
void run_profile();               // the whole run of g_cfg.seed under g_cfg.profile
void run_invalid_descriptions();  // profile C07
void direct_products(Rng& r);     // 4x4-packed products, part of C01
}
