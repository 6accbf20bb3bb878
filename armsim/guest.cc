// The way into the operators on the simulated processor.
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
extern "C" void lcesim_guest_register(tflite::MutableOpResolver* r, int ref, int indirect) {
  compute_engine::tflite::RegisterLCECustomOps(r, ref != 0, indirect != 0);
}
