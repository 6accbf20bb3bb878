#ifndef LCESIM_FLATBUFFERS_BASE_H_
#define LCESIM_FLATBUFFERS_BASE_H_
#include <cstddef>
#include <cstdint>
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
