// Stand-in for ruy/platform.h (x86-64 host, portable code paths).
#ifndef RUY_RUY_PLATFORM_H_
#define RUY_RUY_PLATFORM_H_
#define RUY_PLATFORM(X) ((RUY_DONOTUSEDIRECTLY_##X) != 0)
#ifdef LCESIM_ARM  // compiled for the simulated 64-bit Arm processor
#define RUY_PLATFORM_X86 0
#define RUY_PLATFORM_NEON 1
#define RUY_PLATFORM_NEON_32 0
#define RUY_PLATFORM_NEON_64 1
#define RUY_PLATFORM_ARM 1
#define RUY_PLATFORM_ARM_32 0
#define RUY_PLATFORM_ARM_64 1
#define RUY_PLATFORM_AVX2_FMA 0
#define RUY_PLATFORM_AVX512 0
#define RUY_PLATFORM_AVX 0
#else
#define RUY_PLATFORM_X86 1
#define RUY_PLATFORM_NEON 0
#define RUY_PLATFORM_NEON_32 0
#define RUY_PLATFORM_NEON_64 0
#define RUY_PLATFORM_ARM 0
#define RUY_PLATFORM_ARM_32 0
#define RUY_PLATFORM_ARM_64 0
#define RUY_PLATFORM_AVX2_FMA 0
#define RUY_PLATFORM_AVX512 0
#define RUY_PLATFORM_AVX 0
#endif
#endif
