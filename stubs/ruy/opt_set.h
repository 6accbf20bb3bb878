#ifndef RUY_RUY_OPT_SET_H_
#define RUY_RUY_OPT_SET_H_
#define RUY_OPT_BIT_FAT_KERNEL 0x100
#ifndef RUY_OPT_SET
#define RUY_OPT_SET (~0)
#endif
// Both forms of kernel invocation are legal for ruy (RUY_OPT(FAT_KERNEL) is a
// build-time knob), so the simulator builds each of them.
#ifndef LCESIM_FAT_KERNEL
#define LCESIM_FAT_KERNEL 1
#endif
#define RUY_OPT(X) LCESIM_RUY_OPT_##X
#define LCESIM_RUY_OPT_FAT_KERNEL LCESIM_FAT_KERNEL
#ifdef LCESIM_ARM
#ifndef LCESIM_MAX_STREAMING
#define LCESIM_MAX_STREAMING 1
#endif
#define LCESIM_RUY_OPT_ASM 1
#define LCESIM_RUY_OPT_TUNING 1
#define LCESIM_RUY_OPT_INTRINSICS 1
#define LCESIM_RUY_OPT_MAX_STREAMING LCESIM_MAX_STREAMING
#else
#define LCESIM_RUY_OPT_ASM 0
#define LCESIM_RUY_OPT_TUNING 0
#define LCESIM_RUY_OPT_INTRINSICS 0
#define LCESIM_RUY_OPT_MAX_STREAMING 0
#endif
#endif
