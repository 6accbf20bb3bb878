#ifndef RUY_RUY_CHECK_MACROS_H_
#define RUY_RUY_CHECK_MACROS_H_
// Debug checks of ruy are contracts of the LCE kernels; the simulator turns a
// failed one into a recorded violation instead of an abort.
extern "C" void lcesim_check_failed(const char* file, int line, const char* cond);
#define LCESIM_CHECK_(cond, text) \
  do { if (!(cond)) lcesim_check_failed(__FILE__, __LINE__, text); } while (0)
#define RUY_CHECK(c) LCESIM_CHECK_((c), #c)
#define RUY_CHECK_EQ(a, b) LCESIM_CHECK_((a) == (b), #a " == " #b)
#define RUY_CHECK_NE(a, b) LCESIM_CHECK_((a) != (b), #a " != " #b)
#define RUY_CHECK_LE(a, b) LCESIM_CHECK_((a) <= (b), #a " <= " #b)
#define RUY_CHECK_LT(a, b) LCESIM_CHECK_((a) < (b), #a " < " #b)
#define RUY_CHECK_GE(a, b) LCESIM_CHECK_((a) >= (b), #a " >= " #b)
#define RUY_CHECK_GT(a, b) LCESIM_CHECK_((a) > (b), #a " > " #b)
#define RUY_DCHECK(c) RUY_CHECK(c)
#define RUY_DCHECK_EQ(a, b) RUY_CHECK_EQ(a, b)
#define RUY_DCHECK_NE(a, b) RUY_CHECK_NE(a, b)
#define RUY_DCHECK_LE(a, b) RUY_CHECK_LE(a, b)
#define RUY_DCHECK_LT(a, b) RUY_CHECK_LT(a, b)
#define RUY_DCHECK_GE(a, b) RUY_CHECK_GE(a, b)
#define RUY_DCHECK_GT(a, b) RUY_CHECK_GT(a, b)
#endif
