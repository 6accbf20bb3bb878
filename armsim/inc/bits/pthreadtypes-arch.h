#define __x86_64__ 1
#include_next <bits/pthreadtypes-arch.h>
#undef __x86_64__
