#define __x86_64__ 1
#include_next <bits/wordsize.h>
#undef __x86_64__
