#include_next <bits/pthreadtypes-arch.h>
#undef __cleanup_fct_attribute
#define __cleanup_fct_attribute
