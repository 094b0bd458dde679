#define __WORDSIZE 32
#define __WORDSIZE_TIME64_COMPAT32 1
#define __SYSCALL_WORDSIZE 32
