/* Stand-in for the x86 version so that the installed standard headers can be parsed for other targets. */
#if __SIZEOF_LONG__ == 8
# define __WORDSIZE 64
#else
# define __WORDSIZE 32
# define __WORDSIZE32_SIZE_ULONG 0
# define __WORDSIZE32_PTRDIFF_LONG 0
#endif
#define __WORDSIZE_TIME64_COMPAT32 0
#define __SYSCALL_WORDSIZE 64
