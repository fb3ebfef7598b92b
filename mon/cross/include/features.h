#define __GLIBC_PREREQ(a, b) 1
