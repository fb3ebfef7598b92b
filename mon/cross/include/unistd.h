#pragma once
#include <stddef.h>
extern "C" long syscall(long n, ...);
