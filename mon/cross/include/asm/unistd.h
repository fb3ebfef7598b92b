#pragma once
#ifdef __riscv
#define __NR_riscv_hwprobe 258
#endif
