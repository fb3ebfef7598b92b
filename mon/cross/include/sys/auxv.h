#pragma once
#define AT_HWCAP 16
#define AT_HWCAP2 26
extern "C" unsigned long getauxval(unsigned long type);
