#include <stdint-gcc.h>
