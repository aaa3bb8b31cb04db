#include <stdint.h>
uint64_t step_count;
