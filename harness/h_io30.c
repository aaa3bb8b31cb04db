#define EXTRA
#define FORKRUN
#include <unistd.h>
extern pid_t waitpid(pid_t, int *, int);
#include "h_cpu30.c"
#include "chandev.h"
