#define EXTRA
#define FORKRUN
#include <unistd.h>
extern pid_t waitpid(pid_t, int *, int);
#define STEPEVERY 2
#include "h_cpu50.c"
#include "chandev.h"
