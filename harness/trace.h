/* Helpers to write recorded runs: one JSON array of events per line. */
#ifndef TRACE_H
#define TRACE_H
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef RUN_LIMIT
#define RUN_LIMIT 40  /* seconds a single run may take before it counts as hung */
#endif
static int tr_first = 1, tr_open = 0;
static void ev(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (!tr_first) fputs(",", stdout);
    tr_first = 0;
    vprintf(fmt, ap); va_end(ap);
}
static void more(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vprintf(fmt, ap); va_end(ap);
}
static void run_end(void) { if (tr_open) { puts("]"); fflush(stdout); } tr_open = 0; }
static void run_start(void) { run_end(); alarm(RUN_LIMIT); tr_open = 1; tr_first = 1; putchar('['); }
#endif
