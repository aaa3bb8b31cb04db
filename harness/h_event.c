/* Drives the real event scheduler from a script and records what happens.
   Script lines:  R            start a new run
                  a dev fn delay react...   schedule
                  c dev fn     cancel
                  t n          n clock steps
   react: n | a dev fn delay | c dev fn  (what the callback does, once)   */
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "event.h"
#include "device.h"

#define MAXEV 100000
static struct _device dev[8];
static int nid;
static struct { int d, f, kind, rd, rf, rt; } info[MAXEV];
static int first = 1;

static void ev(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (!first) putchar(',');
    first = 0;
    vprintf(fmt, ap); va_end(ap);
}
static void fire(int fn, struct _device *d, void *arg, int iarg);
static void cb0(struct _device *d, void *a, int i) { fire(0, d, a, i); }
static void cb1(struct _device *d, void *a, int i) { fire(1, d, a, i); }
static void cb2(struct _device *d, void *a, int i) { fire(2, d, a, i); }
static _callback cbs[3] = { cb0, cb1, cb2 };

static void do_add(int d, int f, int t, int kind, int rd, int rf, int rt) {
    int id = nid++;
    info[id].d = d; info[id].f = f; info[id].kind = kind;
    info[id].rd = rd; info[id].rf = rf; info[id].rt = rt;
    ev("[\"add\",%d,%d,%d,%d,%d,%d]", id, d, f, id * 3 + 1, id, t);
    add_event(&dev[d], cbs[f], t, (void *)(size_t)(id * 3 + 1), id);
}
static void do_cancel(int d, int f) {
    ev("[\"cancel\",%d,%d]", d, f);
    cancel_event(&dev[d], cbs[f]);
}
static void fire(int fn, struct _device *d, void *arg, int iarg) {
    int di = (int)(d - dev);
    if (d < dev || d >= dev + 8) di = -1;
    ev("[\"fire\",%d,%d,%d,%d,%d]", iarg, di, fn, (int)(size_t)arg, iarg);
    if (iarg >= 0 && iarg < nid) {
        int k = info[iarg].kind;
        info[iarg].kind = 'n';
        if (k == 'a')
            do_add(info[iarg].rd, info[iarg].rf, info[iarg].rt, 'n', 0, 0, 0);
        else if (k == 'c')
            do_cancel(info[iarg].rd, info[iarg].rf);
    }
}
int main(void) {
    char line[256];
    int started = 0;
    while (fgets(line, sizeof line, stdin)) {
        int d = 0, f = 0, t = 0, rd = 0, rf = 0, rt = 0; char k = 'n';
        switch (line[0]) {
        case 'R':
            if (started) puts("]");
            started = 1; first = 1; nid = 0;
            init_event();
            putchar('[');
            break;
        case 'a':
            sscanf(line + 1, "%d %d %d %c %d %d %d", &d, &f, &t, &k, &rd, &rf, &rt);
            do_add(d, f, t, k, rd, rf, rt);
            break;
        case 'c':
            sscanf(line + 1, "%d %d", &d, &f);
            do_cancel(d, f);
            break;
        case 't':
            sscanf(line + 1, "%d", &t);
            while (t-- > 0) { ev("[\"tick\"]"); advance(); ev("[\"tickend\"]"); }
            break;
        }
    }
    if (started) puts("]");
    return 0;
}
