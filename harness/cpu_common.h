/* Shared part of the two processor harnesses. A script describes the machine
   before each run; the run ends when the processor has been in the wait state
   for a while (or at the cycle limit). One JSON array per run is written.

   N <label>                     new run
   S <bytes>                     storage size
   r <n> <hex8> | f <n> <hex16>  general / floating register
   m <addr> <hex>                storage bytes
   k <addr> <key>                storage key of the block at addr
   T <cycle> <n>                 n interval timer pulses, at these cycles
   I <cycle>                     interrupt key pressed
   E                             the interval timer is enabled
   X <cycles>                    run                                        */
#include <stdint.h>
#include "trace.h"
#include "device.h"
#include "cpu.h"
#include "conf.h"
#include "xlat.h"
#include "logger.h"
#include "event.h"
extern uint64_t step_count;
#define MAXMEM 65536
static uint8_t  before[MAXMEM];
static uint32_t size = 32768;
static int      ntim; static struct { uint64_t c; int n; } tim[64];
static int      timer_on;
static int      nint; static uint64_t intr[8];
static void     extra_script(char *line);
static void     extra_step(uint64_t cyc);
static void     extra_end(void);
static int      extra_busy(void);

/* provided by the model */
static void cpu_once(void); static void cpu_reset(void); static void cpu_go(uint32_t ia);
static int cpu_waiting(void);
static uint8_t getb(uint32_t a); static void setb(uint32_t a, uint8_t v);
static uint32_t getr(int n); static void setr(int n, uint32_t v);
static uint64_t getf(int n); static void setf(int n, uint64_t v);
static int getk(uint32_t a); static void setk(uint32_t a, int k);
static void cpu_psw(int *mask, int *key, int *amwp, int *cc, int *pm);
static void cpu_cycle(void);

static void do_run(uint64_t max)
{
    uint64_t c; int quiet = 0, i, j, waiting = 0; uint32_t a;
    int mask, key, amwp, cc, pm;
    for (a = 0; a < size; a++) before[a] = getb(a);
    cpu_go(8);
    for (c = 0; c < max; c++) {
        for (i = 0; i < ntim; i++) if (tim[i].n > 0 && c >= tim[i].c) { timer_event = 1; tim[i].n--; tim[i].c = c + 3000; quiet = -1200; break; }
        for (i = 0; i < nint; i++) if (intr[i] == c) { INTR = 1; quiet = -1200; }
        cpu_cycle();
        extra_step(c);
        step_count++;
        if (cpu_waiting() && !extra_busy()) { if (++quiet > 400) { int more_ = 0;
              for (i = 0; i < ntim; i++) if (tim[i].n) more_ = 1;
              for (i = 0; i < nint; i++) if (intr[i] > c) more_ = 1;
              if (!more_) { waiting = 1; break; } } }
        else if (quiet > 0) quiet = 0;
        else if (quiet < 0) quiet++;
    }
    cpu_psw(&mask, &key, &amwp, &cc, &pm);
    ev("{\"e\":\"end\",\"wait\":%s,\"psw\":[%d,%d,%d,%d,%d],\"r\":[", waiting ? "true" : "false", mask, key, amwp, cc, pm);
    for (i = 0; i < 16; i++) { uint32_t v = getr(i);
        more("%s[%d,%d,%d,%d]", i ? "," : "", v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255); }
    more("],\"f\":[");
    for (i = 0; i < 8; i += 2) { uint64_t v = getf(i); more("%s[", i ? "," : "");
        for (j = 56; j >= 0; j -= 8) more("%s%d", j < 56 ? "," : "", (int)(v >> j) & 255);
        more("]"); }
    more("],\"k\":[");
    for (a = 0; a < size; a += 2048) more("%s%d", a ? "," : "", getk(a));
    more("],\"m\":[");
    for (j = 0, a = 0; a < size; a++) if (getb(a) != before[a]) {
        uint32_t b = a; more("%s[%d,[", j++ ? "," : "", a);
        /* a run of bytes of which no two neighbours are unchanged */
        while (b < size && (getb(b) != before[b] || (b + 1 < size && getb(b + 1) != before[b + 1]))) {
            more("%s%d", b > a ? "," : "", getb(b)); b++; }
        more("]]"); a = b; }
    more("]");
    extra_end();
    more("}");
}

static void initial(void)
{
    /* written by the script's author: the run's description */
}

int main(int argc, char **argv)
{
    static char line[400000];
    int i; uint32_t a; char *p;
    mem_max = MAXMEM - 1;
    cpu_once();
    while (fgets(line, sizeof line, stdin)) {
        p = line + 1; line[strcspn(line, "\n")] = 0;
        switch (line[0]) {
        case 'N': run_start(); more("%s", line + 2); tr_first = 0;
                  size = 32768; ntim = nint = timer_on = 0; INTR = 0; timer_event = 0;
                  mem_max = MAXMEM - 1;
                  for (a = 0; a < MAXMEM; a++) setb(a, 0);
                  cpu_reset();
                  for (a = 0; a < MAXMEM; a++) setb(a, 0);
                  for (i = 0; i < 16; i++) setr(i, 0);
                  for (i = 0; i < 8; i += 2) setf(i, 0);
                  for (a = 0; a < MAXMEM; a += 2048) setk(a, 0);
                  break;
        case 'S': size = strtoul(p, 0, 0); mem_max = size - 1; break;
        case 'r': i = strtol(p, &p, 10); setr(i, strtoul(p, 0, 16)); break;
        case 'f': i = strtol(p, &p, 10); setf(i, strtoull(p, 0, 16)); break;
        case 'k': a = strtoul(p, &p, 0); setk(a, strtol(p, 0, 0)); break;
        case 'm': a = strtoul(p, &p, 0); while (*p == ' ') p++;
                  for (; p[0] && p[1]; p += 2) { char t[3] = {p[0], p[1], 0}; setb(a++, strtoul(t, 0, 16)); }
                  break;
        case 'T': tim[ntim].c = strtoul(p, &p, 0); tim[ntim++].n = strtol(p, 0, 0); break;
        case 'I': intr[nint++] = strtoul(p, 0, 0); break;
        case 'E': timer_on = 1; break;
        case 'X':
#ifdef FORKRUN      /* the state of the channels is not part of what a run may begin with */
                  { pid_t c; int st; fflush(stdout); c = fork();
                    if (c == 0) { do_run(strtoull(p, 0, 0)); fflush(stdout); _exit(0); }
                    if (c < 0 || waitpid(c, &st, 0) != c || st != 0) { fprintf(stderr, "HARNESS: the run died (%x)\n", st); exit(4); } }
#else
                  do_run(strtoull(p, 0, 0));
#endif
                  break;
        case '#': break;
        default: extra_script(line);
        }
    }
    run_end();
    return 0;
}
