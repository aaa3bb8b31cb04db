#include "model2050.h"
#include "cpu_common.h"
uint64_t step_count;
void setup_fp2050(void *rend) {}
extern void cycle_2050(void);
static void cpu_once(void)
{
    if (!load_line("2050F")) { fprintf(stderr, "HARNESS: can not configure the 2050\n"); exit(3); }
}
static void cpu_reset(void)
{
    int i;
    memset(&cpu_2050.LS, 0, sizeof cpu_2050.LS);
    memset(&cpu_2050.MP, 0, sizeof cpu_2050.MP);
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; INT_TMR = 1; LOAD = 0;
    START = STOP = STORE = DISPLAY = SET_IC = 0;
    for (i = 0; i < 100000; i++) { cycle_2050(); if (cpu_2050.ROAR == 0x150) break; }
}
static void cpu_go(uint32_t ia)
{
    cpu_2050.LS[0x17] = 0; cpu_2050.MASK = 0; cpu_2050.AMWP = 0; cpu_2050.KEY = 0; cpu_2050.CC = 0; cpu_2050.PMASK = 0;
    cpu_2050.wait = 0;
    INT_TMR = !timer_on;
    cpu_2050.IA_REG = ia; START = 1; cpu_2050.ROAR = 0x190; cpu_2050.REFETCH = 1; cpu_2050.mem_state = 0;
}
static void cpu_cycle(void) { cycle_2050(); }
static int cpu_waiting(void) { return cpu_2050.wait; }
static uint8_t getb(uint32_t a) { return M[a >> 2] >> (8 * (3 - (a & 3))); }
static void setb(uint32_t a, uint8_t v) { int s = 8 * (3 - (a & 3)); M[a >> 2] = (M[a >> 2] & ~((uint32_t)255 << s)) | ((uint32_t)v << s); }
static uint32_t getr(int n) { return cpu_2050.LS[0x30 + n]; }
static void setr(int n, uint32_t v) { cpu_2050.LS[0x30 + n] = v; }
static uint64_t getf(int n) { return (uint64_t)cpu_2050.LS[0x20 + n] << 32 | cpu_2050.LS[0x21 + n]; }
static void setf(int n, uint64_t v) { cpu_2050.LS[0x20 + n] = v >> 32; cpu_2050.LS[0x21 + n] = v; }
static int getk(uint32_t a) { return cpu_2050.MP[a >> 11] & 0xf; }
static void setk(uint32_t a, int k) { cpu_2050.MP[a >> 11] = k; }
static void cpu_psw(int *mask, int *key, int *amwp, int *cc, int *pm)
{
    *mask = cpu_2050.MASK; *key = cpu_2050.KEY; *amwp = cpu_2050.AMWP; *cc = cpu_2050.CC; *pm = cpu_2050.PMASK;
}
#ifndef EXTRA
static void extra_script(char *l) {}
static void extra_step(uint64_t c) {}
static void extra_end(void) {}
static int extra_busy(void) { return 0; }
#endif
