#include "model2030.h"
#include "cpu_common.h"
uint64_t step_count;
void setup_fp2030(void *rend) {}
#ifndef OWN1052
void model1052_out(void *ctx, uint16_t out_char) {}
void model1052_in(void *ctx, uint16_t *in_char) {}
void model1052_func(void *ctx, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_request) {}
void *model1052_init_ctx(uint16_t port) { return NULL; }
#endif
extern void cycle_2030(void);
static void put(int a, int v) { cpu_2030.LS[a] = (v & 0xff) | odd_parity[v & 0xff]; }
static void cpu_once(void)
{
    if (!load_line("2030F/1")) { fprintf(stderr, "HARNESS: can not configure the 2030\n"); exit(3); }
    model2030_init(NULL, 0);
}
static void cpu_reset(void)
{
    int i;
    memset(&cpu_2030.LS, 0, sizeof cpu_2030.LS);
    memset(&cpu_2030.MP, 0, sizeof cpu_2030.MP);
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; INT_TMR = 1; LOAD = 0;
    START = STOP = STORE = DISPLAY = SET_IC = 0;
    for (i = 0; i < 100000; i++) { cycle_2030(); if (cpu_2030.WX == 0x328) break; }
}
static void cpu_go(uint32_t ia)
{
    put(0x7AA, ia); put(0x7A9, ia >> 8);
    put(0x7b8, 0); put(0x7b9, 0); put(0x7bb, 0);
    cpu_2030.MASK = 0; cpu_2030.ASCII = 0; cpu_2030.Q_REG = 0x100;
    cpu_2030.WX = 0x102;
    START = 1; INT_TMR = timer_on;
    cpu_2030.I_REG = (ia >> 8) | odd_parity[ia >> 8];
    cpu_2030.J_REG = (ia & 0xff) | odd_parity[ia & 0xff];
}
static void cpu_cycle(void) { cycle_2030(); }
static int cpu_waiting(void) { return (cpu_2030.LS[0x7b9] & 2) != 0; }
static uint8_t getb(uint32_t a) { return M[a] & 0xff; }
static void setb(uint32_t a, uint8_t v) { M[a] = v | odd_parity[v]; }
static uint32_t getr(int n) { uint32_t v = 0; int i; for (i = 0; i < 4; i++) v = v << 8 | (cpu_2030.LS[0x700 + (n << 4) + i] & 0xff); return v; }
static void setr(int n, uint32_t v) { int i; for (i = 0; i < 4; i++) put(0x700 + (n << 4) + i, v >> (24 - 8 * i)); }
static uint64_t getf(int n) { uint64_t v = 0; int i; for (i = 8; i < 16; i++) v = v << 8 | (cpu_2030.LS[0x700 + (n << 4) + i] & 0xff); return v; }
static void setf(int n, uint64_t v) { int i; for (i = 0; i < 8; i++) put(0x708 + (n << 4) + i, v >> (56 - 8 * i)); }
static int getk(uint32_t a) { return cpu_2030.MP[0xe0 | (a >> 11)] & 0xf; }
static void setk(uint32_t a, int k) { cpu_2030.MP[0xe0 | (a >> 11)] = k; }
static void cpu_psw(int *mask, int *key, int *amwp, int *cc, int *pm)
{
    *mask = cpu_2030.MASK; *key = (cpu_2030.Q_REG >> 4) & 15; *amwp = cpu_2030.LS[0x7b9] & 15;
    *cc = cpu_2030.LS[0x7bb] & 0xf0; *pm = cpu_2030.LS[0x7bb] & 15;
}
#ifndef EXTRA
static void extra_script(char *l) {}
static void extra_step(uint64_t c) {}
static void extra_end(void) {}
static int extra_busy(void) { return 0; }
#endif
