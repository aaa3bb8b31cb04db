/* Real device models on a software channel (the channel of this harness).
 * Script, one operation per line:
 *   R delay seed mode trace stack  new run: largest response delay, random seed,
 *                              mode 0 multiplexer / 1 selector, record the bus, percentage of statuses stacked
 *   K LINE                     a line of configuration
 *   W NAME HEX                 a file
 *   D NAME n c.. / ..          a deck of cards given by their columns, as the file NAME
 *   B addr LABEL               press the button of the device's control panel
 *   X addr k TEXT              set the k-th text of the panel
 *   I addr cmd cnt perr HEX    start an operation (perr: 1 bad parity of the command, 2+k of data byte k)
 *   A n / N n                  n cycles serving requests / not serving them
 *   Q n max                    serve requests until nothing happens for n cycles
 *   H addr                     halt
 *   S                          system reset
 *   P 0|1                      suppress out
 *   V addr k                   report the cards of stacker k (saved through the panel)
 *   F NAME                     report a file
 *   E TEXT                     put TEXT into the recorded run
 */
#include <stdint.h>
#include <ctype.h>
#include <SDL.h>
#include <SDL_ttf.h>
#include "trace.h"
#include "device.h"
#include "event.h"
#include "conf.h"
#include "card.h"
#include "xlat.h"
uint64_t step_count;
/* ---- the panel, recorded */
#include "widgets.h"
#include "panel.h"
int POWER = 1;
TTF_Font *font0, *font1, *font10, *font12, *font14;
SDL_Color c_white, c_black, c_green, c_blue, c_gray, c_red, c_red_off, c_back, c_outline, c_label, c_on, c_off;
int SDLCALL TTF_SizeText(TTF_Font *f, const char *t, int *w, int *h) { if (w) *w = 10; if (h) *h = 12; return 0; }
static struct { char name[64]; void (*f)(void *, int); void *arg; int iarg; int *val; } but[64];
static int nbut, ntext;
static char texts[16][256];
static int dummy[256];
Panel create_window(char *t, int w, int h, int c) { nbut = ntext = 0; return (Panel)dummy; }
static void label_of(char *d, char *a, char *b) { sprintf(d, "%s%s%s", a ? a : "", b ? "-" : "", b ? b : ""); for (; *d; d++) if (*d == ' ') *d = '-'; }
Widget add_button(Panel win, int x, int y, int h, int w, char *l1, char *l2, int *value, TTF_Font *font, SDL_Color *f, SDL_Color *b, int t)
{ label_of(but[nbut].name, l1, l2); but[nbut].f = NULL; but[nbut++].val = value; return (Widget)dummy; }
Widget add_button_callback(Panel win, int x, int y, int h, int w, char *l1, char *l2, void (*cb)(void *, int), void *arg, int iarg, TTF_Font *font, SDL_Color *f, SDL_Color *b)
{ label_of(but[nbut].name, l1, l2); but[nbut].f = cb; but[nbut].arg = arg; but[nbut++].iarg = iarg; return (Widget)dummy; }
Widget add_textinput(Panel win, int x, int y, int h, int w, char *text) { return (Widget)texts[ntext++]; }
char *get_textbuffer(Widget w) { return (char *)w; }
Widget add_label(Panel win, int x, int y, char *txt, TTF_Font *font, SDL_Color *c) { return (Widget)dummy; }
Widget add_combo(Panel win, int x, int y, int h, int w, char *labels[], int *value, TTF_Font *font, SDL_Color *c, SDL_Color *b) { return (Widget)dummy; }
Widget add_number(Panel win, int x, int y, int h, int w, int *value, TTF_Font *font, SDL_Color *c, SDL_Color *b) { return (Widget)dummy; }
Widget add_area(Panel win, int x, int y, int h, int w, SDL_Color *col) { return (Widget)dummy; }
Widget add_indicator() { return (Widget)dummy; }
Widget add_checkbox() { return (Widget)dummy; }
/* ---- the channel */
static uint16_t tags, tin, bout = 0x100, bin = 0x100;
static int delay, mode, trace, stackp, dead, diskstep;
static unsigned rs;
static long cycles;
static unsigned rnd(void) { rs = rs * 1103515245u + 12345u; return (rs >> 16) & 0x7fff; }
#define PAR(b) (((b) & 0xff) | (__builtin_parity((b) & 0xff) ? 0 : 0x100))
static uint16_t last[40];
static void cyc(void) {
    device_t *d; uint16_t v[40]; int n = 0;
    tin = (tin & IN_TAGS) | tags;
    v[n++] = tags; v[n++] = bout; v[n++] = bin; v[n++] = tin & IN_TAGS;
    for (d = chan[0]; d != NULL; d = d->next) {
        d->bus_func(d, &tin, bout, &bin);
        if (n < 38) { v[n++] = tin; v[n++] = bin; }
    }
    if (trace && memcmp(v, last, n * sizeof v[0])) {
        int i; memcpy(last, v, sizeof v);
        ev("[\"b\",%d,%d,%d,%d,[", v[0], v[1], v[2], v[3]);
        for (i = 4; i < n; i += 2) more("%s[%d,%d]", i > 4 ? "," : "", v[i], v[i+1]);
        more("]]");
    }
    cycles++; step_count++; advance();
    if (diskstep) { step_disk(); step_disk(); }
}
static void dl(void) { int k = delay ? rnd() % (delay + 1) : 0; while (k-- > 0) cyc(); }
static int hang(const char *where) { if (!dead) ev("[\"hang\",\"%s\",%d]", where, tin); dead = 1; return 1; }
#define LIM 400000
/* run until the tags in m read w */
static int until(int m, int w, const char *where) {
    long k = 0;
    do { cyc(); if (k++ > LIM) { hang(where); return 0; } } while ((tin & m) != w);
    return 1;
}
static struct op_s { int cmd, n, pos, perr, stop, inn, from; uint8_t d[70000]; } op[256];
static int cur;                     /* address being served */
static void flush(int cur) {
    int i;
    if (op[cur].inn == 0 && op[cur].stop == 0) return;
    if (op[cur].cmd & 1) ev("[\"out\",%d,%d,%d]", cur, op[cur].inn, op[cur].stop);
    else { ev("[\"in\",%d,[", cur); for (i = 0; i < op[cur].inn; i++) more(i ? ",%d" : "%d", op[cur].d[op[cur].from + i]); more("],%d]", op[cur].stop); }
    op[cur].from += op[cur].inn; op[cur].inn = 0; op[cur].stop = 0;
}
static int may_stack;
static void service(void) {
    long k = 0;
    for (;;) {
        cyc();
        if (dead) return;
        if (k++ > LIM) { hang("service"); return; }
        if (!(tin & CHAN_OPR_IN)) { tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT); if (op[cur].stop) flush(cur); cyc(); cyc(); return; }
        if (tin & CHAN_SRV_IN) {
            dl();
            if (op[cur].pos >= op[cur].n) { op[cur].stop = 1; tags |= CHAN_CMD_OUT; }
            else {
                if (op[cur].cmd & 1) {
                    int b = op[cur].d[op[cur].pos];
                    bout = PAR(b) ^ (op[cur].perr == op[cur].pos + 2 ? 0x100 : 0);
                } else { op[cur].d[op[cur].pos] = bin & 0xff; bout = 0x100; }
                op[cur].pos++; op[cur].inn++;
                tags |= CHAN_SRV_OUT;
            }
            if (!until(CHAN_SRV_IN, 0, "srv")) return;
            dl(); tags &= ~(CHAN_SRV_OUT|CHAN_CMD_OUT);
        } else if (tin & CHAN_STA_IN) {
            int st = bin & 0xff, stk;
            flush(cur);
            dl();
            stk = may_stack && (int)(rnd() % 100) < stackp;
            ev("[\"est\",%d,%d,\"%s\"]", cur, st, stk ? "stk" : "acc");
            if ((st & 0x0c) || stk) tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
            tags |= stk ? CHAN_CMD_OUT : CHAN_SRV_OUT;
            if (!until(CHAN_STA_IN, 0, "sta")) return;
            dl(); tags &= ~(CHAN_SRV_OUT|CHAN_CMD_OUT);
        }
    }
}
static int start(int addr, int cmd) {
    int st, k = 0;
    cur = addr; may_stack = 0;
    bout = PAR(addr); tags |= CHAN_ADR_OUT; cyc(); dl();
    tags |= CHAN_SEL_OUT|CHAN_HLD_OUT;
    for (;;) {
        cyc();
        if (tin & CHAN_SEL_OUT) { ev("[\"io\",%d,%d,\"none\",0]", addr, cmd); dl(); tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT); cyc(); dl(); tags &= ~CHAN_ADR_OUT; cyc(); return 0; }
        if ((tin & (CHAN_OPR_IN|CHAN_STA_IN)) == CHAN_STA_IN) {
            st = bin & 0xff; dl();
            ev("[\"io\",%d,%d,\"busy\",%d]", addr, cmd, st);
            tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT);
            until(CHAN_STA_IN, 0, "busy"); dl(); cyc(); return 0;
        }
        if (tin & CHAN_OPR_IN) { dl(); tags &= ~CHAN_ADR_OUT; }
        if ((tin & (CHAN_OPR_IN|CHAN_ADR_IN)) == (CHAN_OPR_IN|CHAN_ADR_IN)) break;
        if (k++ > LIM) { hang("select"); return 1; }
    }
    if ((bin & 0xff) != addr) ev("[\"badaddr\",%d,%d]", addr, bin);
    dl();
    if (!mode) tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
    bout = PAR(cmd) ^ (op[addr].perr == 1 ? 0x100 : 0); cyc(); dl(); tags |= CHAN_CMD_OUT;
    if (!until(CHAN_ADR_IN, 0, "cmd")) return 1;
    dl(); tags &= ~CHAN_CMD_OUT;
    k = 0;
    while (!(tin & (CHAN_STA_IN|CHAN_SRV_IN)) && (tin & CHAN_OPR_IN)) { cyc(); if (k++ > LIM) { hang("initial"); return 1; } }
    if (!(tin & CHAN_STA_IN)) { ev("[\"io\",%d,%d,\"nostatus\",%d]", addr, cmd, tin); service(); return 1; }
    st = bin & 0xff; dl();
    ev("[\"io\",%d,%d,\"ok\",%d]", addr, cmd, st);
    if ((st & 0xbf) || cmd == 0) tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
    tags |= CHAN_SRV_OUT;
    if (!until(CHAN_STA_IN, 0, "accept")) return 1;
    dl(); tags &= ~CHAN_SRV_OUT;
    service();
    return !(st & 0x10);
}
static int poll(void) {
    int k = 0;
    dl();
    bout = 0x100; tags |= CHAN_SEL_OUT|CHAN_HLD_OUT;
    for (;;) {
        cyc();
        if ((tin & (CHAN_OPR_IN|CHAN_ADR_IN)) == (CHAN_OPR_IN|CHAN_ADR_IN)) break;
        if (tin & CHAN_SEL_OUT) { ev("[\"noone\"]"); tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT); cyc(); dl(); return 0; }
        if (k++ > LIM) { hang("poll"); return 0; }
    }
    cur = bin & 0xff; may_stack = 1;
    dl();
    if (!mode) tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
    bout = 0x100; tags |= CHAN_CMD_OUT;
    if (!until(CHAN_ADR_IN, 0, "poll cmd")) return 0;
    dl(); tags &= ~CHAN_CMD_OUT;
    service();
    return 1;
}
static device_t *dev_of(int addr) { device_t *d; for (d = chan[0]; d; d = d->next) if ((d->addr & 0xff & (d->n_units > 1 ? 0xf8 : 0xff)) == (addr & (d->n_units > 1 ? 0xf8 : 0xff))) return d; return NULL; }
static int panel_of(int addr) { device_t *d = dev_of(addr); if (!d) return 0; d->create_ctrl(d, d->n_units > 1 ? addr & 7 : 0, 0, 0); return 1; }
static void press(const char *l) {
    int i;
    for (i = 0; i < nbut; i++) if (!strcmp(but[i].name, l)) { if (but[i].f) but[i].f(but[i].arg, but[i].iarg); else *but[i].val = !*but[i].val; return; }
    fprintf(stderr, "HARNESS no button %s\n", l); exit(3);
}
static char line[600000];
static char *files[64]; static int nfiles;
static void use_file(const char *n) { int i; for (i = 0; i < nfiles; i++) if (!strcmp(files[i], n)) return; files[nfiles++] = strdup(n); }
static void cards(struct card_context *x) {
    uint16_t c[80]; int i, n, k = 0;
    while (read_card(x, &c) == 1) {
        for (n = 80; n > 0 && c[n-1] == 0; n--) ;
        more(k++ ? ",[" : "["); for (i = 0; i < n; i++) more(i ? ",%d" : "%d", c[i]); more("]");
        if (k > 3000) break;
    }
}
static int hexs(char *p, uint8_t *d) { unsigned b; int n = 0; while (sscanf(p, "%2x", &b) == 1 && isxdigit(p[0])) { d[n++] = b; p += 2; } return n; }
int main(void) {
    int a, b, c, d, i; char name[300], t[300]; char *p;
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        if (line[0] != 'R' && dead) continue;
        switch (line[0]) {
        case 'R':
            sscanf(line + 1, "%d %d %d %d %d", &delay, &a, &mode, &trace, &stackp); rs = a;
            run_start(); dead = 0;
            init_event(); for (i = 0; i < 8; i++) chan[i] = NULL;
            for (i = 0; i < nfiles; i++) { remove(files[i]); free(files[i]); } nfiles = 0;
            tags = CHAN_OPR_OUT; tin = 0; bout = bin = 0x100; cycles = 0; memset(last, 0, sizeof last); memset(op, 0, sizeof op);
            break;
        case 'K': a = load_line(line + 2); { device_t *q; ev("[\"conf\",%d,[", a); for (i = 0, q = chan[0]; q; q = q->next) more("%s[%d,%d]", i++ ? "," : "", q->addr & 0xff, q->n_units); more("]]"); } break;
        case 'W': { static uint8_t buf[300000]; FILE *f; sscanf(line + 1, "%s", name); use_file(name); p = strchr(line + 2, ' '); a = p ? hexs(p + 1, buf) : 0;
            f = fopen(name, "wb"); fwrite(buf, 1, a, f); fclose(f); break; }
        case 'D': { FILE *f; int n, k = 0; sscanf(line + 1, "%s", name); use_file(name); p = strchr(line + 2, ' '); n = strtol(p, &p, 10); f = fopen(name, "w");
            while (n-- > 0) { fputs("~raw", f); for (k = strtol(p, &p, 10), i = 0; i < 80; i++) fprintf(f, "%04lo", i < k ? strtol(p, &p, 10) : 0); fputc('\n', f); }
            fclose(f); break; }
        case 'X': sscanf(line + 1, "%x %d %s", &a, &b, t); panel_of(a); strcpy(texts[b], t); use_file(t); break;
        case 'B': sscanf(line + 1, "%x %s", &a, name); panel_of(a); press(name); ev("[\"btn\",%d,\"%s\"]", a, name); break;
        case 'L': { struct card_context *x = init_card_context(); /* deck to hopper through the panel: LOAD */
            sscanf(line + 1, "%x %s", &a, name); panel_of(a); strcpy(texts[0], name); press("LOAD");
            x->mode = MODE_AUTO; read_deck(x, name); ev("[\"load\",%d,[", a); cards(x); more("]]"); break; }
        case 'V': { struct card_context *x = init_card_context(); int k = 0;
            sscanf(line + 1, "%x %d", &a, &b); panel_of(a); static int nv; sprintf(name, "stack%d.deck", nv++ % 40); strcpy(texts[b], name); use_file(name); remove(name);
            for (i = 0; i < nbut; i++) if (!strcmp(but[i].name, "SAVE") && ++k == b) but[i].f(but[i].arg, but[i].iarg);
            k = 0; for (i = 0; i < nbut; i++) if (!strcmp(but[i].name, "EMPTY") && k++ == b) but[i].f(but[i].arg, but[i].iarg);
            x->mode = MODE_AUTO; read_deck(x, name); ev("[\"stacker\",%d,%d,[", a, b); cards(x); more("]]"); break; }
        case 'I': sscanf(line + 1, "%x %x %d %d", &a, &b, &c, &d); p = line; for (i = 0; i < 5 && p; i++) p = strchr(p + 1, ' ');
            { static uint8_t buf[70000]; static struct op_s old; int n = p ? hexs(p + 1, buf) : 0;
              ev("[\"sio\",%d,%d,%d,%d,[", a, b, c, d); for (i = 0; i < n; i++) more(i ? ",%d" : "%d", buf[i]); more("]]");
              old = op[a]; memcpy(op[a].d, buf, n); op[a].cmd = b; op[a].n = c; op[a].perr = d; op[a].pos = op[a].inn = op[a].stop = op[a].from = 0;
              if (!start(a, b)) op[a] = old;   /* the device was busy with the old one */
              break; }
        case 'A': sscanf(line + 1, "%d", &a); { long end = cycles + a; while (cycles < end && !dead) { cyc(); if ((tin & CHAN_REQ_IN) && !(tags & CHAN_SUP_OUT)) poll(); } } break;
        case 'N': sscanf(line + 1, "%d", &a); while (a-- > 0) cyc(); break;
        case 'Q': b = 100000; sscanf(line + 1, "%d %d", &a, &b); { long last = cycles, end = cycles + b; while (cycles - last < a && cycles < end && !dead) { cyc(); if ((tin & CHAN_REQ_IN) && !(tags & CHAN_SUP_OUT)) { poll(); last = cycles; } }
            ev("[\"quiet\",%d,%d]", cycles < end, a); } break;
        case 'P': tags &= ~CHAN_SUP_OUT; if (line[2] == '1') tags |= CHAN_SUP_OUT; cyc(); break;
        case 'S': for (i = 0; i < 256; i++) flush(i); tags = 0; cyc(); cyc(); tin &= ~CHAN_REQ_IN; ev("[\"reset\",%d]", tin & IN_TAGS & ~CHAN_REQ_IN); tags = CHAN_OPR_OUT; cyc(); cyc(); break;
        case 'H': sscanf(line + 1, "%x", &a); { int k = 0, was = 0;
            bout = PAR(a); tags |= CHAN_ADR_OUT; cyc(); dl(); tags |= CHAN_SEL_OUT|CHAN_HLD_OUT;
            for (;;) { cyc(); if (tin & (CHAN_OPR_IN|CHAN_STA_IN)) { was = tin & CHAN_STA_IN; break; } if (tin & CHAN_SEL_OUT) break; if (k++ > LIM) { hang("halt"); break; } }
            dl(); tags &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
            until(CHAN_OPR_IN|CHAN_STA_IN, 0, "halt drop"); dl(); tags &= ~CHAN_ADR_OUT; cyc(); cyc();
            flush(a); ev("[\"halt\",%d,%d]", a, !!was); break; }
        case 'F': { FILE *f; int ch; sscanf(line + 1, "%s", name); f = fopen(name, "rb"); ev("[\"file\",\"%s\",%d,[", name, f != NULL); i = 0;
            while (f && (ch = fgetc(f)) != EOF) more(i++ ? ",%d" : "%d", ch); if (f) fclose(f); more("]]"); break; }
        case 'E': ev("%s", line + 2); break;
        case 'U': sscanf(line + 1, "%s", name); use_file(name); break;
        case 'Z': sscanf(line + 1, "%d", &stackp); break;
        case 'd': diskstep = line[2] == '1'; break;
        }
    }
    run_end();
    for (i = 0; i < nfiles; i++) remove(files[i]);
    return 0;
}
