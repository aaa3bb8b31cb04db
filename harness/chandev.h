/* Scripted control units for the channels of the processors.
 *   Z                           no devices
 *   V addr burst rate           a device; burst: keeps the multiplexer channel during its data; steps between bytes
 *   G                           ending status waits for a time when register 3 is over 3
 *   O addr n                    report n bytes of storage at the end
 *   b init n end1 end2 delay HEX  what it does on the next command: initial status, bytes it wants, ending status,
 *                               status that comes delay steps later (0: none), its data */
struct beh { int init, n, end1, end2, delay, len; uint8_t data[600]; };
struct chandev {
    struct _device d; int state, nb, cur, phase, stat, rdy, cnt, wait, polled, stacked, out, cmd, data, burst, rate, stop;
    struct beh b[12]; int ncmd; struct { int cmd, n, stop; uint8_t data[600]; } got[24];
};
static struct chandev cdev[4]; static int ncdev;
static struct { int a, n; } oarea[4]; static int noarea, gate;
enum { C_IDLE, C_SEL, C_CMD, C_STAT, C_ACC, C_REL, C_BUSY, C_OPR, C_D1, C_D2, C_END, C_EACC };
static int chandev_dir(int cmd) { return cmd & 1; }
static void chandev_begin(struct chandev *c, int cmd)
{
    struct beh *b;
    c->cmd = cmd;
    if (cmd == 0) { c->stat = 0; return; }
    if (c->ncmd < 24) { c->got[c->ncmd].cmd = cmd; c->got[c->ncmd].n = 0; c->got[c->ncmd].stop = 0; }
    c->ncmd++;
    if (c->cur >= c->nb) { c->stat = 0x0e; c->phase = 0; return; }
    b = &c->b[c->cur++];
    c->stat = b->init; c->cnt = 0; c->rdy = 0; c->stop = 0;
    c->phase = b->init == 0 ? 1 : (b->init & 4) || !(b->init & 8) ? 0 : 3;
    c->wait = c->phase == 3 ? b->delay : c->rate;
}
static void chandev_step(struct chandev *c)
{
    struct beh *b = &c->b[c->cur - 1];
    if (c->phase == 0 || c->rdy || c->stat) return;
    if (c->state == C_STAT || c->state == C_ACC || c->state == C_SEL || c->state == C_CMD || c->state == C_REL) return;
    if (c->wait > 0) { c->wait--; return; }
    if (c->phase == 1) {
        if (c->stop || c->cnt >= b->n) { if (gate && getr(3) <= 3 && !(c->burst && c->d.addr < 0x100)) return; c->stat = b->end1; c->phase = (b->end1 & 4) ? 0 : 3; c->wait = b->delay; }
        else { c->rdy = 1; c->data = c->cnt < b->len ? b->data[c->cnt] : 0; }
    } else if (!gate || getr(3) > 3) { c->stat = b->end2; c->phase = 0; }
}
static void chandev_func(struct _device *u, uint16_t *tags, uint16_t bus_out, uint16_t *bus_in)
{
    struct chandev *c = (struct chandev *)u->dev;
    int i, addr = u->addr & 0xff, want = c->stat != 0 || c->rdy;
    if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
        if (c->state != C_IDLE) *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
        *tags &= ~CHAN_REQ_IN;
        c->state = C_IDLE; c->phase = c->stat = c->rdy = c->stacked = 0;
        return;
    }
    switch (c->state) {
    case C_IDLE:
        if ((*tags & CHAN_OPR_OUT) == 0) break;
        if ((*tags & CHAN_OPR_IN) != 0) { if (want) *tags &= ~CHAN_REQ_IN; break; }
        if (want) { if ((*tags & (CHAN_SUP_OUT|CHAN_ADR_OUT)) == 0) *tags |= CHAN_REQ_IN; else *tags &= ~CHAN_REQ_IN; }
        if ((*tags & CHAN_SEL_OUT) == 0) break;
        if ((*tags & CHAN_ADR_OUT) != 0) {
            if ((bus_out & 0xff) != addr) break;
            *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
            if (c->phase != 0 && c->stat == 0) { *bus_in = SNS_BSY | odd_parity[SNS_BSY]; *tags |= CHAN_STA_IN; c->state = C_BUSY; break; }
            *tags |= CHAN_OPR_IN; *bus_in = addr | odd_parity[addr]; c->polled = 0; c->state = C_SEL; break;
        }
        if ((*tags & CHAN_SUP_OUT) == 0 && want) {
            *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN); *tags |= CHAN_OPR_IN; *bus_in = addr | odd_parity[addr]; c->polled = 1; c->state = C_SEL;
        }
        break;
    case C_SEL:
        *tags &= ~CHAN_SEL_OUT; *bus_in = addr | odd_parity[addr];
        if ((*tags & CHAN_ADR_OUT) == 0) { *tags |= CHAN_ADR_IN; c->state = C_CMD; }
        break;
    case C_CMD:
        *tags &= ~CHAN_SEL_OUT; *bus_in = addr | odd_parity[addr];
        if ((*tags & CHAN_CMD_OUT) != 0) {
            *tags &= ~CHAN_ADR_IN;
            if (c->polled) { c->state = c->stat ? C_STAT : C_D1; break; }
            if (c->stat == 0) chandev_begin(c, bus_out & 0xff);
            else c->polled = (bus_out & 0xff) ? 3 : 2;     /* status that was pending; with busy to a command */
            c->state = C_STAT; break;
        }
        if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) { *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN); c->state = C_REL; }
        break;
    case C_STAT:
        *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);
        if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) != 0) break;
        i = c->stat | (c->polled == 3 ? SNS_BSY : 0);
        *bus_in = i | odd_parity[i]; *tags |= CHAN_STA_IN; c->state = C_ACC;
        break;
    case C_ACC:
        i = c->stat | (c->polled == 3 ? SNS_BSY : 0);
        *tags &= ~CHAN_SEL_OUT; *bus_in = i | odd_parity[i];
        if ((*tags & CHAN_CMD_OUT) != 0) { c->stacked = 1; *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN); c->state = C_REL; break; }
        if ((*tags & CHAN_SRV_OUT) != 0) {
            int st = c->stat;
            *tags &= ~CHAN_STA_IN; c->stacked = 0; c->stat = 0;
            if ((c->phase == 1 && st == 0) || (c->phase == 3 && (*tags & CHAN_HLD_OUT) != 0)) { c->state = C_OPR; break; }   /* stays connected while the channel holds it */
            *tags &= ~CHAN_OPR_IN; c->state = C_REL; break;
        }
        break;
    case C_REL:
        *tags &= ~CHAN_SEL_OUT;
        if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT|CHAN_ADR_OUT)) == 0) { *tags &= ~CHAN_OPR_IN; c->state = C_IDLE; }
        break;
    case C_BUSY:
        *bus_in = SNS_BSY | odd_parity[SNS_BSY];
        if ((*tags & CHAN_SEL_OUT) == 0) {
            *tags &= ~CHAN_STA_IN; c->state = C_IDLE;
            if ((*tags & CHAN_ADR_OUT) != 0 && c->phase == 1) { c->rdy = 0; c->stop = 1; c->wait = 0; }
        }
        *tags &= ~CHAN_SEL_OUT;
        break;
    case C_OPR:
        *tags &= ~CHAN_SEL_OUT;
        if ((*tags & CHAN_ADR_OUT) != 0) { c->rdy = 0; c->stop = 1; c->wait = 0; *tags &= ~CHAN_OPR_IN; c->state = C_REL; break; }
        if (c->rdy) { c->state = C_D1; break; }
        if (c->stat) { c->state = C_STAT; break; }
        if ((!c->burst || c->phase == 3) && (*tags & CHAN_HLD_OUT) == 0 && (*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) == 0) { *tags &= ~CHAN_OPR_IN; c->state = C_IDLE; }
        break;
    case C_D1:
        *tags &= ~CHAN_SEL_OUT;
        if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT|CHAN_SUP_OUT)) != 0) break;
        *tags |= CHAN_SRV_IN; *bus_in = c->data | odd_parity[c->data]; c->state = C_D2;
        break;
    case C_D2:
        *tags &= ~CHAN_SEL_OUT; *bus_in = c->data | odd_parity[c->data];
        if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
            int g = c->ncmd - 1;
            *tags &= ~CHAN_SRV_IN; c->rdy = 0; c->wait = c->rate;
            if ((*tags & CHAN_CMD_OUT) != 0) { c->stop = 1; c->got[g].stop = 1; }
            else { if (chandev_dir(c->cmd)) c->got[g].data[c->cnt] = bus_out & 0xff; c->cnt++; c->got[g].n = c->cnt; }
            c->state = C_OPR;
        }
        break;
    }
}
static void extra_script(char *line)
{
    char *p = line + 1; int i; struct chandev *c;
    switch (line[0]) {
    case 'Z': for (i = 0; i < 8; i++) chan[i] = NULL; ncdev = noarea = gate = 0; break;
    case 'G': gate = 1; break;
    case 'O': oarea[noarea].a = strtol(p, &p, 0); oarea[noarea++].n = strtol(p, &p, 0); break;
    case 'V': c = &cdev[ncdev++]; memset(c, 0, sizeof *c);
              c->d.addr = strtol(p, &p, 16); c->burst = strtol(p, &p, 10); c->rate = strtol(p, &p, 10);
              c->d.bus_func = chandev_func; c->d.dev = c; c->d.n_units = 1;
              c->d.next = chan[c->d.addr >> 8]; chan[c->d.addr >> 8] = &c->d; break;
    case 'b': { struct beh *b; c = &cdev[ncdev - 1]; b = &c->b[c->nb++];
              b->init = strtol(p, &p, 0); b->n = strtol(p, &p, 0); b->end1 = strtol(p, &p, 0); b->end2 = strtol(p, &p, 0); b->delay = strtol(p, &p, 0);
              while (*p == ' ') p++;
              for (; p[0] && p[1]; p += 2) { char t[3] = {p[0], p[1], 0}; b->data[b->len++] = strtoul(t, 0, 16); } }
              break;
    }
}
#ifndef STEPEVERY
#define STEPEVERY 1
#endif
static void extra_step(uint64_t cyc) { int i; if (cyc % STEPEVERY == 0) for (i = 0; i < ncdev; i++) chandev_step(&cdev[i]); }
static int extra_busy(void) { int i; for (i = 0; i < ncdev; i++) if (cdev[i].phase || cdev[i].stat || cdev[i].rdy || cdev[i].state != C_IDLE) return 1; return 0; }
static void extra_end(void)
{
    int i, j, k;
    more(",\"dev\":[");
    for (i = 0; i < ncdev; i++) {
        more("%s[", i ? "," : "");
        for (j = 0; j < cdev[i].ncmd && j < 24; j++) {
            more("%s[%d,%d,%d,[", j ? "," : "", cdev[i].got[j].cmd, cdev[i].got[j].n, cdev[i].got[j].stop);
            if (chandev_dir(cdev[i].got[j].cmd)) for (k = 0; k < cdev[i].got[j].n; k++) more("%s%d", k ? "," : "", cdev[i].got[j].data[k]);
            more("]]");
        }
        more("]");
    }
    more("]");
    more(",\"o\":[");
    for (i = 0; i < noarea; i++) {
        more("%s[", i ? "," : "");
        for (j = 0; j < oarea[i].n; j++) more("%s%d", j ? "," : "", getb(oarea[i].a + j));
        more("]");
    }
    more("]");
}
