/* Device lists: drives add_chan/find_chan/del_chan/add_disk/del_disk/step_disk/
 * system_init/system_shutdown and records what they do.
 *   R                new run (everything removed)
 *   a ID ADDR        add device ID
 *   d ID ADDR        delete device ID
 *   f ADDR MASK      find
 *   A ID             add disk ID     D ID  delete disk ID
 *   s                step            i  init all   c  close all
 */
#include "device.h"
#include "trace.h"
uint64_t step_count;
#define ND 16
static struct _device dv[ND];
static char dk[ND];
static int log_n, logv[1000];
static void on_init(struct _device *d, void *r) { if (log_n < 1000) logv[log_n++] = d - dv; }
static void on_close(struct _device *d) { if (log_n < 1000) logv[log_n++] = d - dv; }
static void on_step(void *p) { if (log_n < 1000) logv[log_n++] = (char *)p - dk; }
static void list(void) { int i; more("["); for (i = 0; i < log_n; i++) more(i ? ",%d" : "%d", logv[i]); more("]"); }
static void chains(void) {
    int c; struct _device *d;
    more("[");
    for (c = 0; c < (int)(sizeof chan / sizeof chan[0]); c++) {
        int n = 0;
        more(c ? ",[" : "[");
        for (d = chan[c]; d && n < 40; d = d->next) more(n++ ? ",%d" : "%d", (int)(d - dv));
        more("]");
    }
    more("]");
}
int main(void) {
    char line[200]; int a, b, i;
    while (fgets(line, sizeof line, stdin)) {
        switch (line[0]) {
        case 'R':
            run_start();
            memset(chan, 0, sizeof chan);
            while (disk) { struct _disk *n = disk->next; free(disk); disk = n; }
            for (i = 0; i < ND; i++) { memset(&dv[i], 0, sizeof dv[i]); if (i % 3) dv[i].init_device = on_init; if (i % 4) dv[i].close_device = on_close; dv[i].next = (void *)0x5a5a; }
            break;
        case 'a': sscanf(line + 1, "%d %d", &a, &b); add_chan(&dv[a], b); ev("[\"add\",%d,%d,%d,", a, b, dv[a].addr); chains(); more("]"); break;
        case 'd': sscanf(line + 1, "%d %d", &a, &b); del_chan(&dv[a], b); ev("[\"del\",%d,%d,", a, b); chains(); more("]"); break;
        case 'f': { struct _device *d; sscanf(line + 1, "%d %d", &a, &b); d = find_chan(a, b); ev("[\"find\",%d,%d,%d]", a, b, d ? (int)(d - dv) : -1); break; }
        case 'A': sscanf(line + 1, "%d", &a); add_disk(on_step, &dk[a]); ev("[\"adisk\",%d]", a); break;
        case 'D': sscanf(line + 1, "%d", &a); del_disk(&dk[a]); ev("[\"ddisk\",%d]", a); break;
        case 's': log_n = 0; step_disk(); ev("[\"step\","); list(); more("]"); break;
        case 'i': log_n = 0; system_init(NULL); ev("[\"init\","); list(); more("]"); break;
        case 'c': log_n = 0; system_shutdown(); ev("[\"close\","); list(); more("]"); break;
        }
    }
    run_end();
    return 0;
}
