/* Configuration scanner: recording devices in the device table.
 *   R            new run
 *   L HEX        load_line of the text
 *   F HEX        load_config of a file with this content
 */
#include "device.h"
#include "conf.h"
#include "trace.h"
uint64_t step_count;
static int n_made;
static char *idx_list[] = {"ONE", "TWO", "THREE", NULL};
static int n_out;
static void str(const char *s) {  /* as character codes */
    int i; more("["); for (i = 0; s[i]; i++) more(i ? ",%d" : "%d", s[i] & 255); more("]");
}
static int rec(const char *name, struct _option *opt, int with_opts) {
    struct _option o; int n = 0, v, ok = 1;
    static char buf[1 << 16];
    more(n_out++ ? ",[" : "["); str(name); more(","); str(opt->opt);
    more(",%d,%d,%d,%d,%d,[", opt->model & 255, (opt->flags & 1) ? opt->dash_num : -1, (opt->flags & 2) ? opt->slash_num : -1, opt->flags, with_opts == 1 ? opt->addr : -1);
    while (get_option(&o)) {
        if (o.opt[0] == 0) { ok = 0; break; }
        if (++n > 600) { ok = 0; break; }
        more(n > 1 ? ",[" : "["); str(o.opt); more(",%d,", o.flags); str(o.string);
        v = -7;
        { int r = get_integer(&o, &v); more(",%d,%d", !!r, r ? v : 0); }
        more(",%d]", get_index(&o, idx_list));
        if (strcmp(o.opt, "FAIL") == 0) { ok = 0; break; }
    }
    more("],%d]", ok);
    return ok;
}
#define DEFDEV(id, nm, type, w) \
  static int mk_##id(struct _option *o) { return rec(nm, o, w); } \
  DEV_LIST_SECTION struct _control model_##id = { nm, type, 0, mk_##id, NULL, DEV_LIST_MAGIC };
DEFDEV(a, "TCPU", CPU_TYPE, 0)
DEFDEV(b, "7777", CPU_TYPE, 0)
DEFDEV(c, "8888", DEV_TYPE, 1)
DEFDEV(d, "DEVA", DEV_TYPE, 1)
DEFDEV(e, "CTRLB", CTRL_TYPE, 1)
DEFDEV(f, "88", UNIT_TYPE, 1)
DEFDEV(g, "LOGT", LOG_TYPE, 0)
DEFDEV(h, "HEADX", HEAD_TYPE, 0)
DEFDEV(i, "A9", UNIT_TYPE, 1)
static char text[1 << 16];
static int unhex(const char *p) {
    int n = 0; unsigned v;
    while (sscanf(p, "%2x", &v) == 1 && p[0] > ' ' && p[1] > ' ') { text[n++] = v; p += 2; }
    text[n] = 0;
    return n;
}
int main(void) {
    static char line[1 << 17]; int n, i, r; FILE *f;
    while (fgets(line, sizeof line, stdin)) {
        if (line[0] == 'R') { run_start(); continue; }
        n = unhex(line + 2);
        ev(line[0] == 'L' ? "[\"line\",[" : "[\"file\",[");
        for (i = 0; i < n; i++) more(i ? ",%d" : "%d", text[i] & 255);
        more("],["); n_out = 0;
        if (line[0] == 'L') r = load_line(text);
        else {
            if ((f = fopen("conf.txt", "w")) == NULL) { fprintf(stderr, "HARNESS no file\n"); return 3; }
            fwrite(text, 1, n, f); fclose(f);
            r = load_config("conf.txt");
            unlink("conf.txt");
        }
        more("],%d]", r);
    }
    run_end();
    return 0;
}
