/* Drives the real tape functions from a script and records calls and results. */
#include <sys/stat.h>
#include <unistd.h>
#include <stdint.h>
#include <sys/types.h>
#include "trace.h"
#include "tape.h"

static struct _tape_buffer tape;
static int fmt;
static char fname[64];
#define MOD (fmt == TYPE_P7B ? 128 : 256)
static FILE *mk;
static void put_item(int n, int b, int s) {
    int i; unsigned char h[4] = { n & 0xff, n >> 8, n >> 16, 0 };
    if (fmt == TYPE_P7B) {
        if (n == 0) { fputc(0x8f, mk); return; }
        for (i = 0; i < n; i++) fputc(((b + s * i) % 128) | (i == 0 ? 0x80 : 0), mk);
        return;
    }
    fwrite(h, 1, 4, mk);
    if (n == 0) return;
    for (i = 0; i < n; i++) fputc((b + (long)s * i) & 0xff, mk);
    if (fmt == TYPE_TAP && (n & 1)) fputc(0, mk);
    fwrite(h, 1, 4, mk);
}
/* write bytes as maximal arithmetic progressions */
static void segs(unsigned char *d, int n) {
    int i = 0, c = 0;
    more("[");
    while (i < n) {
        int j = i + 1, st = 0;
        if (j < n) { st = (d[j] - d[i] + MOD) % MOD;
            while (j < n && (d[j] - d[j-1] + MOD) % MOD == st) j++; }
        if (c++) more(",");
        if (c > 200) { more("[-1,0,0]"); break; }
        more("[%d,%d,%d]", j - i, d[i], st);
        i = j;
    }
    more("]");
}
static void one_item(unsigned char *d, int n, int *c) {
    if ((*c)++) more(",");
    if (n == 0) { more("[0,0,0]"); return; }
    int i, st = n > 1 ? (d[1] - d[0] + MOD) % MOD : 0, good = 1;
    for (i = 2; i < n; i++) if ((d[i] - d[i-1] + MOD) % MOD != st) good = 0;
    if (good) more("[%d,%d,%d]", n, d[0], st); else more("[%d,-1,-1]", n);
}
static void dump(void) {
    struct stat sb; FILE *f = fopen(fname, "rb"); int c = 0; const char *tl = "end"; long i, n;
    if (!f) { ev("[\"file\",[],\"missing\"]"); return; }
    fstat(fileno(f), &sb); n = sb.st_size;
    unsigned char *b = malloc(n + 16);
    if (fread(b, 1, n, f) != n) exit(3);
    fclose(f);
    if (n <= 240) {
        ev("[\"raw\",[");
        for (i = 0; i < n; i++) more("%s%d", i ? "," : "", b[i]);
        more("]]");
    } else {
        ev("[\"file\",[");
        i = 0;
        if (fmt == TYPE_P7B) {
            while (i < n) {
                if (b[i] == 0x8f) { one_item(NULL, 0, &c); i++; continue; }
                if (!(b[i] & 0x80)) { tl = "bad"; break; }
                long e = i + 1; while (e < n && !(b[e] & 0x80)) e++;
                b[i] &= 0x7f;
                one_item(b + i, e - i, &c); i = e;
            }
        } else while (i < n) {
            if (i + 4 > n) { tl = "bad"; break; }
            uint32_t len = b[i] | b[i+1] << 8 | b[i+2] << 16 | (uint32_t)b[i+3] << 24, l2;
            if (len == 0) { one_item(NULL, 0, &c); i += 4; continue; }
            if (len == 0xffffffff) { tl = i + 4 == n ? "eom" : "bad"; break; }
            long e = i + 4 + (long)len + (fmt == TYPE_TAP ? (len & 1) : 0);
            if (e + 4 > n) { tl = "bad"; break; }
            l2 = b[e] | b[e+1] << 8 | b[e+2] << 16 | (uint32_t)b[e+3] << 24;
            if (l2 != len) { tl = "bad"; break; }
            one_item(b + i + 4, len, &c); i = e + 4;
        }
        more("],\"%s\"]", tl);
    }
    free(b);
}
static void frames(int n) {
    unsigned char *buf = malloc(n + 1); int got = 0, ret = 0;
    while (got < n) {
        uint8_t d = 0xEE;
        ret = tape_read_frame(&tape, &d);
        if (ret != TAPE_STATUS_OK) break;
        buf[got++] = d;
    }
    ev("[\"rframes\",%d,", n); segs(buf, got); more(",%d]", ret);
    free(buf);
}
int main(void) {
    char line[4096]; int a, b, c, n, i, r;
    strcpy(fname, "tape.img");
    tape_init();
    while (fgets(line, sizeof line, stdin)) {
        char *p = line + 1;
        switch (line[0]) {
        case 'R': run_start(); memset(&tape, 0, sizeof tape); tape.fd = -1; unlink(fname); break;
        case 'F': { int eom, cnt; 
            sscanf(p, "%d %d %d%n", &fmt, &eom, &cnt, &n); p += n;
            mk = fopen(fname, "wb");
            ev("[\"mkfile\",%d,%d,[", fmt, eom);
            for (i = 0; i < cnt; i++) {
                sscanf(p, "%d %d %d%n", &a, &b, &c, &n); p += n;
                put_item(a, b, c);
                more("%s[%d,%d,%d]", i ? "," : "", a, b, a > 1 ? c : 0);
            }
            more("]]");
            if (eom) for (i = 0; i < 4; i++) fputc(0xff, mk);
            fclose(mk);
            break; }
        case 'A': sscanf(p, "%d %d", &a, &b);
            r = tape_attach(&tape, fname, fmt, a, b);
            ev("[\"attach\",%d,%d,%d]", fmt, a, r);
            break;
        case 'D': tape_detach(&tape); ev("[\"detach\"]"); dump(); break;
        case 'W': sscanf(p, "%d %d %d", &n, &b, &c);
            r = tape_write_start(&tape); ev("[\"wstart\",%d]", r);
            if (r == TAPE_STATUS_OK) {
                for (i = 0; i < n && r == TAPE_STATUS_OK; i++) r = tape_write_frame(&tape, (b + (long)c * i) % MOD);
                ev("[\"wframes\",%d,%d,%d,%d]", b, c, n, r);
                r = tape_finish_rec(&tape); ev("[\"finish\",%d]", r);
            }
            break;
        case 'M': r = tape_write_mark(&tape); ev("[\"mark\",%d]", r);
            if (r == TAPE_STATUS_OK) { r = tape_finish_rec(&tape); ev("[\"finish\",%d]", r); }
            break;
        case 'r': case 'b': sscanf(p, "%d %d", &n, &a);
            r = line[0] == 'r' ? tape_read_forw(&tape) : tape_read_back(&tape);
            ev("[\"%s\",%d]", line[0] == 'r' ? "rforw" : "rback", r);
            if (r == TAPE_STATUS_OK) {
                frames(n); if (a) frames(a);
                r = tape_finish_rec(&tape); ev("[\"finish\",%d]", r);
            } else if (r == TAPE_STATUS_MARK) {
                if (a) frames(1);
                r = tape_finish_rec(&tape); ev("[\"finish\",%d]", r);
            }
            break;
        case 'Z': r = tape_start_rewind(&tape);
            if (tape.file_name == NULL) r = tape_rewind_frames(&tape, 100);
            else for (i = 0; i < 2000000 && (r = tape_rewind_frames(&tape, 3840)) == TAPE_STATUS_OK; i++) ;
            ev("[\"rewind\",%d]", r);
            break;
        case 'Q': ev("[\"q\",%d,%d,%d]", !!tape_at_loadpt(&tape), !!tape_ready(&tape), !!tape_ring(&tape)); break;
        }
    }
    run_end();
    unlink(fname);
    return 0;
}
