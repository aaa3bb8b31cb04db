/* Drives the card functions; cards are numbered (mode "n") or given in full (mode "f"). */
#include <stdint.h>
#include "trace.h"
#include "card.h"
static struct card_context *ctx[3];
static void make(int id, uint16_t *c) {
    int i; char b[16];
    memset(c, 0, 160);
    if (id == 0) return;
    if (id % 5 == 4) { /* not text */
        c[0] = 0xfff; c[1] = id & 0xfff; c[2] = id >> 12;
        for (i = 3; i < 80; i++) c[i] = (id * 31 + i * 77) & 0xfff;
    } else {
        sprintf(b, "%08d", id);
        for (i = 0; i < 8; i++) c[i] = ascii_to_hol(b[i]);
        for (; i < 80; i++) c[i] = (id + i) % 11 ? ascii_to_hol('A' + (id * 3 + i) % 26) : 0;
    }
}
static int id_of(uint16_t *c) {
    uint16_t t[80]; int i, id = 0;
    for (i = 0; i < 80 && c[i] == 0; i++) ;
    if (i == 80) return 0;
    if (c[0] == 0xfff) id = c[1] | c[2] << 12;
    else for (i = 0; i < 8; i++) { int d; for (d = 0; d < 10; d++) if (ascii_to_hol('0' + d) == c[i]) break; if (d == 10) return -1; id = id * 10 + d; }
    if (id <= 0) return -1;
    make(id, t);
    return memcmp(t, c, 160) ? -1 : id;
}
static void segs(int *v, int n) {
    int i = 0, k = 0;
    more("[");
    while (i < n) {
        int j = i + 1, s = 0;
        if (j < n) { s = v[j] - v[i]; while (j < n && v[j] - v[j-1] == s) j++; }
        more("%s[%d,%d,%d]", k++ ? "," : "", j - i, v[i], s); i = j;
    }
    more("]");
}
static void write_file(const char *name, int b, int n) { /* automatic format */
    FILE *f = fopen(name, "wb"); uint16_t c[80]; int i, k;
    for (i = 0; i < n; i++) {
        make(b + i, c);
        if ((b + i) % 5 == 4 && b + i) { fputs("~raw", f); for (k = 0; k < 80; k++) fprintf(f, "%04o", c[k]); }
        else for (k = 0; k < 80; k++) { uint8_t ch = hol_to_ascii(c[k]); fputc(ch, f); }
        fputc('\n', f);
    }
    fclose(f);
}
static void file_ids(const char *name) {
    static int v[200000]; int n = 0; static char l[1000]; FILE *f = fopen(name, "rb"); uint16_t c[80]; int k;
    if (f) while (fgets(l, sizeof l, f) && n < 200000) {
        memset(c, 0, sizeof c);
        if (!strncmp(l, "~raw", 4)) { for (k = 0; k < 80; k++) { unsigned x = 0; sscanf(l + 4 + 4*k, "%4o", &x); c[k] = x; } }
        else { l[strcspn(l, "\r\n")] = 0; for (k = 0; k < 80 && l[k]; k++) c[k] = ascii_to_hol(l[k]); }
        v[n++] = id_of(c);
    }
    if (f) fclose(f);
    ev("[\"file\",\"%s\",", name); segs(v, n); more("]");
}
static void all(uint16_t *c) { int i; more("["); for (i = 0; i < 80; i++) more("%s%d", i ? "," : "", c[i]); more("]"); }
static char line[400000];
int main(void) {
    int i, n, b, r, c; char name[64]; uint16_t card[80]; static int v[200000]; char *p; struct card_context *x;
    for (i = 0; i < 3; i++) ctx[i] = init_card_context();
    while (fgets(line, sizeof line, stdin)) {
        switch (line[0]) {
        case 'R':
            run_start();
            for (i = 0; i < 3; i++) { if (ctx[i]) { close_deck(ctx[i]); free(ctx[i]->images); free(ctx[i]); } ctx[i] = init_card_context(); }
            remove("x.deck"); remove("y.deck"); remove("in.deck"); break;
        case 'L': sscanf(line + 1, "%d %d %d", &c, &b, &n); write_file("in.deck", b, n);
            r = read_deck(ctx[c], "in.deck"); ev("[\"load\",%d,", c);
            for (i = 0; i < n; i++) v[i] = b + i;
            segs(v, n); more(",%d]", r); remove("in.deck"); break;
        case 'M': sscanf(line + 1, "%d", &c); r = read_deck(ctx[c], "missing.deck"); ev("[\"nofile\",%d,%d]", c, r); break;
        case 'B': sscanf(line + 1, "%d %d", &c, &n); blank_deck(ctx[c], n); ev("[\"blank\",%d,%d]", c, n); break;
        case 'r': sscanf(line + 1, "%d %d", &c, &n); r = 1;
            for (i = 0; i < n; i++) { memset(card, 0x5a, sizeof card); r = read_card(ctx[c], &card); if (r != 1) break; v[i] = id_of(card); }
            ev("[\"read\",%d,%d,", c, n); segs(v, i); more(",%d]", r); break;
        case 'S': sscanf(line + 1, "%d %d %d", &c, &b, &n); r = 0;
            for (i = 0; i < n && r == 0; i++) { make(b + i, card); v[i] = b + i; r = stack_card(ctx[c], &card); }
            ev("[\"stack\",%d,", c); segs(v, n); more(",%d]", r); break;
        case 'E': sscanf(line + 1, "%d", &c); empty_cards(ctx[c]); ev("[\"empty\",%d]", c); break;
        case 'V': sscanf(line + 1, "%d %s", &c, name); r = save_deck(ctx[c], name); ev("[\"save\",%d,\"%s\",%d]", c, name, r); break;
        case 'N': sscanf(line + 1, "%d", &c); r = save_deck(ctx[c], "no.such.directory/x"); ev("[\"nosave\",%d,%d]", c, r); break;
        case 'C': sscanf(line + 1, "%d", &c); close_deck(ctx[c]); ev("[\"close\",%d]", c); break;
        case 'Q': for (c = 0; c < 3; c++) ev("[\"sizes\",%d,%d,%d]", c, hopper_size(ctx[c]), stack_size(ctx[c])); break;
        case 'F': sscanf(line + 1, "%s", name); file_ids(name); break;
        /* cards in full */
        case 'm': sscanf(line + 1, "%d", &n); ctx[0]->mode = n; ev("[\"mode\",%d]", n); break;
        case 'd': x = ctx[0]; empty_cards(x); p = line + 1; n = strtol(p, &p, 10); ev("[\"deck\",[");
            while (n-- > 0) { memset(card, 0, sizeof card);
                for (i = 0; i < 80; i++) card[i] = strtol(p, &p, 10);
                stack_card(x, &card); all(card); if (n) more(","); }
            more("]]"); break;
        case 'w': { FILE *f = fopen("full.deck", "wb"); p = line + 1; n = strtol(p, &p, 10); ev("[\"write\",[");
            for (i = 0; i < n; i++) { int ch = strtol(p, &p, 10); fputc(ch, f); more("%s%d", i ? "," : "", ch); }
            fclose(f); more("]]"); break; }
        case 's': x = ctx[0]; r = save_deck(x, "full.deck"); close_deck(x); empty_cards(x);
            { FILE *f = fopen("full.deck", "rb"); int ch; ev("[\"save\",["); n = 0; while (f && (ch = fgetc(f)) != EOF) more("%s%d", n++ ? "," : "", ch); if (f) fclose(f); more("],%d]", r); } break;
        case 'l': x = ctx[0]; empty_cards(x); r = read_deck(x, "full.deck"); ev("[\"load\",["); n = 0;
            while (read_card(x, &card) == 1) { if (n++) more(","); all(card); if (n > 5000) break; }
            more("],%d]", r); break;
        case 't': run_start(); for (i = 0; i < 256; i++) ev("[\"ebc\",%d,%d]", i, ebcdic_to_hol(i));
            for (i = 0; i < 4096; i++) { ev("[\"hol\",%d,%d]", i, hol_to_ebcdic(i)); ev("[\"asc\",%d,%d]", i, hol_to_ascii(i)); }
            break;
        }
    }
    run_end();
    remove("x.deck"); remove("y.deck"); remove("in.deck"); remove("full.deck");
    return 0;
}
