/* Exhaustive exploration of palm's diagnostics.
 * usage: cti hist DEPTH PART NPARTS | cti text PART NPARTS | cti loc PART NPARTS */
#define _GNU_SOURCE
#include "hx.h"
#include "palm/ctinfo.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

static unsigned long cases, execs, classes;
static int efd;
static char ebuf[1 << 16];
static const char *hdr[] = {"", "note: ", "warning: ", "error: "};

static void cap_start(void) { fflush(stderr); ftruncate(efd, 0); lseek(efd, 0, SEEK_SET); }
static char *cap_end(void) { fflush(stderr); int n = pread(efd, ebuf, sizeof ebuf - 1, 0); ebuf[n < 0 ? 0 : n] = 0; return ebuf; }
/* collapse white space runs; leading and trailing white space dropped */
static void norm(char *o, const char *s)
{
    bool sp = false, any = false;
    for (; *s; s++) { if (*s == ' ' || *s == '\n' || *s == '\t') { sp = true; continue; } if (sp && any) *o++ = ' '; sp = false; any = true; *o++ = *s; }
    *o = 0;
}
static char na[1 << 16], nb[1 << 16];
static bool nsame(const char *a, const char *b) { norm(na, a); norm(nb, b); return !strcmp(na, nb); }

/* ------------------------------------------------------------------ histories */
static const char *opn[] = {"state", "note", "warn", "error", "warnAt", "errorAt", "abortOnError", "abort", "outOfMemory", "handlers+interrupt", "handlers+crash"};
#define NOPS 11
static int run_hist(int *p, int n, char *want, int *code)
{
    int err = 0, warn = 0, w = 0;
    *code = 0; want[0] = 0;
    for (int i = 0; i < n; i++) {
        if (p[i] < 4) w += sprintf(want + w, "%smessage %d of %s\n\n", hdr[p[i]], i, opn[p[i]]);
        if (p[i] == 4 || p[i] == 5) w += sprintf(want + w, "%smessage %d of %s\n --> f.c:%d:%d\n\n", hdr[p[i] - 2], i, opn[p[i]], i + 1, 2);
        if (p[i] == 3 || p[i] == 5) err++;
        if (p[i] == 2 || p[i] == 4) warn++;
        if (p[i] == 8) { err++; w += sprintf(want + w, "\nabort: Out of memory:\nabort:  %d bytes requested\n", 100 + i); }
        if (p[i] == 7 || p[i] == 8 || (p[i] == 6 && err)) { sprintf(want + w, "\n*** Compilation failed ***\n*** %d Error(s), %d Warning(s)\n\n", err, warn); *code = 1; return i + 1; }
        if (p[i] == 9) { *code = 0; return i + 1; }
        if (p[i] == 10) { w += sprintf(want + w, "OOOPS your program crashed the compiler 8-(("); *code = 1; return i + 1; }
    }
    return n;
}
static void child(int *p, int n, int fd)
{
    int err = 0, warn = 0;
    alarm(20);
    hx_done = true;
    for (int s = SIGSEGV;; s = SIGILL) { signal(s, SIG_DFL); if (s == SIGILL) break; }
    dup2(fd, 2);
    for (int i = 0; i < n; i++) {
        struct ctinfo o = {i + 1, 2, 0, 0, "f.c", NULL};
        switch (p[i]) {
        case 0: CTI(CTI_STATE, true, "message %d of %s", i, opn[p[i]]); break;
        case 1: CTI(CTI_NOTE, true, "message %d of %s", i, opn[p[i]]); break;
        case 2: CTI(CTI_WARN, true, "message %d of %s", i, opn[p[i]]); warn++; break;
        case 3: CTI(CTI_ERROR, true, "message %d of %s", i, opn[p[i]]); err++; break;
        case 4: CTIobj(CTI_WARN, true, o, "message %d of %s", i, opn[p[i]]); warn++; break;
        case 5: CTIobj(CTI_ERROR, true, o, "message %d of %s", i, opn[p[i]]); err++; break;
        case 6: CTIabortOnError(); break;
        case 7: CTIabortCompilation(); _exit(78);
        case 8: CTIabortOutOfMemory(100 + i); _exit(78);
        case 9: CTIinstallInterruptHandlers(); raise(SIGINT); _exit(78);
        case 10: CTIinstallInterruptHandlers(); raise(SIGSEGV); _exit(78);
        }
        if (CTIgetErrors() != err || CTIgetWarnings() != warn) { fprintf(stderr, "COUNTERS errors=%d warnings=%d", CTIgetErrors(), CTIgetWarnings()); fflush(stderr); _exit(77); }
    }
    exit(0);
}
static void hist(int depth, int part, int np)
{
    int p[8]; static char want[8192]; unsigned long id = 0;
    for (int n = 0; n <= depth; n++) {
        memset(p, 0, sizeof p);
        for (;;) {
            int code, used = run_hist(p, n, want, &code);
            if (used == n && (int)(id++ % np) == part) { /* histories that end early are covered by their prefix */
                int w = 0; hx_hist[0] = 0;
                for (int i = 0; i < n; i++) w += sprintf(hx_hist + w, "%s%s", i ? " " : "", opn[p[i]]);
                cap_start(); fflush(stdout);
                pid_t pid = fork();
                if (!pid) child(p, n, efd);
                int st; waitpid(pid, &st, 0);
                char *got = cap_end();
                execs++; cases += n; classes += code != 0;
                if (!WIFEXITED(st) || WEXITSTATUS(st) != code) hx_fail("process status %#x, expected exit %d; stderr: %.300s", st, code, got);
                if (!nsame(got, want)) hx_fail("stderr is [%.400s], expected [%.400s]", na, nb);
            }
            int i = n - 1;
            while (i >= 0 && ++p[i] == NOPS) p[i--] = 0;
            if (i < 0) break;
        }
    }
}
/* ------------------------------------------------------------------ text */
static void message(int type, const char *m, bool narrow)
{
    static char want[1 << 16];
    int e = CTIgetErrors(), w = CTIgetWarnings();
    snprintf(hx_hist, 900, "type=%d message=%.800s", type, m);
    for (char *c = hx_hist; *c; c++) if (*c == '\n' || *c == '\t') *c = '_';
    cap_start();
    CTI(type, false, "%s", m);
    char *got = cap_end();
    snprintf(want, sizeof want, "%s%s", hdr[type], m);
    if (!nsame(got, want)) hx_fail("the text printed is [%.700s]", na);
    if (narrow) { int col = 0; for (char *c = got; *c; c++) { if (*c == '\n') col = 0; else if (++col > 117) hx_fail("line longer than the line length although it could be broken"); } }
    if (*got && got[strlen(got) - 1] != '\n') hx_fail("message does not end its line");
    if (CTIgetErrors() != e + (type == CTI_ERROR) || CTIgetWarnings() != w + (type == CTI_WARN)) hx_fail("counters wrong");
    cases++; execs++; if (strchr(got, '\n') != got + strlen(got) - 1) classes++;
}
static void text(int part, int np)
{
    static int L[] = {1, 2, 5, 30, 50, 60, 100, 107, 108, 109, 110, 115, 116, 117, 130, 260};
    int nl = sizeof L / sizeof *L; static char m[4096]; unsigned long id = 0;
    for (int type = 0; type < 4; type++) {
        for (int a = 0; a < nl; a++) for (int b = 0; b < nl; b++) for (int c = 0; c < nl; c++) for (int sep = 0; sep < 27; sep++) {
            if ((int)(id++ % np) != part) continue;
            static const char seps[] = " \n\t"; int w = 0;
            int ws[] = {L[a], L[b], L[c], 3}; int s = sep;
            for (int i = 0; i < 4; i++) { memset(m + w, 'p' + i, ws[i]); w += ws[i]; if (i < 3) { m[w++] = seps[s % 3]; s /= 3; } }
            m[w] = 0;
            message(type, m, L[a] <= 100 && L[b] <= 100 && L[c] <= 100);
        }
        for (int n = 1; n < 600; n++) for (int k = 1; k < 14; k++) { /* n words of k characters, n*k bounded */
            if (n * (k + 1) > 1300 || (int)(id++ % np) != part) continue;
            int w = 0;
            for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) m[w++] = 'a' + (i + j) % 26; m[w++] = ' '; }
            m[w - 1] = 0;
            message(type, m, true);
        }
        /* every printable character, in every position of a short message */
        for (int ch = 33; ch < 127; ch++) for (int pos = 0; pos < 5; pos++) {
            if ((int)(id++ % np) != part) continue;
            strcpy(m, "ab cd"); m[pos] = ch; message(type, m, true);
        }
        for (int c1 = 0; c1 < 5; c1++) for (int c2 = 0; c2 < 5; c2++) for (int c3 = 0; c3 < 5; c3++) {
            if ((int)(id++ % np) != part) continue;
            static const char al[] = "a@ %\n"; m[0] = al[c1]; m[1] = al[c2]; m[2] = al[c3]; m[3] = 'z'; m[4] = 0; message(type, m, true);
        }
    }
}
/* ------------------------------------------------------------------ locations */
static void loc(int part, int np)
{
    static int v1[] = {0, 1, 7, 120}, c1[] = {0, 1, 4, 9}; unsigned long id = 0; static char want[4096];
    static char *lines[] = {NULL, "x", "int main(void) {"}; static char *files[] = {NULL, "dir/file.ccn"};
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int dl = 0; dl < 3; dl++) for (int dc = 0; dc < 4; dc++)
    for (int l = 0; l < 3; l++) for (int f = 0; f < 2; f++) for (int type = 0; type < 4; type++) for (int nl = 0; nl < 2; nl++) {
        if ((int)(id++ % np) != part) continue;
        struct ctinfo o = {v1[a], c1[b], dl == 0 ? 0 : v1[a] + (dl - 1) * 2, dc == 0 ? 0 : c1[b] + (dc - 1) * 3, files[f], lines[l]};
        snprintf(hx_hist, sizeof hx_hist, "type=%d newline=%d first=%d:%d last=%d:%d file=%s line=%s", type, nl, o.first_line, o.first_column, o.last_line, o.last_column, o.filename ? o.filename : "NULL", o.line ? o.line : "NULL");
        cap_start();
        CTIobj(type, nl, o, "msg %d", 5);
        char *got = cap_end();
        cases++; execs++;
        int w = sprintf(want, "%smsg 5\n", hdr[type]);
        if (strncmp(got, want, w)) hx_fail("message is [%.300s]", got);
        if (strstr(got, "(null)")) hx_fail("a missing value is displayed: [%.300s]", got);
        if (o.filename && !strstr(got, o.filename)) hx_fail("file name not displayed: [%.300s]", got);
        if (nl && strcmp(got + strlen(got) - 2, "\n\n")) hx_fail("no empty line at the end: [%.300s]", got);
        if (!o.filename || o.first_line <= 0) continue;
        /* position: line, then column if known, then the end if it differs */
        w = sprintf(want, " --> %s:%d", o.filename, o.first_line);
        bool multi = o.last_line > o.first_line, onecol = o.last_column <= 0 || (!multi && o.last_column == o.first_column);
        if (o.first_column > 0) { if (onecol) w += sprintf(want + w, ":%d", o.first_column); else { w += sprintf(want + w, ".%d-", o.first_column); if (multi) w += sprintf(want + w, "%d.", o.last_line); w += sprintf(want + w, "%d", o.last_column); } }
        strcpy(want + w, "\n");
        if (!strstr(got, want)) hx_fail("position not displayed as [%s]: [%.300s]", want, got);
        if (o.line && o.first_column > 0) {
            w = sprintf(want, " |> %s\n%*s^", o.line, o.first_column - 1 + 4, "");
            if (!strstr(got, want)) hx_fail("source line or marker wrong: [%.300s]", got);
            if (!multi && o.last_column > o.first_column) { for (int i = o.first_column + 1; i <= o.last_column; i++) want[w++] = '~'; }
            if (!multi) { strcpy(want + w, "\n"); if (!strstr(got, want)) hx_fail("marked range wrong: [%.300s]", got); }
            classes++;
        }
    }
}
int main(int argc, char **argv)
{
    hx_init(800);
    efd = memfd_create("err", 0);
    if (argv[1][0] != 'h') dup2(efd, 2);
    if (argv[1][0] == 'h') hist(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
    else if (argv[1][0] == 't') text(atoi(argv[2]), atoi(argv[3]));
    else loc(atoi(argv[2]), atoi(argv[3]));
    printf("OK\texecs=%lu\tsteps=%lu\tclass=%lu\n", execs, cases, classes);
    hx_done = true;
    return 0;
}
