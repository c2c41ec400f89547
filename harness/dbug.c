/* All sequences of calls of palm's debug library, each in a process of its own: what is printed, evaluated and how it ends. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef NDEBUG
#define ON 0
#else
#define ON 1
#endif
extern char big[];
extern int line;
int evaluate(int x);
void touched_(int x), want_out(const char *f, ...), want_abort(const char *file, int line, const char *fn, const char *msg);
#define P(...) want_out(__VA_ARGS__)
#define A(m) want_abort(__FILE__, line, __func__, m)
#ifdef SECOND
#define MODULE "Mod.1"
#include "palm/dbug.h"
#define OPS ops_module
#define PRE "[Mod.1] "
#include "dbug_ops.h"
#else
#include "palm/dbug.h"
#define OPS ops_plain
#define PRE ""
#include "dbug_ops.h"
int ops_module(int, char *, char *);
char big[3001];
int line;
enum { NOPS = 11, OFF = 2 * NOPS, DIRECT, DIRECTH, TOTAL };
static int evals[64], nevals, wevals[64], nwevals;
static char wout[1 << 16];
static bool off;
int evaluate(int x) { evals[nevals++] = x; return x; }
void touched_(int x) { if (ON) wevals[nwevals++] = x; }
void want_out(const char *f, ...)
{
    va_list a;
    va_start(a, f);
    if (ON && !off) vsprintf(wout + strlen(wout), f, a);
    va_end(a);
}
/* the assertion that is expected to fail */
struct result { bool aborts; int line; char file[200], fn[60], msg[60]; } expect;
void want_abort(const char *file, int l, const char *fn, const char *msg)
{
    if (!ON || expect.aborts) return;
    expect.aborts = true;
    expect.line = l;
    strcpy(expect.file, file); strcpy(expect.fn, fn); strcpy(expect.msg, msg);
}
static void step(int op)
{
    if (op < NOPS) ops_plain(op, 0, 0);
    else if (op < 2 * NOPS) ops_module(op - NOPS, 0, 0);
    else if (op == OFF) { DBUGoff(); off = true; }
    else if (op == DIRECT) { DBUGprint(NULL, "%d-%d", 1, 2); if (!off) strcat(wout, "1-2"); }
    else { DBUGprint("", "%s", "h"); if (!off) strcat(wout, "[] h"); }
}
static char got[2][1 << 16];
static int slurp(int fd, char *b) { lseek(fd, 0, SEEK_SET); int n = read(fd, b, (1 << 16) - 1); b[n < 0 ? 0 : n] = 0; return n; }
static long cases, calls;
#include <setjmp.h>
static jmp_buf stopped;
static bool intercept;
void __real_abort(void) __attribute__((noreturn));
static int aborts;
void __wrap_abort(void)
{
    if (!intercept) __real_abort();
    aborts++;
    longjmp(stopped, 1);
}
static void bad(const int *s, int n, const char *what)
{
    intercept = false;
    fprintf(stdout, "FAIL\t");
    for (int i = 0; i < n; i++) fprintf(stdout, "%s%d", i ? " " : "", s[i]);
    fprintf(stdout, "\t%s\n", what);
    exit(1);
}
static void once(const int *s, int n, int fd[2])
{
    nevals = nwevals = aborts = 0;
    wout[0] = 0;
    off = false;
    memset(&expect, 0, sizeof expect);
    int so = dup(1), se = dup(2);
    for (int i = 0; i < 2; i++) { if (ftruncate(fd[i], 0)) abort(); lseek(fd[i], 0, SEEK_SET); }
    fflush(stdout); fflush(stderr);
    dup2(fd[0], 1); dup2(fd[1], 2);
    intercept = true;
    volatile int i;
    for (i = 0; i < n; i++) {
        if (setjmp(stopped)) break;
        step(s[i]);
    }
    intercept = false;
    fflush(stdout); fflush(stderr);
    dup2(so, 1); dup2(se, 2); close(so); close(se);
    slurp(fd[0], got[0]); slurp(fd[1], got[1]);
    cases++;
    calls += n;
    char t[400];
    int ended = aborts ? i : n;
    int op = ended < n && s[ended] < 2 * NOPS ? s[ended] % NOPS : -1;
    bool must = false;
    int first = n;
    for (int j = 0; j < n; j++)
        if (ON && s[j] < 2 * NOPS && s[j] % NOPS >= 7 && s[j] % NOPS <= 9) { must = true; first = j; break; }
    if (aborts && !must) bad(s, n, "aborts although every assertion holds");
    if (must && !aborts) bad(s, n, "a failed assertion does not end the program");
    if (must && first != ended) bad(s, n, "another assertion ends the program");
    if (aborts) {       /* what follows the call in that step */
        const char *m = op == 7 ? "zero 7 of seven" : op == 8 ? "a-b" : "100%";
        if (op == 7) touched_(0);
        if (op == 8) { touched_(1); touched_(2); }
        sprintf(t, "%d", line);
        const char *fn = s[ended] < NOPS ? "ops_plain" : "ops_module";
        if (!strstr(got[1], m) || !strstr(got[1], t) || !strstr(got[1], fn) || !strstr(got[1], "dbug_ops.h"))
            bad(s, n, "the message of a failed assertion lacks the place or the text");
    } else if (got[1][0]) {
        bad(s, n, "writes on stderr");
    }
    if (strcmp(got[0], wout)) { sprintf(t, "prints '%.150s', expected '%.150s'", got[0], wout); bad(s, n, t); }
    if (nevals != nwevals || memcmp(evals, wevals, nevals * sizeof *evals)) bad(s, n, "arguments are evaluated another number of times");
}
int main(int argc, char **argv)
{
    int maxn = atoi(argv[1]), part = atoi(argv[2]), parts = atoi(argv[3]);
    memset(big, 'b', sizeof big - 1);
    int fd[2] = {memfd_create("out", 0), memfd_create("err", 0)};
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    for (int first = part; first < TOTAL; first += parts) {
        /* debugging cannot be turned on again: a process for each sequence that turns it off is replaced by one for each first element */
        for (int n = 1; n <= maxn; n++) {
            int s[8] = {first};
            while (1) {
                bool turns = false;
                for (int i = 0; i < n; i++) turns |= s[i] == OFF;
                if (!turns) {
                    once(s, n, fd);
                } else {
                    fflush(stdout);
                    pid_t p = fork();
                    if (!p) { once(s, n, fd); fflush(stdout); _exit(0); }
                    int st;
                    waitpid(p, &st, 0);
                    if (st) { fflush(stdout); return 1; }
                    cases++;
                    calls += n;
                }
                int i = n - 1;
                while (i > 0 && ++s[i] == TOTAL) s[i--] = 0;
                if (i <= 0) break;
            }
        }
    }
    /* once without interception: the program really ends */
    if (ON && part == 0)
        for (int op = 7; op <= 9; op++) {
            fflush(stdout);
            pid_t p = fork();
            if (!p) { struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); dup2(fd[1], 2); signal(SIGABRT, SIG_DFL); ops_plain(op, 0, 0); _exit(0); }
            int st;
            waitpid(p, &st, 0);
            if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) { int s[1] = {op}; bad(s, 1, "a failed assertion does not abort"); }
        }
    printf("OK\tcases=%ld\tcalls=%ld\n", cases, calls);
    return 0;
}
#endif
