/* Driver for phase-structure projects: reads scenarios from stdin, one per line, and prints the trace of
 * each (run in a forked child).  Compiled together with generated leaf/gate functions (GEN_C). */
#define _GNU_SOURCE
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ccn/ccn.h"
#include "palm/ctinfo.h"
#include "ccn/phase_driver.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/action_handling.h"

#define MAXL 16
static char *leafs[MAXL], *gates[MAXL];
static int lcnt[MAXL], gcnt[MAXL], events, nextv;
static long live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { live++; return __real_calloc(a, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }

static void ev(void) { if (++events > 45000) { printf("RUNAWAY "); fflush(stdout); _exit(98); } }
static char pick(char *s, int i) { if (!s || !*s) return '-'; int n = strlen(s); return s[i < n ? i : n - 1]; }
node_st *leaf(int k, node_st *n)
{
    ev();
    char a = pick(leafs[k], lcnt[k]++);
    printf("L%d@%zu/%d ", k, CCNgetCurrentActionId(), ROOT_V(n));
    switch (a) {
    case 'n': CCNcycleNotify(); break;
    case 'p': CCNerrorPhase(); break;
    case 'a': CCNerrorAction(); break;
    case 'q': CCNerrorPhase(); CCNcycleNotify(); break;
    case 'c': CTI(CTI_ERROR, true, "leaf %d", k); break;
    case '1': case '2': case '3': CCNsetCycles(a - '0'); CCNcycleNotify(); break;
    case 'r': { node_st *m = ASTroot(); ROOT_V(m) = ++nextv; CCNfree(n); n = m; break; }
    }
    return n;
}
bool gate(int k) { ev(); char g = pick(gates[k], gcnt[k]++); printf("G%d=%c ", k, g == '0' ? '0' : '1'); return g != '0'; }
void BreakpointHandler(node_st *n) { printf("B/%d ", ROOT_V(n)); fflush(stdout); }
static void bye(void) { printf("EXIT "); fflush(stdout); }

/* The lines of the run time system on stderr, as events of the trace. */
static ssize_t reported(void *c, const char *b, size_t n)
{
    static char line[4096], name[256];
    static size_t len;
    for (size_t i = 0; i < n; i++) {
        if (b[i] != '\n') { if (len < sizeof line - 1) line[len++] = b[i]; continue; }
        line[len] = 0;
        len = 0;
        char *l = line + strspn(line, " ");
        if (!strncmp(l, ">> ", 3) || !strncmp(l, "<< ", 3)) printf("%.2s%s ", l, l + 3);
        else if (!strncmp(l, "*** ", 4) && line[0] == ' ') printf("**%s ", l + 4);
        else if (!strncmp(l, "[coconut]", 9)) {
            if (strstr(l, "rror received")) printf(strstr(l, "hase error") ? "PERR " : strstr(l, "ction error") ? "AERR " : "??? ");
            else if (sscanf(l, "[coconut] Skipping phase %200s because", name) == 1) printf("SKIP:%s ", name);
            else printf("??? ");
        }
    }
    (void)c;
    return n;
}
static char *fld(char **p) { char *s = *p, *e = strchr(s, ';'); if (e) { *e = 0; *p = e + 1; } else *p = s + strlen(s); return s; }
static void split(char *s, char **out) { int i = 0; for (char *t = strtok(s, ","); t && i < MAXL; t = strtok(NULL, ",")) out[i++] = t; }

int main(int argc, char **argv)
{
    static char line[4096];
    if (argc > 1 && !strcmp(argv[1], "tree")) { CCNshowTree(); return 0; }
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            alarm(30);
            freopen("/dev/null", "w", stderr);
            char *p = line;
            int max = atoi(fld(&p)); char *bp = fld(&p); int bpid = atoi(fld(&p)); int runs = atoi(fld(&p));
            int check = atoi(fld(&p)); int verb = atoi(fld(&p));
            split(fld(&p), leafs); split(fld(&p), gates);
            if (max > 0) CCNsetCycles(max);
            if (*bp) CCNsetBreakpoint(bp);
            if (bpid > 0) CCNsetBreakpointWithID(bpid);
            CCNsetTreeCheck(check);
            if (verb >= 10) {
                verb -= 10;
                stderr = fopencookie(NULL, "w", (cookie_io_functions_t){.write = reported});
                setvbuf(stderr, NULL, _IONBF, 0);
            }
            CCNsetVerbosity(verb);
            printf(""); fflush(stdout);
            live = 0;
            atexit(bye);
            for (int r = 0; r < runs; r++) {
                memset(lcnt, 0, sizeof lcnt); memset(gcnt, 0, sizeof gcnt); nextv = 0;
                node_st *n = ASTroot();
                printf("RUN ");
                CCNrun(n);
                printf("DONE%+ld ", live);
            }
            exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st)) printf("rc=%d\n", WEXITSTATUS(st)); else printf("sig=%d\n", WTERMSIG(st));
    }
    return 0;
}
