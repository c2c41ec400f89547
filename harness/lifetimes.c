/* C13: runs the generated compiler once for every lifetime, and every moment from which on the tree breaks it.
   spec.h: NITEM, VIOL[item] (bit i: a check at action i fails), TYNAME, MEMBER, build(item), set(root, item, off). */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ccn/ccn.h"
#include "palm/ctinfo.h"
#include "ccn/phase_driver.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ast.h"
#include "spec.h"

#define MAXEV 256
static struct { int n, id[MAXEV]; bool over; } *sh;     /* what the child did */
static int item, from, closed, notify;
static node_st *tree;
static int seen[64];

static void event(int id)
{
    if (sh->n == MAXEV) { sh->over = true; _exit(77); }
    sh->id[sh->n++] = id;
    if (item >= 0 && sh->n == from) set(tree, item, true);
}
node_st *leaf(int k, node_st *n)
{
    event(CCNgetCurrentActionId());
    if (notify && seen[k]++ == 0) CCNcycleNotify();
    return n;
}
bool gate(int k) { event(CCNgetCurrentActionId()); return k != closed; }
void BreakpointHandler(node_st *n) { (void)n; }

static int errfd;
static char errtext[8192];
static int go(void)
{
    sh->n = 0;
    sh->over = false;
    if (ftruncate(errfd, 0) || lseek(errfd, 0, SEEK_SET)) exit(9);
    pid_t p = fork();
    if (!p) {
        alarm(20);
        dup2(errfd, 2);
        CCNsetCycles(3);
        tree = ASTroot();
        if (item >= 0) { ROOT_X(tree) = build(item); set(tree, item, from == 0); }
        CCNrun(tree);
        exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    int n = pread(errfd, errtext, sizeof errtext - 1, 0);
    errtext[n < 0 ? 0 : n] = 0;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void fail(const char *what, int rc)
{
    static int nf;
    if (nf++ >= 3) return;
    printf("FAIL\t%s%s%s lifetime %s, broken from check %d on, closed gate %d, notify %d\t%s (status %d, %d actions begun, stderr: ", TYNAME[item], *MEMBER[item] ? "." : "", MEMBER[item], TEXT[item], from + 1, closed, notify, what, rc, sh->n);
    for (char *c = errtext; *c; c++) putchar(*c == '\n' || *c == '\t' ? ' ' : *c);
    printf(")\n");
}

int main(void)
{
    long runs = 0, ev = 0;
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE *ef = tmpfile();
    errfd = fileno(ef);
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    for (notify = 0; notify < (HASCYCLE ? 2 : 1); notify++) {
        for (closed = -1; closed < NPHASE; closed++) {
            static int base[MAXEV];
            item = -1;
            int rc = go();
            if (rc != 0 || *errtext) { item = 0; fail("a run on a tree that breaks nothing fails", rc); return 0; }
            int n = sh->n;
            memcpy(base, sh->id, sizeof base);
            for (item = 0; item < NITEM; item++) {
                if ((closed >= 0 || notify) && !SHORT[item]) continue;
                for (from = 0; from <= n; from++) {
                    int stop = from;
                    while (stop < n && !(VIOL[item] >> base[stop] & 1)) stop++;
                    rc = go();
                    runs++;
                    ev += sh->n;
                    char pat[128], mem[128];
                    sprintf(pat, "(%s)", TYNAME[item]);
                    sprintf(mem, "(%s)", MEMBER[item]);
                    if (sh->n != stop || memcmp(sh->id, base, stop * sizeof(int))) fail(sh->n > stop ? "the check does not stop the compiler where it must" : "the compiler stops although nothing is wrong", rc);
                    else if (rc != (stop < n)) fail("wrong exit status", rc);
                    else if (stop < n && (!strstr(errtext, pat) || (*MEMBER[item] && !strstr(errtext, mem)))) fail("the report does not name the culprit", rc);
                    else if (stop == n && *errtext) fail("something is reported", rc);
                }
            }
        }
    }
    printf("SAMPLE\t%s%s%s, lifetime %s\tstops before action %d of %d\n", TYNAME[NITEM / 2], *MEMBER[NITEM / 2] ? "." : "", MEMBER[NITEM / 2], TEXT[NITEM / 2], VIOL[NITEM / 2] ? __builtin_ctzll(VIOL[NITEM / 2]) : -1, sh->n);
    printf("OK\t%ld\t%ld\n", runs, ev);
    return 0;
}
