/* C12: the tree check reports every child of a disallowed type, and nothing else, for well- and ill-typed trees. */
#include "ast.h"
#include <ctype.h>
#include <sys/mman.h>
#include <sys/wait.h>

static tree *anytree(int depth, bool nonnull)
{
    int o = -1, n = NTY;
    if (depth == 0 || budget == 0) return NULL;
    o = choose(n + !nonnull) - !nonnull;
    if (o < 0) return NULL;
    budget--;
    tree *s = tnew(o);
    for (int i = 0; i < TY_NCH[o]; i++) s->c[i] = anytree(depth - 1, false);
    return s;
}
static char *errbuf;
static size_t errlen;
static char norm[1 << 16];
static void squeeze(void)       /* the text without white space: diagnostics are broken into lines */
{
    char *o = norm;
    for (size_t i = 0; i < errlen && o < norm + sizeof norm - 1; i++) if (!isspace((unsigned char)errbuf[i])) *o++ = errbuf[i];
    *o = 0;
}
static int count(const char *pat) { int n = 0; for (char *p = norm; (p = strstr(p, pat)); p++) n++; return n; }

static struct { char pat[160]; int n; } want[256];
static int nwant, total;
static void expect(tree *s)
{
    if (!s) return;
    for (int i = 0; i < TY_NCH[s->t]; i++) {
        tree *k = s->c[i];
        if (k && !(TY_MASK[s->t][i] >> k->t & 1)) {
            char pat[160];
            int j;
            sprintf(pat, "Child(%s)ofnode(%s)hasdisallowedtype(%s)", CHNAME[s->t][i], TY_NAME[s->t], TY_NAME[k->t]);
            for (j = 0; j < nwant; j++) if (!strcmp(want[j].pat, pat)) break;
            if (j == nwant) { strcpy(want[nwant].pat, pat); want[nwant++].n = 0; }
            want[j].n++;
            total++;
        }
        expect(k);
    }
}
static void same(tree *s, node_st *n)
{
    if (!s != !n) hx_fail("the check changes the tree");
    if (!s) return;
    if (n != s->real) hx_fail("the check changes the tree");
    for (int i = 0; i < TY_NCH[s->t]; i++) same(s->c[i], *slot(n, i));
}
node_st *H(int tv, node_st *n) { (void)tv; (void)n; hx_fail("the check calls a handler"); return n; }
static struct { int p1, p2; } *sh;
static node_st *later;
static bool in_child;
node_st *pass1(node_st *n) { sh->p1++; return later ? later : n; }
node_st *pass2(node_st *n) { sh->p2++; return n; }

int main(int argc, char **argv)
{
    int maxn = atoi(argv[1]), maxfork = atoi(argv[2]);
    long execs = 0, events = 0, forks = 0;
    hx_init(300);
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE *realerr = stderr;
    stderr = open_memstream(&errbuf, &errlen);
    ch_start();
    do {
        budget = maxn; ids = 0; npool = 0; nmade = 0; nwant = total = 0;
        tree *s = anytree(4, true);
        *hx_hist = 0;
        tshow(s, hx_hist);
        expect(s);
        node_st *n = mkreal(s);
        fflush(stderr);
        rewind(stderr);
        int e0 = CTIgetErrors(), w0 = CTIgetWarnings();
        node_st *r = TRAVstart(n, TRAV_check);
        fflush(stderr);
        errlen = ftell(stderr);
        squeeze();
        execs++;
        events += total + 1;
        if (r != n) hx_fail("the check returns another node");
        same(s, n);
        if (TRAVgetCurrent()) hx_fail("a traversal is current after the check");
        if (CTIgetErrors() - e0 != total) hx_fail("%d errors instead of %d", CTIgetErrors() - e0, total);
        if (CTIgetWarnings() != w0) hx_fail("warnings");
        for (int j = 0; j < nwant; j++) if (count(want[j].pat) != want[j].n) hx_fail("'%s' reported %d times instead of %d", want[j].pat, count(want[j].pat), want[j].n);
        if (total == 0 && *norm) hx_fail("a well-typed tree is reported: %s", norm);
        /* end to end: the compiler stops before the next action if and only if the tree is ill-typed */
        if (tsize(s) <= maxfork) {
            for (int mode = 0; mode < 4; mode++) {      /* bit 0: check disabled, bit 1: tree returned by the first pass */
                if (mode < 2 && !(ROOTS >> s->t & 1)) continue;
                sh->p1 = sh->p2 = 0;
                fflush(stdout);
                pid_t p = fork();
                if (!p) {
                    hx_done = true;
                    alarm(20);
                    CCNsetTreeCheck(!(mode & 1));
                    later = NULL;
                    if (mode & 2) { later = n; tree *x = tnew(__builtin_ctz(ROOTS)); n = mkreal(x); }
                    CCNrun(n);
                    _exit(0);
                }
                int st, bad = total && !(mode & 1);
                waitpid(p, &st, 0);
                forks++;
                int e1 = !bad || (mode & 2), e2 = !bad;
                if (!WIFEXITED(st) || WEXITSTATUS(st) != bad) hx_fail("mode %d: status %x instead of %d", mode, st, bad);
                if (sh->p1 != e1 || sh->p2 != e2) hx_fail("mode %d: the passes are run %d and %d times", mode, sh->p1, sh->p2);
            }
        }
        for (int i = 0; i < nmade; i++) {     /* not CCNfree: a tree may be ill-typed */
            MEMfree(*(void **)&made[i]->data);
            MEMfree(made[i]);
        }
    } while (ch_next());
    printf("SAMPLE\t%s\t%s\n", hx_hist, norm);
    printf("OK\t%ld\t%ld\n", execs + forks, events + forks);
    hx_done = true;
    return 0;
}
void BreakpointHandler(node_st *n) { (void)n; }
