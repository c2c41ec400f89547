/* C28: every history of operations of the run-time interface, at the outermost level and inside handlers and passes,
   against a model of the traversal stack. spec.h: as for the other tree harnesses, and DATA_* below. */
#define HX_TRACK
#include "ast.h"
/* spec.h: TV_HASDATA[], int *data_int(int tv), NPASS, PASS_ENUM[], RUN_PLAN[] (pass k: k, traversal k: 100 + k; -1 ends) */

static char lreal[1 << 16], lref[1 << 16], *lp;
static int rec[512], nrec, rpos, dev, lvl;
static node_st *roots[4];
static int nroots, depth;

static void put(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    lp += vsprintf(lp, f, ap);
    va_end(ap);
    if (lp > lreal + sizeof lreal - 300 && lp < lreal + sizeof lreal) hx_fail("runs away");
}
static int pick(int n)
{
    if (nrec == 512) hx_fail("runs away");
    int b = 0;
    if (dev > 0) b = choose(n);
    if (b) dev--;
    return rec[nrec++] = b;
}
static int ty(node_st *n)
{
    for (int t = 0; t < NTY; t++) if (TY_ENUM[t] == NODE_TYPE(n)) return t;
    hx_fail("a node of an unknown type");
    return -1;
}
static void current(void)       /* the stack as the interface shows it */
{
    char b[256], *o = b;
    *b = 0;
    int n = 0;
    for (ccn_trav_st *c = TRAVgetCurrent(); c; c = c->prev) {
        int tv;
        if (++n > 40) hx_fail("the stack of traversals has no end");
        for (tv = 0; tv < NTV; tv++) if (TV_ENUM[tv] == (int)c->trav_type) break;
        o += sprintf(o, "%d", tv);
    }
    put("[%s] ", b);
}
void HI(int tv) { put("init%d=%d ", tv, *data_int(tv)); current(); *data_int(tv) = 10; }
void HF(int tv) { put("fini%d=%d ", tv, *data_int(tv)); current(); }

static node_st *inner(node_st *n, int b, bool istrav);
enum { I_PLAIN, I_SKIP, I_COPY, I_REPLACE, I_START };      /* I_START + tv, then push + tv, then pass + p */
#define NINNER (I_START + 2 * NTV + NPASS)
node_st *H(int tv, node_st *n)
{
    if (++lvl > 60) hx_fail("runs away");
    put("<%d%s%d ", tv, TY_NAME[ty(n)], (int)NODE_BLINE(n));
    current();
    if (TV_HASDATA[tv]) put("=%d ", (*data_int(tv))++);
    n = inner(n, pick(NINNER), true);
    if (TV_HASDATA[tv]) put("=%d", (*data_int(tv))++);
    put("> ");
    lvl--;
    return n;
}
node_st *HP(int p, node_st *n)
{
    if (++lvl > 60) hx_fail("runs away");
    put("(%d%s%d ", p, TY_NAME[ty(n)], (int)NODE_BLINE(n));
    current();
    n = inner(n, pick(NINNER), false);
    put(") ");
    lvl--;
    return n;
}
static node_st *inner(node_st *n, int b, bool istrav)
{
    if (b == I_SKIP) return !istrav && TRAVgetCurrent() ? TRAVdo(n) : n;
    if (b == I_COPY) { node_st *c = CCNcopy(n); if (c == n) hx_fail("a copy is the node itself"); c = TRAVgetCurrent() ? TRAVopt(c) : c; CCNfree(c); }
    else if (b >= I_START + 2 * NTV) n = PASSstart(n, PASS_ENUM[b - I_START - 2 * NTV]);
    else if (b >= I_START + NTV) { TRAVpush(TV_ENUM[b - I_START - NTV]); current(); n = TRAVchildren(n); TRAVpop(); current(); }
    else if (b >= I_START) n = TRAVstart(n, TV_ENUM[b - I_START]);
    if (istrav) n = TRAVchildren(n);
    if (b == I_REPLACE) { node_st *c = CCNcopy(n); CCNfree(n); n = c; }
    return n;
}

/* ---- the model */
static tree *mroots[4];
static struct { int tv, data; } st[64];
static int sp, nmroots;
static void mcurrent(void) { put("["); for (int i = sp - 1; i >= 0; i--) put("%d", st[i].tv); put("] "); }
static void mpush(int tv) { st[sp].tv = tv; st[sp++].data = 0; if (TV_HASDATA[tv]) { put("init%d=0 ", tv); mcurrent(); st[sp - 1].data = 10; } }
static void mpop(void) { int tv = st[sp - 1].tv; if (TV_HASDATA[tv]) { put("fini%d=%d ", tv, st[sp - 1].data); mcurrent(); } sp--; }
static void minner(tree *s, int b, bool istrav);
static void mdo(tree *s)
{
    if (!s) return;
    int tv = st[sp - 1].tv, me = sp - 1;
    if (!(TV_MASK[tv] >> s->t & 1)) { for (int i = 0; i < TY_NCH[s->t]; i++) mdo(s->c[i]); return; }
    put("<%d%s%d ", tv, TY_NAME[s->t], s->id);
    mcurrent();
    if (TV_HASDATA[tv]) put("=%d ", st[me].data++);
    minner(s, rec[rpos++], true);
    if (TV_HASDATA[tv]) put("=%d", st[me].data++);
    put("> ");
}
static void mchildren(tree *s) { for (int i = 0; i < TY_NCH[s->t]; i++) mdo(s->c[i]); }
static void mstart(tree *s, int tv) { mpush(tv); mdo(s); mpop(); }
static void mpass(tree *s, int p)
{
    put("(%d%s%d ", p, TY_NAME[s->t], s->id);
    mcurrent();
    minner(s, rec[rpos++], false);
    put(") ");
}
static void minner(tree *s, int b, bool istrav)
{
    if (b == I_SKIP) { if (!istrav && sp) mdo(s); return; }
    if (b == I_COPY) { if (sp) mdo(s); }
    else if (b >= I_START + 2 * NTV) mpass(s, b - I_START - 2 * NTV);
    else if (b >= I_START + NTV) { mpush(b - I_START - NTV); mcurrent(); mchildren(s); mpop(); mcurrent(); }
    else if (b >= I_START) mstart(s, b - I_START);
    if (istrav) mchildren(s);
}
static tree *mcopy(tree *s)
{
    if (!s) return NULL;
    tree *r = &pool[npool++];
    *r = *s;
    for (int i = 0; i < TY_NCH[s->t]; i++) r->c[i] = mcopy(s->c[i]);
    return r;
}

/* ---- operations of the outermost level */
enum { O_START, O_PASS, O_PUSH, O_POP, O_DO, O_OPT, O_CHILDREN, O_COPY, O_FREE, O_SET, O_RUN };
static const char *ONAME[] = {"start", "pass", "push", "pop", "do", "opt", "children", "copy", "free", "set", "run"};
static struct op { int kind, a, k; } todo[8];
static node_st **rnth(node_st **p, int *k)
{
    if (!*p) return NULL;
    if ((*k)-- == 0) return p;
    int t = ty(*p);
    for (int i = 0; i < TY_NCH[t]; i++) { node_st **r = rnth(slot(*p, i), k); if (r) return r; }
    return NULL;
}
static int rcount(node_st *n) { int k = 1; if (!n) return 0; for (int i = 0, t = ty(n); i < TY_NCH[t]; i++) k += rcount(*slot(n, i)); return k; }
static node_st **rnode(int k) { for (int i = 0; i < nroots; i++) { int c = rcount(roots[i]); if (k < c) return rnth(&roots[i], &k); k -= c; } return NULL; }
static tree *mnode(int k) { for (int i = 0; i < nmroots; i++) { int c = tsize(mroots[i]); if (k < c) return tnth(mroots[i], &k); k -= c; } return NULL; }
static int tops[16];            /* types of the stack at the outermost level */

static struct op next_op(void)
{
    int all = 0, n = 0;
    struct op o[256];
    for (int i = 0; i < nroots; i++) all += rcount(roots[i]);
#define ADD(K, A, N) (o[n++] = (struct op){K, A, N})
    for (int tv = 0; tv < NTV; tv++) for (int k = 0; k <= all; k++) ADD(O_START, tv, k);       /* k == all: NULL */
    for (int p = 0; p < NPASS; p++) for (int k = 0; k < all; k++) ADD(O_PASS, p, k);
    if (depth < 3) for (int tv = 0; tv < NTV; tv++) ADD(O_PUSH, tv, 0);
    ADD(O_OPT, 0, all);
    if (depth) {
        ADD(O_POP, 0, 0);
        for (int k = 0; k < all; k++) { ADD(O_DO, 0, k); ADD(O_OPT, 0, k); ADD(O_CHILDREN, 0, k); }
        if (TV_HASDATA[tops[depth - 1]]) ADD(O_SET, 0, 0);
    }
    if (nroots < 2) for (int k = 0; k < all; k++) ADD(O_COPY, 0, k);
    for (int r = 0; r < nroots; r++) { ADD(O_FREE, 0, r); if (NODE_TYPE(roots[r]) == TY_ENUM[0]) ADD(O_RUN, 0, r); }
    return o[choose(n)];
}
static void drop_root(int r) { for (int i = r; i + 1 < nroots; i++) roots[i] = roots[i + 1]; nroots--; }
static void mdrop_root(int r) { for (int i = r; i + 1 < nmroots; i++) mroots[i] = mroots[i + 1]; nmroots--; }
static void do_real(struct op o)
{
    node_st **p = rnode(o.k), *n = p ? *p : NULL;
    switch (o.kind) {
    case O_START: n = TRAVstart(n, TV_ENUM[o.a]); if (p) *p = n; else if (n) hx_fail("NULL becomes a node"); break;
    case O_PASS: n = PASSstart(n, PASS_ENUM[o.a]); *p = n; break;
    case O_PUSH: TRAVpush(TV_ENUM[o.a]); tops[depth++] = o.a; break;
    case O_POP: TRAVpop(); depth--; break;
    case O_DO: n = TRAVdo(n); *p = n; break;
    case O_OPT: n = TRAVopt(n); if (p) *p = n; else if (n) hx_fail("NULL becomes a node"); break;
    case O_CHILDREN: n = TRAVchildren(n); *p = n; break;
    case O_COPY: roots[nroots++] = CCNcopy(n); break;
    case O_FREE: if (CCNfree(roots[o.k])) hx_fail("CCNfree returns a node"); drop_root(o.k); break;
    case O_SET: *data_int(tops[depth - 1]) += 5; break;
    case O_RUN: CCNrun(roots[o.k]); drop_root(o.k); break;
    }
}
static void do_model(struct op o)
{
    tree *s = mnode(o.k);
    switch (o.kind) {
    case O_START: mstart(s, o.a); break;
    case O_PASS: mpass(s, o.a); break;
    case O_PUSH: mpush(o.a); break;
    case O_POP: mpop(); break;
    case O_DO: mdo(s); break;
    case O_OPT: if (s) mdo(s); break;
    case O_CHILDREN: mchildren(s); break;
    case O_COPY: mroots[nmroots++] = mcopy(s); break;
    case O_FREE: mdrop_root(o.k); break;
    case O_SET: st[sp - 1].data += 5; break;
    case O_RUN:
        s = mroots[o.k];
        for (int i = 0; RUN_PLAN[i] >= 0; i++) if (RUN_PLAN[i] < 100) mpass(s, RUN_PLAN[i]); else mstart(s, RUN_PLAN[i] - 100);
        mdrop_root(o.k);
        break;
    }
}
static void shape(node_st *n) { if (!n) { put("-"); return; } int t = ty(n); put("%s%d(", TY_NAME[t], (int)NODE_BLINE(n)); for (int i = 0; i < TY_NCH[t]; i++) shape(*slot(n, i)); put(")"); }
static void mshape(tree *s) { if (!s) { put("-"); return; } put("%s%d(", TY_NAME[s->t], s->id); for (int i = 0; i < TY_NCH[s->t]; i++) mshape(s->c[i]); put(")"); }

int main(int argc, char **argv)
{
    int maxn = atoi(argv[1]), maxops = atoi(argv[2]), maxdev = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
    long execs = 0, events = 0;
    hx_init(800);
    ch_start();
    do {
        hx_on = false;
        budget = maxn; ids = 0; npool = 0; nmade = 0; sp = 0; nrec = rpos = 0; dev = maxdev; depth = 0; nroots = nmroots = 0; lvl = 0;
        tree *s = tgen(ROOTS, 3, true);
        hx_on = true;
        char *h = hx_hist;
        h += tshow(s, h);
        h += sprintf(h, ":");
        roots[nroots++] = mkreal(s);
        lp = lreal;
        *lp = 0;
        int n = 0;
        bool mine = true;
        while (n < maxops && nroots) {
            todo[n] = next_op();
            if (n == 0) {
                int id = todo[0].kind * 64 + todo[0].a * 16 + todo[0].k;
                mine = id % parts == part;
                if (!mine) break;
            }
            h += sprintf(h, " %s %d %d;", ONAME[todo[n].kind], todo[n].a, todo[n].k);
            do_real(todo[n++]);
            put("| ");
            current();
        }
        if (mine) {
            for (int i = 0; i < nroots; i++) shape(roots[i]);
            while (depth) { TRAVpop(); depth--; put("| "); current(); }
            for (int i = 0; i < nroots; i++) CCNfree(roots[i]);
            nroots = 0;
            sprintf(h, " inner %d", nrec);
            if (hx_live) hx_fail("%ld blocks leaked: %s", hx_live, lreal);
            hx_on = false;
            mroots[nmroots++] = s;
            lp = lref;
            *lp = 0;
            for (int i = 0; i < n; i++) { do_model(todo[i]); put("| "); mcurrent(); }
            for (int i = 0; i < nmroots; i++) mshape(mroots[i]);
            while (sp) { mpop(); put("| "); mcurrent(); }
            if (strcmp(lreal, lref)) hx_fail("expected %.600s, got %.600s", lref, lreal);
            if (execs++ == 1000) printf("SAMPLE\t%s\t%.900s\n", hx_hist, lref);
            for (char *q = lref; *q; q++) events += *q == ' ';
        } else { hx_on = true; CCNfree(roots[0]); }
        hx_on = false;
        hx_track_reset();
    } while (ch_next());
    printf("OK\t%ld\t%ld\n", execs, events);
    hx_done = true;
    return 0;
}
void BreakpointHandler(node_st *n) { (void)n; }
