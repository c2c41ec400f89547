/* C10 (mode "copy") and C11 (mode "free"): copying and releasing every subtree of every tree, with every
   block of memory accounted for. spec.h: attrs_set, attrs_print, attrs_strings. */
#define HX_TRACK
#include "ast.h"

static int strv, linkv, filev;
static node_st *outside;
static node_st *rootn;
#ifndef EVALUATES
static void CCNevaluateAttributes(node_st *n) { (void)n; hx_fail("harness: nothing to evaluate"); }
#define evaluable false
static int calls;
#else
#define evaluable true
#endif

static char *text(int v)
{
    if (v == 0) return NULL;
    char *s = malloc(8);
    if (v == 1) sprintf(s, "s%d", ids++); else *s = 0;
    return s;
}
static void decorate(tree *s)
{
    if (!s) return;
    node_st *n = s->real;
    int k = s->id;
    NODE_ELINE(n) = 100 + k; NODE_BCOL(n) = 200 + k; NODE_ECOL(n) = 300 + k;
    NODE_FILENAME(n) = text(filev == 2 ? k % 2 : filev);
    attrs_set(n, k, strv == 3 ? k % 3 : strv, linkv == 0 ? NULL : linkv == 1 ? rootn : linkv == 2 ? n : outside);
    for (int i = 0; i < TY_NCH[s->t]; i++) decorate(s->c[i]);
}
/* the content of a node as text, with or without addresses */
static char *show(node_st *n, char *b, bool ptr)
{
    if (!n) return b + sprintf(b, "-");
    b += sprintf(b, "{%d %u.%u-%u.%u %s", NODE_TYPE(n), NODE_BLINE(n), NODE_BCOL(n), NODE_ELINE(n), NODE_ECOL(n), NODE_FILENAME(n) ? NODE_FILENAME(n) : "(null)");
    if (ptr) b += sprintf(b, " %p %p", (void *)n, (void *)NODE_FILENAME(n));
    b += attrs_print(n, b, ptr);
    for (int i = 0; i < NODE_NUMCHILDREN(n); i++) { b += sprintf(b, " "); b = show(NODE_CHILDREN(n)[i], b, ptr); }
    return b + sprintf(b, "}");
}
/* the blocks a tree owns, in preorder */
static void *own[1024];
static int nown;
static void owned(node_st *n)
{
    if (!n) return;
    if (nown > 900) hx_fail("the tree is not finite");
    own[nown++] = n;
    if (*(void **)&n->data) own[nown++] = *(void **)&n->data;   /* a node without fields has no data block */
    if (NODE_FILENAME(n)) own[nown++] = NODE_FILENAME(n);
    nown += attrs_strings(n, own + nown);
    for (int i = 0; i < NODE_NUMCHILDREN(n); i++) owned(NODE_CHILDREN(n)[i]);
}
static bool owns(void *p) { for (int i = 0; i < nown; i++) if (own[i] == p) return true; return false; }

static int inside;              /* run the operation inside a handler of another traversal */
static node_st *(*op)(node_st *);
static node_st *op_arg, *op_res;
node_st *H(int tv, node_st *n)
{
    if (op) { node_st *(*f)(node_st *) = op; op = NULL; op_res = f(op_arg); if (TRAVgetCurrent() == NULL || TRAVgetCurrent()->trav_type != TV_ENUM[tv]) hx_fail("the enclosing traversal is no longer current"); }
    return n;
}
static node_st *perform(node_st *(*f)(node_st *), node_st *arg)
{
    if (!inside) {
        node_st *r = f(arg);
        if (TRAVgetCurrent() != NULL) hx_fail("a traversal is current afterwards");
        return r;
    }
    op = f; op_arg = arg;
    TRAVstart(outside, TV_ENUM[0]);
    if (op) hx_fail("harness: handler not called");
    return op_res;
}
static node_st *pass_ret;
node_st *passfn(node_st *n) { return pass_ret ? pass_ret : n; }

/* evaluates the attributes of a tree; values of equations for children that are not there belong to nobody */
static void attributes(node_st *n)
{
    int first = hx_nblk;
    CCNevaluateAttributes(n);
    evaluated = true;
    nown = 0;
    owned(n);
    evaluated = false;
    for (int i = first, last = hx_nblk; i < last; i++) if (!hx_blk[i].freed && !owns(hx_blk[i].p)) free(hx_blk[i].p);
}
static char snap1[65536], snap2[65536];
static bool evaluate;
static void snap(char *b, node_st *n)   /* the tree and the node outside of it, which is never evaluated */
{
    evaluated = evaluate;
    b = show(n, b, true);
    evaluated = false;
    *show(outside, b, true) = 0;
}
int main(int argc, char **argv)
{
    bool copy = !strcmp(argv[1], "copy");
    int maxn = atoi(argv[2]);
    long execs = 0, events = 0;
    hx_init(300);
    CCNsetTreeCheck(false);
    ch_start();
    do {
        hx_on = false;
        hx_track_reset();
        budget = maxn; ids = 0; calls = 0; npool = 0; nmade = 0; op = NULL;
        tree *s = tgen(ANYTYPE, 4, true);
        strv = choose(4); linkv = strv == 1 || strv == 3 ? choose(4) : 3; filev = strv == 1 ? choose(3) : strv % 2;
        inside = choose(2);
        evaluate = evaluable && (ROOTS >> s->t & 1) && choose(2);
        int total = tsize(s), which = choose(total), w = which;
        char *h = hx_hist + sprintf(hx_hist, "%s node %d of ", argv[1], which);
        h += tshow(s, h);
        sprintf(h, " (strings %d, links %d, files %d, %s%s)", strv, linkv, filev, evaluate ? "evaluated, " : "", inside ? "inside a traversal" : "at top level");
        hx_on = true;
        tree o = {OUTSIDE, 77};
        outside = mkreal(&o);
        rootn = NULL;
        node_st *n = mkreal(s);
        rootn = n;
        decorate(s);
        decorate(&o);
        if (evaluate) attributes(n);
        tree *t = tnth(s, &w);
        node_st *target = t->real;
        snap(snap1, n);
        int before = hx_nblk;
        long live = hx_live;
        execs++;
        if (copy) {
            node_st *c = perform(CCNcopy, target);
            if (!c) hx_fail("the copy is NULL");
            snap(snap2, n);
            if (strcmp(snap1, snap2)) hx_fail("the source changed: %s became %s", snap1, snap2);
            *show(target, snap1, false) = 0;
            *show(c, snap2, false) = 0;
            if (strcmp(snap1, snap2)) hx_fail("the copy is %s; the source is %s", snap2, snap1);
            nown = 0;
            owned(c);
            for (int i = 0; i < nown; i++) {
                int k = hx_find(own[i]);
                if (k < before || hx_blk[k].freed) hx_fail("the copy is not made of new memory of its own");
                for (int j = 0; j < i; j++) if (own[j] == own[i]) hx_fail("two parts of the copy share memory");
            }
            if (evaluate ? hx_live < live + nown : hx_live != live + nown) hx_fail("%ld blocks more than the copy consists of", hx_live - live - nown);
            events += nown;
            snap(snap1, n);
            if (evaluable && (ROOTS >> t->t & 1) && choose(2)) {      /* the copy can be evaluated whatever became of its source */
                if (evaluate) strv = (strv + 1) % 4;
                attributes(c);
                evaluated = true;
                *show(c, snap2, true) = 0;
                evaluated = false;
            }
            if (perform(CCNfree, c) != NULL) hx_fail("CCNfree of the copy does not return NULL");
            snap(snap2, n);
            if (strcmp(snap1, snap2)) hx_fail("releasing the copy changed the source");
            if (hx_live != live) hx_fail("releasing the copy leaves %ld blocks", hx_live - live);
        } else {
            int how = t == s && (ROOTS >> s->t & 1) && !inside ? choose(3) : 0;
            nown = 0;
            evaluated = evaluate;
            owned(target);
            evaluated = false;
            int mine = nown;
            static bool gone[HX_MAXBLK];
            for (int i = 0; i < before; i++) gone[i] = hx_blk[i].freed;
            if (how == 0) {
                if (perform(CCNfree, target) != NULL) hx_fail("CCNfree does not return NULL");
            } else {            /* the tree is released at the end of a run of the compiler */
                pass_ret = NULL;
                if (how == 2) { tree *r2 = tnew(s->t); pass_ret = mkreal(r2); mine = 0; nown = 0; owned(pass_ret); live = hx_live; mine = nown; }
                hx_on = true;
                CCNrun(n);
            }
            nown = mine;
            for (int i = 0; i < hx_nblk; i++) {
                bool m = owns(hx_blk[i].p);
                if (i >= before && !m && !hx_blk[i].freed) hx_fail("memory allocated while releasing is not freed");
                if (i < before || m) {
                    if (m && !hx_blk[i].freed) hx_fail("a block of the tree is not released");
                    if (!m && hx_blk[i].freed && !(i < before && gone[i])) hx_fail("a block that does not belong to the tree is released");
                }
            }
            if (hx_live != live - mine) hx_fail("%ld blocks too many", hx_live - live + mine);
            events += mine;
        }
    } while (ch_next());
    printf("SAMPLE\t%s\t%s\n", hx_hist, copy ? snap2 : "released exactly the blocks of the subtree");
    printf("OK\t%ld\t%ld\n", execs, events);
    hx_done = true;
    return 0;
}
void BreakpointHandler(node_st *n) { (void)n; }
