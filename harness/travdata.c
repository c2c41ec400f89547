/* C09: traversal data is private to one activation of its traversal, starts zeroed, is set up and torn
   down exactly once around it; every nesting of traversals (and bare push/pop) within the bounds. */
#define HX_TRACK
#include "ast.h"
/* spec.h: TV_HASDATA[], data_set(tv, v), data_ok(tv, v) (v = 0: all fields zero), data_ptr(tv) */

static struct act { int tv, v; bool inited, finied; void *p; } stack[32];
static int sp, stamp, ops;
static char ev[8192], *ep;

static struct act *top(int tv, const char *where)
{
    if (sp == 0 || stack[sp - 1].tv != tv) hx_fail("%s of traversal %d while %s%d is the innermost activation", where, tv, sp ? "" : "none of ", sp ? stack[sp - 1].tv : 0);
    return &stack[sp - 1];
}
static void look(int tv, const char *where)
{
    struct act *a = top(tv, where);
    if (TRAVgetCurrent() == NULL || TRAVgetCurrent()->trav_type != TV_ENUM[tv]) hx_fail("%s of traversal %d: the current traversal is another one", where, tv);
    if (!TV_HASDATA[tv]) return;
    if (!a->inited) hx_fail("%s of traversal %d before its init function", where, tv);
    if (a->finied) hx_fail("%s of traversal %d after its fini function", where, tv);
    if (a->p != data_ptr(tv)) hx_fail("%s of traversal %d sees other data than its init function", where, tv);
    if (!data_ok(tv, a->v)) hx_fail("%s of traversal %d: data of this activation changed or is not its own", where, tv);
}
void HI(int tv)
{
    ep += sprintf(ep, "init%d ", tv);
    struct act *a = top(tv, "init function");
    if (a->inited) hx_fail("init function of traversal %d called twice", tv);
    a->inited = true;
    a->p = data_ptr(tv);
    for (int i = 0; i < sp - 1; i++) if (TV_HASDATA[stack[i].tv] && stack[i].p == a->p) hx_fail("data shared with an enclosing activation");
    if (!data_ok(tv, 0)) hx_fail("data of traversal %d is not zeroed when its init function runs", tv);
    look(tv, "init function");
    if (choose(2)) { a->v = ++stamp; data_set(tv, a->v); }
}
void HF(int tv)
{
    ep += sprintf(ep, "fini%d ", tv);
    look(tv, "fini function");
    stack[sp - 1].finied = true;
}
static void enter(int tv) { if (sp == 32) hx_fail("runs away"); stack[sp++] = (struct act){tv, 0, false, false, NULL}; }
static void leave(int tv)
{
    struct act *a = top(tv, "end");
    if (TV_HASDATA[tv] && (!a->inited || !a->finied)) hx_fail("traversal %d ended without its %s function", tv, a->inited ? "fini" : "init");
    sp--;
    if (sp) { ep += sprintf(ep, "back "); look(stack[sp - 1].tv, "return from a nested traversal"); }
    else if (TRAVgetCurrent() != NULL) hx_fail("a traversal is still current after the end");
}
static void start(int tv, node_st *n)
{
    ep += sprintf(ep, "start%d ", tv);
    enter(tv);
    node_st *r = TRAVstart(n, TV_ENUM[tv]);
    if (r != n) hx_fail("TRAVstart returned another node");
    leave(tv);
}
node_st *H(int tv, node_st *n)
{
    int t;
    for (t = 0; t < NTY; t++) if (TY_ENUM[t] == NODE_TYPE(n)) break;
    ep += sprintf(ep, "%s%d ", TY_NAME[t], tv);
    look(tv, "handler");
    if (TV_HASDATA[tv]) { stack[sp - 1].v = ++stamp; data_set(tv, stamp); }
    if (ops > 0) {
        int o = choose(2 + 2 * NTV);
        if (o) ops--;
        if (o == 1) start(tv, NULL);
        else if (o >= 2 && o < 2 + NTV) start(o - 2, n);
        else if (o >= 2 + NTV) {
            int k = o - 2 - NTV;
            ep += sprintf(ep, "push%d ", k);
            enter(k);
            TRAVpush(TV_ENUM[k]);
            look(k, "after push");
            for (int i = 0; i < TY_NCH[t]; i++) TRAVopt(*slot(n, i));
            look(k, "before pop");
            TRAVpop();
            leave(k);
        }
    }
    TRAVchildren(n);
    look(tv, "handler (end)");
    return n;
}
int main(int argc, char **argv)
{
    int maxn = atoi(argv[1]), maxops = atoi(argv[2]);
    long execs = 0, events = 0;
    hx_init(300);
    for (int tv = 0; tv < NTV; tv++) {
        ch_start();
        do {
            hx_on = false;
            budget = maxn; ids = 0; npool = 0; nmade = 0; sp = 0; stamp = 0; ops = maxops; ep = ev; *ep = 0;
            tree *s = tgen(ROOTS, 3, true);
            char *h = hx_hist + sprintf(hx_hist, "traversal %d on ", tv);
            h += tshow(s, h);
            h += sprintf(h, ", choices from %d:", ch_n);
            node_st *n = mkreal(s);
            hx_on = true;
            start(tv, n);
            if (hx_live) hx_fail("%ld blocks leaked: %s", hx_live, ev);
            hx_on = false;
            hx_track_reset();
            for (int i = 0; i < nmade; i++) { free(*(void **)&made[i]->data); free(made[i]); }
            execs++;
            for (char *q = ev; *q; q++) events += *q == ' ';
        } while (ch_next());
    }
    printf("SAMPLE\t%s\t%s\n", hx_hist, ev);
    printf("OK\t%ld\t%ld\n", execs, events);
    hx_done = true;
    return 0;
}
void BreakpointHandler(node_st *n) { (void)n; }
