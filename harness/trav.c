/* C08: every traversal on every tree with every (bounded) handler behaviour, compared with a reference visitor. */
#include "ast.h"

static char log_real[16384], log_ref[16384], *lp;
static int behav[256], nb, dev;         /* behaviour of each handler invocation, in order */
static bool in_ref;
enum { B_CHILDREN, B_REVERSE, B_NONE, B_REPLACE, B_NULL, B_NESTED, B_SLOT /* + slot */ };
static int nest_tv;

static int pick(int t)
{
    int b = 0;
    if (dev > 0) b = choose(B_SLOT + TY_NCH[t]);
    if (b) dev--;
    if (nb == 256) hx_fail("runs away");
    return behav[nb++] = b;
}
static int lvl;
node_st *H(int tv, node_st *n)
{
    if (++lvl > 60) hx_fail("runs away");
    int t;
    for (t = 0; t < NTY; t++) if (TY_ENUM[t] == NODE_TYPE(n)) break;
    lp += sprintf(lp, "<%d:%s%d ", tv, TY_NAME[t], (int)NODE_BLINE(n));
    if (TRAVgetCurrent()->trav_type != TV_ENUM[tv]) hx_fail("handler of traversal %d runs inside traversal type %d", tv, TRAVgetCurrent()->trav_type);
    int b = pick(t);
    node_st *res = n;
    switch (b) {
    case B_CHILDREN: TRAVchildren(n); break;
    case B_REVERSE: for (int i = TY_NCH[t] - 1; i >= 0; i--) *slot(n, i) = TRAVopt(*slot(n, i)); break;
    case B_NONE: break;
    case B_REPLACE: TRAVchildren(n); { tree x = {t, 900 + nb}; res = mkreal(&x); } break;
    case B_NULL: res = NULL; break;
    case B_NESTED:
        n = TRAVstart(n, TV_ENUM[nest_tv]);
        if (TRAVgetCurrent() == NULL || TRAVgetCurrent()->trav_type != TV_ENUM[tv]) hx_fail("after a nested traversal the enclosing one is not current");
        if (n && NODE_TYPE(n) == TY_ENUM[t]) TRAVchildren(n);
        res = n;
        break;
    default: travchild(n, b - B_SLOT);
    }
    lp += sprintf(lp, "> ");
    lvl--;
    return res;
}

static int rb;
static tree *ref(int tv, tree *s)
{
    if (!s) return NULL;
    if (!(TV_MASK[tv] >> s->t & 1)) {
        for (int i = 0; i < TY_NCH[s->t]; i++) s->c[i] = ref(tv, s->c[i]);
        return s;
    }
    lp += sprintf(lp, "<%d:%s%d ", tv, TY_NAME[s->t], s->id);
    int t = s->t, b = rb < nb ? behav[rb] : 0;
    rb++;
    int at = rb;
    tree *res = s;
    switch (b) {
    case B_CHILDREN: for (int i = 0; i < TY_NCH[t]; i++) s->c[i] = ref(tv, s->c[i]); break;
    case B_REVERSE: for (int i = TY_NCH[t] - 1; i >= 0; i--) s->c[i] = ref(tv, s->c[i]); break;
    case B_NONE: break;
    case B_REPLACE:
        for (int i = 0; i < TY_NCH[t]; i++) s->c[i] = ref(tv, s->c[i]);
        res = tnew(t);
        res->id = 900 + rb;
        break;
    case B_NULL: res = NULL; break;
    case B_NESTED:
        s = ref(nest_tv, s);
        if (s && s->t == t) for (int i = 0; i < TY_NCH[t]; i++) s->c[i] = ref(tv, s->c[i]);
        res = s;
        break;
    default: s->c[b - B_SLOT] = ref(tv, s->c[b - B_SLOT]);
    }
    (void)at;
    lp += sprintf(lp, "> ");
    return res;
}

static bool same(tree *s, node_st *n)
{
    if (!s || !n) return !s && !n;
    if (NODE_TYPE(n) != TY_ENUM[s->t] || (int)NODE_BLINE(n) != s->id) return false;
    for (int i = 0; i < TY_NCH[s->t]; i++) if (!same(s->c[i], *slot(n, i))) return false;
    return true;
}

int main(int argc, char **argv)
{
    int maxn = atoi(argv[1]), maxdev = atoi(argv[2]), depth = atoi(argv[3]);
    long execs = 0, events = 0;
    hx_init(300);
    for (int tv = 0; tv < NTV; tv++) {
        ch_start();
        do {
            budget = maxn; ids = 0; npool = 0; nmade = 0; nb = 0; dev = maxdev; lvl = 0;
            hx_live = 0;
            nest_tv = (tv + 1) % NTV;
            tree *s = tgen(ANYTYPE, depth, true);
            if (!s) break;
            char *h = hx_hist + sprintf(hx_hist, "traversal %s on ", TV_NAME[tv]);
            tshow(s, h);
            node_st *n = mkreal(s);
            lp = log_real; *lp = 0;
            n = TRAVstart(n, TV_ENUM[tv]);
            if (TRAVgetCurrent() != NULL) hx_fail("a traversal is still current after the end");
            lp = log_ref; *lp = 0; rb = 0;
            s = ref(tv, s);
            h = hx_hist + strlen(hx_hist);
            h += sprintf(h, ", handler behaviours");
            for (int i = 0; i < nb; i++) h += sprintf(h, " %d", behav[i]);
            if (strcmp(log_real, log_ref)) hx_fail("calls are %s; expected %s", log_real, log_ref);
            if (!same(s, n)) hx_fail("the resulting tree is wrong");
            execs++;
            events += nb;
            for (int i = 0; i < nmade; i++) { free(*(void **)&made[i]->data); free(made[i]); }
            if (hx_live) hx_fail("%ld blocks leaked by the traversal machinery", hx_live);
        } while (ch_next());
    }
    printf("SAMPLE\t%s\t%s\n", hx_hist, log_real);
    printf("OK\t%ld\t%ld\n", execs, events);
    hx_done = true;
    return 0;
}
void BreakpointHandler(node_st *n) { (void)n; }
