/* Exhaustive exploration of palm's hash table against a map model.
 * usage: ht KIND SIZE MODE DEPTH      KIND: str|ptr|int|one|mod  MODE: bfs|dfs
 * bfs: breadth-first over all operations, states deduplicated on the observable content in bucket
 *      order, until no new state appears.   dfs: every operation sequence of length DEPTH, no merging. */
#include "hx.h"
#include "palm/hash_table.h"

#define NK 4
#define NA 2 /* two distinct pointers with equal content per key (content-keyed tables) */
static const char *kind;
static size_t tsize;
static char skeys[NA][NK][8] = {{"a", "b", "", "ba"}, {"a", "b", "", "ba"}};
static int ikeys[NA][NK] = {{0, 1, -1, 5}, {0, 1, -1, 5}};
static char pmem[NK * 64];
static bool ptr_keys(void) { return kind[0] == 'p'; }
static bool str_keys(void) { return kind[0] == 's'; }

static void *key(int k, int alias)
{
    if (str_keys()) return skeys[alias][k];
    if (ptr_keys()) return pmem + (k == 0 ? 0 : k == 1 ? 32 : k == 2 ? 33 : 96);
    return &ikeys[alias][k];
}
static int key_id(void *p)
{
    if (!p) return -1;
    for (int k = 0; k < NK; k++) {
        if (str_keys() ? strcmp(p, skeys[0][k]) == 0 : ptr_keys() ? p == key(k, 0) : *(int *)p == ikeys[0][k]) return k;
    }
    return -1;
}
static size_t h_one(void *p) { return 7; }
static size_t h_mod(void *p) { return (size_t)(*(int *)p) & 1; }
static bool eq_int(void *a, void *b) { return *(int *)a == *(int *)b; }

static htable_st *newtable(void)
{
    if (str_keys()) return HTnew_String(tsize);
    if (ptr_keys()) return HTnew_Ptr(tsize);
    if (kind[0] == 'i') return HTnew_Int(tsize);
    return HTnew(tsize, kind[0] == 'o' ? h_one : h_mod, eq_int);
}

#define V(i) ((void *)(intptr_t)(i))
#define I(v) ((int)(intptr_t)(v))
/* model */
typedef struct { bool in[NK]; int val[NK]; } model;
static int calls[NK], ncalls, datac;
static int F(int v) { return v == 0 ? 0 : v % 3 + 1; }
static int FK(int k, int v) { return (v + k) % 4; }
static int FD(int d, int k, int v) { return (v + d + 2 * k) % 4; }
static void *fmap(void *v) { ncalls++; return V(F(I(v))); }
static void *fmapk(void *k, void *v) { int id = key_id(k); if (id < 0) hx_fail("mapWithKey passes an unknown key"); calls[id]++; ncalls++; return V(FK(id, I(v))); }
static void *fmapd(void *d, void *k, void *v) { int id = key_id(k); if (id < 0) hx_fail("mapWithDataAndKey passes an unknown key"); if (d != &datac) hx_fail("mapWithDataAndKey passes wrong data"); calls[id]++; ncalls++; return V(FD(datac, id, I(v))); }
struct acc { int n, sum, bits[4]; };
static void *ffold(void *a, void *v) { struct acc *x = a; x->n++; if (I(v) < 0 || I(v) > 3) hx_fail("fold passes a foreign value"); x->bits[I(v)]++; return a; }
static int ckeys, cvals;
static void *ckey(void *k) { ckeys++; int id = key_id(k); if (id < 0) hx_fail("deep copy passes an unknown key"); return key(id, 1); }
static void *cval(void *v) { cvals++; return V(F(I(v))); }

static int count(model *m) { int n = 0; for (int i = 0; i < NK; i++) n += m->in[i]; return n; }

enum { INS, INSA, REM, REMA, CLEAR, MAP, MAPK, MAPD, SETALL, SETI, CPY, DEEP };
typedef struct { int op, k, v; const char *name; } oper;
static oper ops[128];
static int nops;
static void mkops(void)
{
    static char names[128][32];
#define ADD(o, kk, vv, ...) do { ops[nops] = (oper){o, kk, vv, names[nops]}; snprintf(names[nops], 32, __VA_ARGS__); nops++; } while (0)
    for (int k = 0; k < NK; k++) for (int v = 0; v < 3; v++) ADD(INS, k, v, "ins(%d,%d)", k, v);
    if (!ptr_keys()) for (int k = 0; k < NK; k++) ADD(INSA, k, 3, "insAlias(%d,3)", k);
    for (int k = 0; k < NK; k++) ADD(REM, k, 0, "rem(%d)", k);
    if (!ptr_keys()) ADD(REMA, 1, 0, "remAlias(1)");
    ADD(CLEAR, 0, 0, "clear"); ADD(MAP, 0, 0, "map"); ADD(MAPK, 0, 0, "mapk"); ADD(MAPD, 0, 0, "mapd");
    ADD(SETALL, 0, 0, "iterSetAll"); for (int i = 0; i < 3; i++) ADD(SETI, i, 0, "iterSet(%d)", i);
    ADD(CPY, 0, 0, "cpy"); ADD(DEEP, 0, 0, "deep");
}

/* Complete observation of a table against the model. */
static int order[NK], norder;
static void observe(htable_st *t, model *m, const char *who)
{
    if (HTelementCount(t) != (size_t)count(m)) hx_fail("%s: count is %zu, model has %d", who, HTelementCount(t), count(m));
    for (int k = 0; k < NK; k++) for (int a = 0; a < NA; a++) {
        void *v = HTlookup(t, key(k, a));
        if (v != (m->in[k] ? V(m->val[k]) : NULL)) hx_fail("%s: lookup(key %d) gives %d, model %s %d", who, k, I(v), m->in[k] ? "has" : "lacks it", m->val[k]);
    }
    int seen[NK] = {0};
    norder = 0;
    for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) {
        int id = key_id(HTiterKey(it));
        if (id < 0 || !m->in[id]) hx_fail("%s: iteration yields a key that is not in the table", who);
        if (seen[id]++) hx_fail("%s: iteration yields key %d twice", who, id);
        if (I(HTiterValue(it)) != m->val[id]) hx_fail("%s: iteration yields a wrong value for key %d", who, id);
        order[norder++] = id;
    }
    if (norder != count(m)) hx_fail("%s: iteration yields %d of %d entries", who, norder, count(m));
    struct acc a = {0}; struct acc e = {0};
    HTfold(t, ffold, &a);
    for (int k = 0; k < NK; k++) if (m->in[k]) { e.n++; e.bits[m->val[k]]++; }
    if (memcmp(&a, &e, sizeof a)) hx_fail("%s: fold saw other values than the table holds", who);
    long live = hx_live;
    for (int stop = 0; stop < norder; stop++) { /* early exit at every position */
        int i = 0;
        for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) if (i++ == stop) { HTiterateCancel(it); break; }
    }
    if (hx_live != live) hx_fail("%s: iteration leaks or frees foreign memory", who);
}

static htable_st *apply(htable_st *t, model *m, oper *o)
{
    memset(calls, 0, sizeof calls); ncalls = 0;
    int n = count(m);
    switch (o->op) {
    case INS: case INSA:
        if (!HTinsert(t, key(o->k, o->op == INSA), V(o->v))) hx_fail("insert reports failure");
        m->in[o->k] = true; m->val[o->k] = o->v;
        break;
    case REM: case REMA: {
        void *r = HTremove(t, key(o->k, o->op == REMA));
        if (r != (m->in[o->k] ? V(m->val[o->k]) : NULL)) hx_fail("remove returned %d", I(r));
        m->in[o->k] = false;
        break; }
    case CLEAR: HTclear(t); memset(m->in, 0, sizeof m->in); break;
    case MAP: HTmap(t, fmap); for (int k = 0; k < NK; k++) m->val[k] = F(m->val[k]); break;
    case MAPK: HTmapWithKey(t, fmapk); for (int k = 0; k < NK; k++) m->val[k] = FK(k, m->val[k]); break;
    case MAPD: datac = 1; HTmapWithDataAndKey(t, &datac, fmapd); for (int k = 0; k < NK; k++) m->val[k] = FD(1, k, m->val[k]); break;
    case SETALL:
        for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) { int id = key_id(HTiterKey(it)); if (id < 0) hx_fail("iteration yields unknown key"); HTiterSetValue(it, V((id + 1) % 4)); if (I(HTiterValue(it)) != (id + 1) % 4) hx_fail("iterator value not updated"); m->val[id] = (id + 1) % 4; }
        break;
    case SETI: {
        int i = 0;
        for (htable_iter_st *it = HTiterate(t); it; it = HTiterateNext(it)) if (i++ == o->k) { int id = key_id(HTiterKey(it)); if (id < 0) hx_fail("iteration yields unknown key"); HTiterSetValue(it, V(3)); m->val[id] = 3; HTiterateCancel(it); break; }
        break; }
    case CPY: case DEEP: {
        ckeys = cvals = 0;
        model om = *m;
        htable_st *c = o->op == CPY ? HTcpy(t) : HTdeep_copy(t, ckey, cval);
        if (o->op == DEEP) {
            if (ckeys != n || cvals != n) hx_fail("deep copy called the copy functions %d/%d times for %d entries", ckeys, cvals, n);
            for (int k = 0; k < NK; k++) m->val[k] = F(m->val[k]);
        }
        observe(t, &om, "original after copy");
        /* the copy is independent of the original */
        HTclear(c); observe(t, &om, "original after clearing the copy"); HTdelete(c);
        c = o->op == CPY ? HTcpy(t) : HTdeep_copy(t, ckey, cval);
        HTdelete(t);
        t = c;
        break; }
    }
    if (o->op == MAP || o->op == MAPK || o->op == MAPD) {
        if (ncalls != n) hx_fail("map function called %d times for %d entries", ncalls, n);
        if (o->op != MAP) for (int k = 0; k < NK; k++) if (calls[k] != m->in[k]) hx_fail("map function called %d times for key %d", calls[k], k);
    }
    for (int k = 0; k < NK; k++) if (!m->in[k]) m->val[k] = 0;
    return t;
}

static unsigned long transitions, states, sequences, evals;
static uint64_t outcomes;
static void hist_of(int *path, int n)
{
    int w = 0;
    hx_hist[0] = 0;
    for (int i = 0; i < n; i++) w += snprintf(hx_hist + w, sizeof hx_hist - w, "%s%s", i ? " " : "", ops[path[i]].name);
}
static void execute(int *path, int n, model *m, bool every)
{
    hist_of(path, n);
    alarm(60);
    long live = hx_live;
    memset(m, 0, sizeof *m);
    htable_st *t = newtable();
    for (int i = 0; i < n; i++) { t = apply(t, m, &ops[path[i]]); if (every) observe(t, m, ops[path[i]].name); evals++; }
    observe(t, m, "final state");
    HTdelete(t);
    if (hx_live != live) hx_fail("%ld blocks leaked (or freed twice) over the table's life", hx_live - live);
}
/* state code: the content in the table's own order, base 20 digits */
static uint64_t code(model *m) { uint64_t c = 1; for (int i = 0; i < norder; i++) c = c * 20 + order[i] * 4 + m->val[order[i]]; return c; }

#define MAXS 200000
static uint64_t *hset; static int hcap = 1 << 20;
static bool seen_add(uint64_t c) { size_t i = (c * 0x9E3779B97F4A7C15ull) >> 44; while (hset[i]) { if (hset[i] == c) return true; i = (i + 1) & (hcap - 1); } hset[i] = c; return false; }
static struct node { int parent, op, depth; } *q;

static void bfs(void)
{
    int path[64], maxd = 0; model m;
    hset = calloc(hcap, 8); q = malloc(sizeof *q * MAXS);
    int head = 0, tail = 0;
    execute(path, 0, &m, true); seen_add(code(&m)); q[tail++] = (struct node){-1, -1, 0};
    while (head < tail) {
        struct node cur = q[head];
        for (int o = 0; o < nops; o++) {
            int n = cur.depth; path[n] = o;
            for (int i = head, d = n - 1; d >= 0; i = q[i].parent, d--) path[d] = q[i].op;
            execute(path, n + 1, &m, false);
            transitions++;
            if (!seen_add(code(&m))) { if (tail >= MAXS) { printf("CAP\n"); fflush(stdout); _exit(4); } q[tail++] = (struct node){head, o, n + 1}; if (n + 1 > maxd) maxd = n + 1; }
        }
        head++;
    }
    states = tail;
    printf("OK\tstates=%lu\ttransitions=%lu\tevals=%lu\tdepth=%d\n", states, transitions, evals, maxd);
}
static void dfs(int depth)
{
    int path[16] = {0}; model m;
    for (;;) {
        execute(path, depth, &m, true);
        sequences++; transitions += depth;
        int i = depth - 1;
        while (i >= 0 && ++path[i] == nops) path[i--] = 0;
        if (i < 0) break;
    }
    printf("OK\tstates=%lu\ttransitions=%lu\tevals=%lu\tdepth=%d\n", sequences, transitions, evals, depth);
}
int main(int argc, char **argv)
{
    hx_init(0);
    kind = argv[1]; tsize = atoi(argv[2]); mkops();
    if (!strcmp(argv[3], "bfs")) bfs(); else dfs(atoi(argv[4]));
    fflush(stdout);
    hx_done = true;
    return 0;
}
