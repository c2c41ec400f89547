/* Kit for exploring trees of a generated AST. The generated spec.h describes the specification:
   NTY node types, per type its C constructor (mk), its slots with the allowed types, its traversals. */
#pragma once
#include "hx.h"
#include <stdint.h>
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include "palm/ctinfo.h"
#include "palm/memory.h"
#include "spec.h"

/* ---- stateless depth-first exploration: an execution is a sequence of choices */
#define MAXCH 64
static int ch_val[MAXCH], ch_lim[MAXCH], ch_n, ch_len;
static int choose(int n)
{
    if (n <= 1) return 0;
    if (ch_n == MAXCH) hx_fail("harness: too many choices");
    if (ch_n == ch_len) { ch_val[ch_n] = 0; ch_lim[ch_n] = n; ch_len++; }
    else if (ch_lim[ch_n] != n) hx_fail("execution is not a function of its choices (choice %d had %d alternatives, now %d)", ch_n, ch_lim[ch_n], n);
    return ch_val[ch_n++];
}
static void ch_start(void) { ch_len = ch_n = 0; }
static bool ch_next(void)
{
    ch_len = ch_n;
    ch_n = 0;
    while (ch_len > 0) {
        if (++ch_val[ch_len - 1] < ch_lim[ch_len - 1]) return true;
        ch_len--;
    }
    return false;
}

/* ---- reference trees */
#define MAXSLOT 4
typedef struct tree {
    int t, id;
    struct tree *c[MAXSLOT];
    node_st *real;
} tree;
static tree pool[512];
static int npool;
static int budget, ids;
static node_st *made[1024];      /* every node constructed by the harness in this execution */
static int nmade;

static tree *tnew(int t)
{
    tree *s = &pool[npool++];
    memset(s, 0, sizeof *s);
    s->t = t;
    s->id = ++ids;
    return s;
}

/* A tree of any type in mask (bit i: type i), NULL included unless nonnull; depth and node budget bounded. */
static tree *tgen(unsigned mask, int depth, bool nonnull)
{
    int opts[16], n = 0;
    if (!nonnull) opts[n++] = -1;
    if (depth > 0 && budget > 0)
        for (int i = 0; i < NTY; i++) if (mask >> i & 1) opts[n++] = i;
    if (n == 0) return NULL;
    int o = opts[choose(n)];
    if (o < 0) return NULL;
    budget--;
    tree *s = tnew(o);
    for (int i = 0; i < TY_NCH[o]; i++) s->c[i] = tgen(TY_MASK[o][i], depth - 1, false);
    return s;
}

static node_st *mkreal(tree *s)
{
    if (!s) return NULL;
    node_st *n = mk(s->t);
    if (NODE_TYPE(n) != TY_ENUM[s->t]) hx_fail("constructor of %s makes a node of another type", TY_NAME[s->t]);
    if (NODE_NUMCHILDREN(n) != TY_NCH[s->t]) hx_fail("node %s has %ld children", TY_NAME[s->t], NODE_NUMCHILDREN(n));
    made[nmade++] = n;
    s->real = n;
    NODE_BLINE(n) = s->id;
    for (int i = 0; i < TY_NCH[s->t]; i++) *slot(n, i) = mkreal(s->c[i]);
    return n;
}

static int tshow(tree *s, char *b)
{
    char *o = b;
    if (!s) return sprintf(b, "-");
    b += sprintf(b, "%s", TY_NAME[s->t]);
    if (TY_NCH[s->t]) {
        for (int i = 0; i < TY_NCH[s->t]; i++) { b += sprintf(b, i ? " " : "("); b += tshow(s->c[i], b); }
        b += sprintf(b, ")");
    }
    return b - o;
}

static int tsize(tree *s)
{
    if (!s) return 0;
    int n = 1;
    for (int i = 0; i < TY_NCH[s->t]; i++) n += tsize(s->c[i]);
    return n;
}
static tree *tnth(tree *s, int *n)      /* n-th node in preorder */
{
    if (!s) return NULL;
    if ((*n)-- == 0) return s;
    for (int i = 0; i < TY_NCH[s->t]; i++) { tree *r = tnth(s->c[i], n); if (r) return r; }
    return NULL;
}
