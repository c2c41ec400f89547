/* A compiler that exercises the run-time system: construction, traversal data, copying, attribute evaluation, check,
 * the hash table, string and message functions of palm. Run with every allocation failing in turn. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/action_handling.h"
#include "ccngen/ag.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/equation.h"
#include "ccngen/gate.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include "palm/ctinfo.h"
#include "palm/hash_table.h"
#include "palm/memory.h"
#include "palm/str.h"
#include <malloc.h>
#include <stdio.h>

void BreakpointHandler(node_st *n) { (void)n; }
bool go(void) { return true; }
int EVALleaf_this_s() { return 3; }
int EVALprog_this_t(int s) { return s + 1; }
int EVALprog_this_t_body_NULL() { return 7; }
void WAinit(void) { DATA_WA_GET()->n = 5; }
void WAfini(void) { printf("walk %d\n", DATA_WA_GET()->n); }
node_st *WAleaf(node_st *n)
{
    DATA_WA_GET()->n++;
    char *old = LEAF_NAME(n);
    LEAF_NAME(n) = STRcat(old, "!");
    MEMfree(old);
    return n;
}

static void show(node_st *p)
{
    printf("%d %d %s %s\n", PROG_T(p), LEAF_S(PROG_BODY(p)), LEAF_NAME(PROG_BODY(p)), LEAF_NAME(PROG_TAIL(p)));
}

static void *ident(void *p) { return p; }
static void *dup(void *p) { return STRcpy(p); }
static void *release(void *p) { MEMfree(p); return NULL; }

node_st *LDLoad(node_st *root)
{
    if (root) {
        return root;
    }
    node_st *a = ASTleaf(), *b = ASTleaf();
    LEAF_NAME(a) = STRcpy("a");
    LEAF_NAME(b) = STRfmt("%s-%d", "b", 12);
    root = ASTprog(a, KD_big);
    PROG_TAIL(root) = b;
    CCNevaluateAttributes(root);
    node_st *c = CCNcopy(root);
    CCNevaluateAttributes(c);
    show(c);
    PROG_TAIL(c) = CCNfree(PROG_TAIL(c));
    CCNfree(c);
    show(root);
    static int one = 1, two = 2;
    htable_st *t = HTnew_String(3), *u = HTnew_Int(2), *v = HTnew_Ptr(4);
    char *k[] = {"x", "yy", "zzz", "w"};
    for (int i = 0; i < 4; i++) {
        HTinsert(t, k[i], STRupper(k[i]));
        HTinsert(v, k[i], k[i]);
    }
    HTinsert(u, &one, "one");
    HTinsert(u, &two, "two");
    htable_st *d = HTdeep_copy(t, ident, dup), *w = HTcpy(v);
    for (htable_iter_st *i = HTiterate(d); i; i = HTiterateNext(i)) {
        printf("%s=%s ", (char *)HTiterKey(i), (char *)HTiterValue(i));
    }
    MEMfree(HTremove(d, "yy"));
    HTmap(d, release);
    HTmap(t, release);
    printf("%zu %s %zu\n", HTelementCount(d), (char *)HTlookup(u, &two), HTelementCount(w));
    HTclear(w);
    HTdelete(t); HTdelete(u); HTdelete(v); HTdelete(w); HTdelete(d);
    char *s[] = {STRcatn(3, "p", "q", "r"), STRitoa(42), STRlower("ABC"), STRsubStr("abcdef", 1, 3), STRsubstToken("a-b-c", "-", "++"),
                 STRncpy("abcdef", 4), STRtok("u,v,w", ","), STRtok(NULL, ","), STRtok(NULL, ","), STRtok(NULL, ","), STRnull()};
    for (unsigned i = 0; i < sizeof s / sizeof *s; i++) {
        printf("[%s]", s[i] ? s[i] : "NULL");
        MEMfree(s[i]);
    }
    int *m = MEMmalloc(4 * sizeof *m);
    m[3] = 9;
    m = MEMrealloc(m, 400 * sizeof *m);
    if (malloc_usable_size(m) < 400 * sizeof *m) {
        printf("OOOPS: the block was not enlarged\n");
    }
    for (int i = 4; i < 400; i++) {
        m[i] = i;
    }
    int *n = MEMcopy(400 * sizeof *m, m);
    printf("%d %d %d\n", m[3], n[3], n[399]);
    MEMfree(m);
    MEMfree(n);
    CTI(CTI_NOTE, true, "a note of %d words, %s", 5, "which is a little longer than the line of a message is allowed to be and has to be broken");
    struct ctinfo info = {3, 4, 3, 9, "some file", "the line of text"};
    CTIobj(CTI_WARN, true, info, "a warning %s", "with a place");
    return root;
}

int main(void)
{
    CCNrun(NULL);
    printf("done\n");
    return 0;
}
