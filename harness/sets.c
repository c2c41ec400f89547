/* C15: the members of every set under test, seen through the tree check and through traversals. */
#define HX_TRACK
#include "hx.h"
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include "spec.h"
void BreakpointHandler(node_st *n) { (void)n; }
node_st *ppp(node_st *n) { return n; }
int main(void)
{
    long st = 0, tr = 0;
    hx_init(300);
    hx_on = false;
    stderr = fopen("/dev/null", "w");
    for (int i = 0; i < NSET; i++) {
        node_st *k = mkk(i);
        for (int t = 0; t < NT; t++) {
            node_st *c = *slot(i, k) = mk(t);
            sprintf(hx_hist, "set %d, node type %d", i, t);
            int e = CTIgetErrors();
            TRAVstart(k, TRAV_check);
            e = CTIgetErrors() - e;
            if (e != !(SM[i] >> t & 1)) hx_fail(e ? "a member is not accepted as child" : "a node that is no member is accepted as child");
            st++; tr++;
            (void)c;
        }
    }
    for (int i = 0; i < NTRAV; i++) for (int t = 0; t < NT + 1 + (NSET < 2 ? NSET : 2); t++) {
        node_st *n = t < NT ? mk(t) : t == NT ? ASTroot() : mkk(t - NT - 1);
        called = 0; which = 0;
        sprintf(hx_hist, "traversal %d, node type %d", i, t);
        TRAVstart(n, TV[i]);
        if (called != (t < NT && TM[i] >> t & 1)) hx_fail(called ? "visits a node that is no member" : "does not visit a member");
        if (called && (with != i || which != n)) hx_fail("calls another handler");
        st++; tr++;
    }
    printf("OK\t%ld\t%ld\n", st, tr);
    hx_done = true;
    return 0;
}
