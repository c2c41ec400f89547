/* Exhaustive comparison of palm's string functions with reference implementations over all strings
 * up to length MAXL over a small alphabet, including NULL.  usage: strs MAXL PART NPARTS */
#include "hx.h"
#include "palm/str.h"
#include <limits.h>

static const char alpha[] = {'a', 'A', 'b', ',', (char)0xe9};
#define NALPHA ((int)sizeof alpha)
static char *S[4096];
static int NS;
static unsigned long cases, nontrivial;

static const char *show(const char *s) { static char b[8][64]; static int i; char *o = b[i++ & 7]; if (!s) return "NULL"; snprintf(o, 64, "\"%s\"", s); return o; }
#define H(...) (snprintf(hx_hist, sizeof hx_hist, __VA_ARGS__), cases++)
static int slen(const char *s) { int n = 0; if (s) while (s[n]) n++; return n; }
static bool same(const char *a, const char *b) { if (!a || !b) return a == b; int i = 0; for (; a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char upp(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

/* the result must be fresh memory, equal to want, the only new block; frees it */
static void fresh(char *got, const char *want, long live0, const char *in1, const char *in2)
{
    if (!same(got, want)) hx_fail("result is %s, expected %s", show(got), show(want));
    if (got && (got == in1 || got == in2)) hx_fail("result aliases an argument");
    if (hx_live != live0 + (got != NULL)) hx_fail("%ld blocks allocated for the result", hx_live - live0);
    if (got) { free(got); nontrivial++; }
}
static void unary(char *s)
{
    char w[64]; int n = slen(s);
    long l = hx_live;
    H("STRlen(%s)", show(s)); if (STRlen(s) != (size_t)n) hx_fail("wrong length");
    H("STRcpy(%s)", show(s)); fresh(STRcpy(s), s, l, s, s);
    for (int m = 0; m <= n + 2; m++) { H("STRncpy(%s,%d)", show(s), m); memset(w, 0, sizeof w); if (s) memcpy(w, s, m < n ? m : n); fresh(STRncpy(s, m), s ? w : NULL, l, s, s); }
    H("STRlower(%s)", show(s)); memset(w, 0, sizeof w); for (int i = 0; i < n; i++) w[i] = low(s[i]); fresh(STRlower(s), s ? w : NULL, l, s, s);
    if (s) { char *d = STRcpy(s); H("STRtoLower(%s)", show(s)); STRtoLower(d); fresh(d, w, l, s, s); } else { H("STRtoLower(NULL)"); STRtoLower(NULL); }
    H("STRupper(%s)", show(s)); memset(w, 0, sizeof w); for (int i = 0; i < n; i++) w[i] = upp(s[i]); fresh(STRupper(s), s ? w : NULL, l, s, s);
    if (s) { char *d = STRcpy(s); H("STRtoUpper(%s)", show(s)); STRtoUpper(d); fresh(d, w, l, s, s); } else { H("STRtoUpper(NULL)"); STRtoUpper(NULL); }
    if (s) for (int st = 0; st <= n + 2; st++) for (int len = -n - 2; len <= n + 2; len++) {
        H("STRsubStr(%s,%d,%d)", show(s), st, len);
        int k = len < 0 ? n + len : len; if (k < 0) k = 0;
        memset(w, 0, sizeof w);
        for (int i = 0; i < k && st + i < n; i++) w[i] = s[st + i];
        fresh(STRsubStr(s, st, len), w, l, s, s);
    }
}
static bool eqn(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return true; }
static void toks(const char *s, const char *sep, int upto)
{
    /* reference: split at every separator character, empty tokens included */
    char w[64]; int n = slen(s), pos = 0, k = 0;
    for (;;) {
        int i = 0;
        while (pos + i < n) { bool is = false; for (const char *p = sep; p && *p; p++) if (*p == s[pos + i]) is = true; if (is) break; w[i] = s[pos + i]; i++; }
        w[i] = 0;
        if (k == upto) return;
        char *keep = k ? NULL : strcpy(malloc(n + 1), s);
        long l = hx_live;
        char *t = STRtok(k ? NULL : s, sep);
        if (!same(t, w)) hx_fail("token %d is %s, expected %s", k, show(t), show(w));
        free(t);
        if (keep) { if (!same(keep, s)) hx_fail("argument string modified"); free(keep); }
        k++;
        if (pos + i >= n) break;
        pos += i + 1;
    }
    for (int i = 0; i < 2; i++) if (STRtok(NULL, sep)) hx_fail("token after the last one");
}
static void binary(char *a, char *b)
{
    char w[64]; int na = slen(a), nb = slen(b); long l = hx_live;
    bool e = same(a, b);
    H("STReq(%s,%s)", show(a), show(b)); if (STReq(a, b) != e) hx_fail("wrong");
    bool ci = (a && b) ? na == nb : a == b;
    if (a && b && ci) for (int i = 0; i < na; i++) if (low(a[i]) != low(b[i])) ci = false;
    H("STReqci(%s,%s)", show(a), show(b)); if (STReqci(a, b) != ci) hx_fail("wrong");
    for (int n = 0; n <= 5; n++) { H("STReqn(%s,%s,%d)", show(a), show(b), n); bool x = (!a && !b) || n == 0 || (a && b && eqn(a, b, n)); if (STReqn(a, b, n) != x) hx_fail("wrong"); }
    bool pre = !a || (b && nb >= na && memcmp(a, b, na) == 0);
    H("STRprefix(%s,%s)", show(a), show(b)); if (STRprefix(a, b) != pre) hx_fail("wrong");
    bool suf = !a || (b && nb >= na && memcmp(a, b + nb - na, na) == 0);
    H("STRsuffix(%s,%s)", show(a), show(b)); if (STRsuffix(a, b) != suf) hx_fail("wrong");
    bool sub = !a; if (a && b) for (int i = 0; i + na <= nb; i++) if (memcmp(a, b + i, na) == 0) sub = true;
    H("STRsub(%s,%s)", show(a), show(b)); if (STRsub(a, b) != sub) hx_fail("wrong");
    H("STRonNull(%s,%s)", show(a), show(b)); if (STRonNull(a, b) != (b ? b : a)) hx_fail("wrong");
    snprintf(w, sizeof w, "%s%s", a ? a : "", b ? b : "");
    H("STRcat(%s,%s)", show(a), show(b)); fresh(STRcat(a, b), (a || b) ? w : NULL, l, a, b);
    snprintf(w, sizeof w, "%s-%s|%d", a ? a : "x", b ? b : "y", na);
    H("STRfmt(\"%%s-%%s|%%d\",%s,%s,%d)", show(a), show(b), na); fresh(STRfmt("%s-%s|%d", a ? a : "x", b ? b : "y", na), w, l, a, b);
    if (a) {
        H("STRtok(%s,%s) to the end", show(a), show(b)); toks(a, b, 99);
        if (hx_live != l) hx_fail("memory of the tokenizer is not released after the last call");
    }
}
static void ternary(char *a, char *b, char *c)
{
    char w[128]; long l = hx_live;
    snprintf(w, sizeof w, "%s%s%s", a ? a : "", b ? b : "", c ? c : "");
    H("STRcatn(3,%s,%s,%s)", show(a), show(b), show(c));
    char *r = STRcatn(3, a, b, c);
    if (!w[0]) { if (r && *r) hx_fail("not empty"); if (r) free(r); } else fresh(r, w, l, a, b);
    /* leftmost non-overlapping replacement */
    int na = slen(a), nb = slen(b), o = 0;
    for (int i = 0; i < na;) { if (nb && i + nb <= na && !memcmp(a + i, b, nb)) { memcpy(w + o, c ? c : "", slen(c)); o += slen(c); i += nb; } else w[o++] = a[i++]; }
    w[o] = 0;
    H("STRsubstToken(%s,%s,%s)", show(a), show(b), show(c)); fresh(STRsubstToken(a, b, c), a ? w : NULL, l, a, c);
    /* tokenizing a second string before the first is exhausted */
    if (a && c) for (int k = 1; k <= slen(a) + 1; k++) {
        H("STRtok(%s,%s) %d tokens, then STRtok(%s,%s) to the end", show(a), show(b), k, show(c), show(b));
        toks(a, b, k); toks(c, b, 99);
        if (hx_live != l) hx_fail("memory of the tokenizer is not released after the last call");
    }
}
static void gen(int maxl)
{
    S[NS++] = NULL;
    for (int n = 0; n <= maxl; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= NALPHA; for (int x = 0; x < tot; x++) { char *s = malloc(n + 1); int y = x; for (int i = 0; i < n; i++) { s[i] = alpha[y % NALPHA]; y /= NALPHA; } s[n] = 0; S[NS++] = s; } }
}
static int ns(int maxl) { int t = 1, p = 1; for (int n = 0; n <= maxl; n++) { t += p; p *= NALPHA; } return t; }
int main(int argc, char **argv)
{
    hx_init(600);
    int maxl = atoi(argv[1]), part = atoi(argv[2]), np = atoi(argv[3]);
    gen(maxl + 1);
    int n1 = ns(maxl + 1), n2 = ns(maxl), n3 = ns(maxl - 1), n3b = ns(2 < maxl - 1 ? 2 : maxl - 1);
    for (int i = part; i < n1; i += np) unary(S[i]);
    for (int i = part; i < n2; i += np) for (int j = 0; j < n2; j++) binary(S[i], S[j]);
    for (int i = part; i < n2; i += np) for (int j = 0; j < n3; j++) for (int k = 0; k < n3b; k++) ternary(S[i], S[j], S[k]);
    if (part == 0) {
        long l = hx_live; char w[64];
        int sp[] = {0, 1, -1, 9, 10, -10, 99, 100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1};
        for (int i = -1100; i <= 1100; i++) { snprintf(w, 64, "%d", i); H("STRitoa(%d)", i); fresh(STRitoa(i), w, l, NULL, NULL); }
        for (int i = 0; i < 12; i++) { snprintf(w, 64, "%d", sp[i]); H("STRitoa(%d)", sp[i]); fresh(STRitoa(sp[i]), w, l, NULL, NULL); }
        H("STRnull()"); fresh(STRnull(), "", l, NULL, NULL);
        static char big[5000]; memset(big, 'x', 4999);
        for (int n = 0; n < 4999; n += n < 600 ? 1 : 61) { big[n] = 0; H("STRfmt(\"%%s\", %d characters)", n); fresh(STRfmt("%s", big), big, l, NULL, NULL); H("STRcat of %d characters", n); char *r = STRcat(big, "!"); if (slen(r) != n + 1 || r[n] != '!') hx_fail("wrong"); free(r); big[n] = 'x'; }
    }
    printf("OK\tcases=%lu\tnontrivial=%lu\n", cases, nontrivial);
    hx_done = true;
    return 0;
}
