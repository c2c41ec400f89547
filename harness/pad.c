/* Preloaded: enlarges every allocation by a pseudo-random amount (seed in PAD), so that all addresses differ. */
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t);
static unsigned long s;
static int init;

static size_t extra(size_t n)
{
    if (!init) {
        char *p = getenv("PAD");
        init = 1;
        s = p ? atol(p) : 0;
    }
    if (!s) {
        return n;
    }
    s = s * 6364136223846793005UL + 1442695040888963407UL;
    return n + ((s >> 40) % 8) * 32;
}

void *malloc(size_t n) { return __libc_malloc(extra(n)); }
void *realloc(void *p, size_t n) { return __libc_realloc(p, extra(n)); }
void *calloc(size_t a, size_t b)
{
    void *p = __libc_malloc(extra(a * b));
    return p ? memset(p, 0, a * b) : p;
}
