/* Small harness kit: allocation tracking, current-history reporting, failure. */
#pragma once
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char hx_hist[8192];      /* the history being executed, for reports */
static long hx_live = 0;        /* blocks allocated through malloc/calloc/realloc and not yet freed */
static long hx_allocs = 0;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
#ifndef HX_TRACK
void *__wrap_malloc(size_t n) { hx_live++; hx_allocs++; return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { hx_live++; hx_allocs++; return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if (!p) { hx_live++; hx_allocs++; } return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) hx_live--; __real_free(p); }
#else
/* Every block of the current execution is recorded; freed blocks are kept until hx_track_reset, so that
   a second free and a use after free (the content is overwritten) show. New blocks hold garbage. */
static void hx_fail(const char *fmt, ...);
#define HX_MAXBLK 4096
static struct { void *p; size_t n; bool freed, old; } hx_blk[HX_MAXBLK];
static int hx_nblk;
static bool hx_on;
static int hx_find(void *p) { for (int i = hx_nblk - 1; i >= 0; i--) if (hx_blk[i].p == p) return i; return -1; }
static void *hx_new(void *p, size_t n, int fill)
{
    if (!hx_on || !p) return p;
    if (hx_nblk == HX_MAXBLK) hx_fail("harness: too many blocks");
    hx_blk[hx_nblk].p = p; hx_blk[hx_nblk].n = n; hx_blk[hx_nblk].freed = false; hx_nblk++;
    hx_live++; hx_allocs++;
    memset(p, fill, n);
    return p;
}
void *__wrap_malloc(size_t n) { return hx_new(__real_malloc(n ? n : 1), n, 0xA5); }
void *__wrap_calloc(size_t n, size_t m) { return hx_new(__real_calloc(n, m), n * m, 0); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!hx_on) return __real_realloc(p, n);
    void *q = __wrap_malloc(n);
    int i = p ? hx_find(p) : -1;
    if (i >= 0) { memcpy(q, p, hx_blk[i].n < n ? hx_blk[i].n : n); hx_blk[i].freed = true; hx_live--; }
    return q;
}
void __wrap_free(void *p)
{
    if (!p) return;
    int i = hx_on ? hx_find(p) : -1;
    if (hx_on && i < 0) hx_fail("frees a block that was not allocated here");
    if (i < 0) { __real_free(p); return; }
    if (hx_blk[i].freed) hx_fail("frees a block twice");
    hx_blk[i].freed = true;
    hx_live--;
    memset(p, 0xDD, hx_blk[i].n);
}
static void hx_track_reset(void)
{
    for (int i = 0; i < hx_nblk; i++) __real_free(hx_blk[i].p);
    hx_nblk = 0; hx_live = 0; hx_allocs = 0;
}
#endif

static void hx_report(const char *what)
{
    printf("FAIL\t%s\t%s\n", hx_hist, what);
    fflush(stdout);
}

static void hx_fail(const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    hx_report(b);
    _exit(3);
}

static void hx_death(void) { hx_report("sanitizer report (memory error or undefined behaviour)"); }
static void hx_sig(int s)
{
    hx_report(s == SIGALRM ? "does not terminate" : s == SIGABRT ? "aborts" : s == SIGILL ? "undefined behaviour (UBSan trap)" : "crashes");
    _exit(3);
}
void __sanitizer_set_death_callback(void (*cb)(void));
static bool hx_done = false;
static void hx_exit(void) { if (!hx_done) { hx_report("ends the process"); _exit(3); } }
static void hx_init(unsigned limit)
{
    atexit(hx_exit);
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_set_death_callback(hx_death);
#else
    signal(SIGSEGV, hx_sig); signal(SIGBUS, hx_sig);
#endif
    signal(SIGABRT, hx_sig);
    signal(SIGFPE, hx_sig);
    signal(SIGILL, hx_sig);
    signal(SIGALRM, hx_sig);
    if (limit) alarm(limit);
}
