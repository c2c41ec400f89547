/* Preloaded into cocogen: counts calls of one kind and lets the n-th fail, or ends the process there.
 * FAULT_KIND: open, mkdir, write, close, read, alloc; FAULT_N: which (0: none); FAULT_MODE: fail, stay (it and all
 * later ones fail) or crash; FAULT_COUNT: file that receives the number of calls seen. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

enum { OPEN, MKDIR, WRITE, CLOSE, READ, ALLOC, KINDS };
static const char *names[] = {"open", "mkdir", "write", "close", "read", "alloc"};
static long counts[KINDS], target, fired;
static int kind = -1, stay, crash;
static const char *count_file;

__attribute__((constructor)) static void setup(void)
{
    const char *k = getenv("FAULT_KIND"), *n = getenv("FAULT_N"), *m = getenv("FAULT_MODE");
    for (int i = 0; k && i < KINDS; i++) {
        if (!strcmp(k, names[i])) {
            kind = i;
        }
    }
    stay = m && !strcmp(m, "stay");
    crash = m && !strcmp(m, "crash");
    count_file = getenv("FAULT_COUNT");
    memset(counts, 0, sizeof counts);
    target = n ? atol(n) : 0;
}

__attribute__((destructor)) static void report(void)
{
    if (count_file) {
        char b[200];
        int fd = open(count_file, O_WRONLY | O_CREAT | O_TRUNC, 0644), l = 0;
        for (int i = 0; i < KINDS; i++) {
            l += snprintf(b + l, sizeof b - l, "%s %ld\n", names[i], counts[i]);
        }
        l += snprintf(b + l, sizeof b - l, "fired %ld\n", fired);
        if (write(fd, b, l)) { }
        close(fd);
    }
}

static int fails(int k, int e)
{
    counts[k]++;
    if (k == kind && target && (counts[k] == target || (stay && counts[k] > target))) {
        fired++;
        if (crash) {
            report();
            _exit(99);
        }
        errno = e;
        return 1;
    }
    return 0;
}

static ssize_t on_read(void *c, char *b, size_t n)
{
    if (fails(READ, EIO)) {
        return -1;
    }
    return read((int)(long)c - 1, b, n);
}

static ssize_t on_write(void *c, const char *b, size_t n)
{
    if (fails(WRITE, ENOSPC)) {
        return 0;
    }
    ssize_t r = write((int)(long)c - 1, b, n);
    return r < 0 ? 0 : r;
}

static int on_close(void *c)
{
    int r = close((int)(long)c - 1);
    return fails(CLOSE, EIO) ? -1 : r;
}

FILE *fopen(const char *path, const char *mode)
{
    int w = mode[0] != 'r';
    if (fails(OPEN, w ? EACCES : ENOENT)) {
        return NULL;
    }
    int fd = open(path, mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_RDONLY, 0666);
    if (fd < 0) {
        return NULL;
    }
    cookie_io_functions_t io = {on_read, on_write, NULL, on_close};
    return fopencookie((void *)(long)(fd + 1), mode, io);
}

FILE *fopen64(const char *path, const char *mode)
{
    return fopen(path, mode);
}

int mkdir(const char *path, mode_t mode)
{
    static int (*real)(const char *, mode_t);
    if (!real) {
        real = dlsym(RTLD_NEXT, "mkdir");
    }
    return fails(MKDIR, EACCES) ? -1 : real(path, mode);
}

/* Allocations count only if the program itself asks for them: what the C library allocates is its own affair. */
static uintptr_t lo = 1, hi;
static int segments(struct dl_phdr_info *i, size_t n, void *d)
{
    lo = UINTPTR_MAX;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_X)) {
            uintptr_t a = i->dlpi_addr + p->p_vaddr;
            lo = a < lo ? a : lo;
            hi = a + p->p_memsz > hi ? a + p->p_memsz : hi;
        }
    }
    return 1;       /* the first one is the program */
}

__attribute__((constructor)) static void find_program(void)
{
    dl_iterate_phdr(segments, NULL);
}

static int no_memory(void *caller)
{
    return (uintptr_t)caller >= lo && (uintptr_t)caller < hi && fails(ALLOC, ENOMEM);
}

#define MINE no_memory(__builtin_return_address(0))
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { return MINE ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return MINE ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return MINE ? NULL : __libc_realloc(p, n); }
char *strdup(const char *s)
{
    char *r = MINE ? NULL : __libc_malloc(strlen(s) + 1);
    return r ? strcpy(r, s) : NULL;
}
