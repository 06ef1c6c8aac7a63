/* faultshim.c - preloaded: lets chosen files and memory requests fail.
 *
 *   FAULT_PATH   file whose stream is watched (as given to fopen)
 *   FAULT_FAIL   bytes after which reading or writing it fails (-1: never)
 *   FAULT_PIECE  most bytes delivered by one read (0: any)
 *   FAULT_CLOSE  closing it fails
 *   FAULT_MEM    which memory request of the program itself fails (0: none)
 *   FAULT_MEMALL all later ones fail too
 *   FAULT_LOG    file that gets "streams requests faults" at exit
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc (size_t), *__libc_realloc (void *, size_t), *__libc_calloc (size_t, size_t);

static uintptr_t lo, hi;
static long memAt, memN, streams, faults;
static int memAll, ready;

static int
firstObject (struct dl_phdr_info *i, size_t size, void *arg)
{
    lo = UINTPTR_MAX;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
            if (a < lo) lo = a;
            if (e > hi) hi = e;
        }
    return 1;
}

static long
num (const char *name, long dflt)
{
    const char *v = getenv (name);
    return v ? atol (v) : dflt;
}

__attribute__ ((constructor)) static void
init (void)
{
    dl_iterate_phdr (firstObject, NULL);
    memAt = num ("FAULT_MEM", 0);
    memAll = num ("FAULT_MEMALL", 0);
    ready = 1;
}

__attribute__ ((destructor)) static void
fini (void)
{
    const char *p = getenv ("FAULT_LOG");
    char b[96];
    if (!p) return;
    int fd = open (p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    int n = snprintf (b, sizeof b, "%ld %ld %ld\n", streams, memN, faults);
    if (write (fd, b, n) != n) { }
    close (fd);
}

static int
refuse (void *caller)
{
    uintptr_t c = (uintptr_t) caller;
    if (!ready || c < lo || c >= hi) return 0;
    ++memN;
    if (memAt && (memAll ? memN >= memAt : memN == memAt)) {
        ++faults;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc (size_t n) { return refuse (__builtin_return_address (0)) ? NULL : __libc_malloc (n); }
void *calloc (size_t a, size_t n) { return refuse (__builtin_return_address (0)) ? NULL : __libc_calloc (a, n); }
void *realloc (void *p, size_t n) { return refuse (__builtin_return_address (0)) ? NULL : __libc_realloc (p, n); }

struct S { int fd; long left, piece; int badClose; };

static ssize_t
sread (void *c, char *buf, size_t n)
{
    struct S *s = c;
    if (s->left == 0) { ++faults; errno = EIO; return -1; }
    if (s->piece > 0 && n > (size_t) s->piece) n = s->piece;
    if (s->left > 0 && n > (size_t) s->left) n = s->left;
    ssize_t r = read (s->fd, buf, n);
    if (r == 0 && s->left > 0) { ++faults; errno = EIO; return -1; }
    if (r > 0 && s->left > 0) s->left -= r;
    return r;
}

static ssize_t
swrite (void *c, const char *buf, size_t n)
{
    struct S *s = c;
    size_t m = n;
    if (s->left >= 0 && m > (size_t) s->left) m = s->left;
    ssize_t r = m ? write (s->fd, buf, m) : 0;
    if (r > 0 && s->left > 0) s->left -= r;
    if (r < (ssize_t) n) { ++faults; errno = EIO; return r > 0 ? r : 0; }
    return r;
}

static int
sseek (void *c, off64_t *off, int whence)
{
    struct S *s = c;
    off64_t r = lseek64 (s->fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}

static int
sclose (void *c)
{
    struct S *s = c;
    int bad = s->badClose;
    close (s->fd);
    free (s);
    if (bad) { ++faults; errno = EIO; return -1; }
    return 0;
}

static FILE *
opened (FILE *f, const char *path, const char *mode)
{
    const char *want = getenv ("FAULT_PATH");
    if (!f || !want || strcmp (want, path)) return f;
    struct S *s = __libc_malloc (sizeof *s);
    s->fd = dup (fileno (f));
    s->left = num ("FAULT_FAIL", -1);
    s->piece = num ("FAULT_PIECE", 0);
    s->badClose = num ("FAULT_CLOSE", 0);
    fclose (f);
    ++streams;
    return fopencookie (s, mode, (cookie_io_functions_t) { sread, swrite, sseek, sclose });
}

static int
foreign (void *caller)
{
    Dl_info i;
    return dladdr (caller, &i) && i.dli_fname && strstr (i.dli_fname, "libstdc++");
}

FILE *
fopen (const char *path, const char *mode)
{
    static FILE *(*real) (const char *, const char *);
    if (!real) real = dlsym (RTLD_NEXT, "fopen");
    FILE *f = real (path, mode);
    // only streams of the program and its C libraries are used as streams
    return foreign (__builtin_return_address (0)) ? f : opened (f, path, mode);
}

FILE *
fopen64 (const char *path, const char *mode)
{
    static FILE *(*real) (const char *, const char *);
    if (!real) real = dlsym (RTLD_NEXT, "fopen64");
    FILE *f = real (path, mode);
    // only streams of the program and its C libraries are used as streams
    return foreign (__builtin_return_address (0)) ? f : opened (f, path, mode);
}
