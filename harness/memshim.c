/* memshim.c - preloaded: keeps the number of live heap blocks and bytes in a
 * file shared with the watching process (path in MEMSHIM). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

void* __libc_malloc (size_t);
void  __libc_free (void*);
void* __libc_calloc (size_t, size_t);
void* __libc_realloc (void*, size_t);
void* __libc_memalign (size_t, size_t);

static volatile long early[4];
static volatile long* cnt = early;      /* blocks, bytes, allocations */

static void took (void* p)
{
    if (p) {
        __atomic_add_fetch (&cnt[0], 1, __ATOMIC_RELAXED);
        __atomic_add_fetch (&cnt[1], (long) malloc_usable_size (p), __ATOMIC_RELAXED);
        __atomic_add_fetch (&cnt[2], 1, __ATOMIC_RELAXED);
    }
}

static void gave (void* p)
{
    if (p) {
        __atomic_sub_fetch (&cnt[0], 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch (&cnt[1], (long) malloc_usable_size (p), __ATOMIC_RELAXED);
    }
}

void* malloc (size_t n) { void* p = __libc_malloc (n); took (p); return p; }
void  free (void* p) { int e = errno; gave (p); __libc_free (p); errno = e; }
void* calloc (size_t a, size_t b) { void* p = __libc_calloc (a, b); took (p); return p; }
void* realloc (void* q, size_t n) { void* p; gave (q); p = __libc_realloc (q, n); took (p); return p; }
void* memalign (size_t a, size_t n) { void* p = __libc_memalign (a, n); took (p); return p; }
void* aligned_alloc (size_t a, size_t n) { return memalign (a, n); }
int   posix_memalign (void** r, size_t a, size_t n) { *r = memalign (a, n); return *r ? 0 : ENOMEM; }

__attribute__ ((constructor)) static void start (void)
{
    const char* path = getenv ("MEMSHIM");
    int fd = path ? open (path, O_RDWR) : -1;
    if (fd >= 0) {
        void* m = mmap (0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close (fd);
        if (m != MAP_FAILED) {
            volatile long* c = m;
            c[0] = early[0]; c[1] = early[1]; c[2] = early[2]; c[3] = 1;
            cnt = c;
        }
    }
}
