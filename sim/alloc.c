/* Simulated numpy data allocator: 64-byte aligned blocks, seeded contents for
 * fresh memory, and a failing n-th allocation.  The simulator runs exactly one
 * thread at a time, so plain globals suffice. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <malloc.h>

typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t);
                 void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *, size_t); } Allocator;
typedef struct { char name[127]; uint8_t version; Allocator allocator; } Handler;

static int64_t n_live = 0, b_live = 0, n_alloc = 0, fail_at = -1, fail_len = 1, n_failed = 0, n_filled = 0;
static int mode = 0;
static uint64_t state = 88172645463325252ULL;

static uint64_t rnd(void) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }

static void fill(void *p, size_t n)
{
    uint64_t w; double d; size_t i, k = n / 8;
    uint64_t *q = (uint64_t *)p;
    n_filled++;
    switch (mode) {
    case 0: case 1: memset(p, 0, n); return;                 /* zeros */
    case 2: memset(p, 0xFF, n); return;                      /* quiet NaN / -1 / True */
    case 3: d = 1.7e300; break;                              /* huge, overflows when used */
    case 5: d = 1.0; break;                                  /* plausible value */
    case 6: w = 0x7FF0000000000001ULL; memcpy(&d, &w, 8); break; /* signalling NaN */
    case 8: d = 4e-310; break;                               /* denormal */
    case 9: memset(p, 0x01, n); return;                      /* small ints / True */
    case 10: w = 0x7FF0000000000000ULL; memcpy(&d, &w, 8); break; /* inf */
    case 7:                                                  /* plausible random reals */
        for (i = 0; i < k; i++) { d = (double)(int64_t)rnd() / 4611686018427387904.0; memcpy(&q[i], &d, 8); }
        memset((char *)p + 8 * k, 0x3C, n - 8 * k); return;
    case 4: default:                                         /* random bits */
        for (i = 0; i < k; i++) q[i] = rnd();
        memset((char *)p + 8 * k, (int)(rnd() & 0xFF), n - 8 * k); return;
    }
    for (i = 0; i < k; i++) memcpy(&q[i], &d, 8);
    memset((char *)p + 8 * k, 0x7F, n - 8 * k);
}
static int failing(void)
{
    n_alloc++;
    if (fail_at >= 0 && n_alloc > fail_at && n_alloc <= fail_at + fail_len) { n_failed++; return 1; }
    return 0;
}
static void *raw(size_t n)
{
    void *p = NULL;
    if (posix_memalign(&p, 64, n ? n : 1)) return NULL;
    n_live++; b_live += (int64_t)malloc_usable_size(p);
    return p;
}
static void drop(void *p) { if (p) { n_live--; b_live -= (int64_t)malloc_usable_size(p); free(p); } }
static void *s_malloc(void *c, size_t n) { void *p; (void)c; if (failing()) return NULL; p = raw(n); if (p) fill(p, n); return p; }
static void *s_calloc(void *c, size_t m, size_t n) { void *p; (void)c; if (failing()) return NULL; p = raw(m * n); if (p) memset(p, 0, m * n); return p; }
static void *s_realloc(void *c, void *old, size_t n)
{
    void *p; size_t o; (void)c;
    if (failing()) return NULL;
    p = raw(n); if (!p) return NULL;
    fill(p, n);
    if (old) { o = malloc_usable_size(old); memcpy(p, old, o < n ? o : n); drop(old); }
    return p;
}
static void s_free(void *c, void *p, size_t n) { (void)c; (void)n; drop(p); }

static Handler handler = { "gfsim", 1, { NULL, s_malloc, s_calloc, s_realloc, s_free } };
void *sim_handler(void) { return &handler; }
void sim_mode(int m, uint64_t seed) { mode = m; state = seed * 2654435769ULL + 88172645463325252ULL; if (!state) state = 1; }
void sim_fail(int64_t after, int64_t len) { n_alloc = 0; n_failed = 0; fail_at = after; fail_len = len; }
int64_t sim_allocs(void) { return n_alloc; }
int64_t sim_failed(void) { return n_failed; }
int64_t sim_filled(void) { return n_filled; }
int64_t sim_live(void) { return n_live; }
int64_t sim_live_bytes(void) { return b_live; }
