// Run-time part of the timing check: while armed, records every basic block,
// load and store of instrumented code, and the bytes that the comparison and
// copying functions of the C library look at.
#include <stddef.h>
#include <stdint.h>
#include <sys/mman.h>
#define CAP (1ull << 28)
static uint64_t *buf;
static uint64_t n;
static int armed, over;
static uintptr_t here;
static inline void rec(uint64_t k, const void *p) {
  if (!armed)
    return;
  if (n < CAP)
    buf[n++] = (uint64_t)(uintptr_t)p << 3 | k;
  else
    over = 1;
}
// Start recording; the previous recording is kept at `old`.
void vx_ct_start(void) {
  if (!buf)
    buf = mmap(0, CAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  n = 0;
  over = 0;
  armed = 1;
}
// Stop; hands over the recording.
uint64_t *vx_ct_stop(uint64_t *count) {
  armed = 0;
  *count = over ? ~0ull : n;
  uint64_t *r = buf;
  buf = 0;
  return r;
}
void vx_ct_free(uint64_t *p) { munmap(p, CAP * 8); }
void __sanitizer_cov_trace_pc(void) { rec(0, __builtin_return_address(0)); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; rec(0, __builtin_return_address(0)); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
#define LS(k)                                                    \
  void __sanitizer_cov_load##k(void *p) { rec(1, p); }           \
  void __sanitizer_cov_store##k(void *p) { rec(2, p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
int memcmp(const void *a, const void *b, size_t k) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < k; i++) {
    rec(1, x + i);
    rec(1, y + i);
    if (x[i] != y[i])
      return x[i] < y[i] ? -1 : 1;
  }
  return 0;
}
int bcmp(const void *a, const void *b, size_t k) { return memcmp(a, b, k); }
void *memmove(void *d, const void *s, size_t k) {
  volatile unsigned char *x = d;
  const unsigned char *y = s;
  rec(3, d);
  rec(3, s);
  rec(3, (void *)k);
  if ((uintptr_t)d <= (uintptr_t)s)
    for (size_t i = 0; i < k; i++)
      x[i] = y[i];
  else
    for (size_t i = k; i > 0; i--)
      x[i - 1] = y[i - 1];
  return d;
}
void *memcpy(void *d, const void *s, size_t k) { return memmove(d, s, k); }
void *memset(void *d, int c, size_t k) {
  volatile unsigned char *x = d;
  rec(3, d);
  rec(3, (void *)k);
  for (size_t i = 0; i < k; i++)
    x[i] = c;
  return d;
}
