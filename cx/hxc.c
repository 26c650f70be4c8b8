// Entry points for the symbolic executor over the C implementation. The main
// C file is included so that its static functions and types are visible;
// nothing here computes anything.
#include "baokeshed.c"

static void hx_key(uint8_t mode, const uint8_t key[32], uint8_t out[32],
                   uint8_t *flags) {
  if (mode == 0) {
    for (int i = 0; i < 8; i++) {
      store32(out + 4 * i, IV[i]);
    }
    *flags = 0;
  } else {
    memcpy(out, key, 32);
    *flags = mode == 1 ? KEYED_HASH : DERIVE_KEY;
  }
}

// k writes; with `via`, finalizing after each of them and once more at the end
void hx_updates(uint8_t mode, const uint8_t *key, const uint8_t *p,
                const size_t *lens, size_t k, uint8_t via, uint8_t *out) {
  hasher h;
  uint8_t kb[32], fl, tmp[32];
  hx_key(mode, key, kb, &fl);
  hasher_init(&h, kb, fl);
  for (size_t i = 0; i < k; i++) {
    hasher_update(&h, p, lens[i]);
    p += lens[i];
    if (via) {
      hasher_finalize(&h, tmp);
    }
  }
  hasher_finalize(&h, out);
  if (via) {
    hasher_finalize(&h, out);
  }
}

// whether two callers get the same hash
void hx_collide(uint8_t mode, const uint8_t *key, const uint8_t *p,
                const size_t *lens, size_t k, uint8_t mode2,
                const uint8_t *key2, const uint8_t *p2, const size_t *lens2,
                size_t k2, uint8_t *same) {
  uint8_t a[32], b[32];
  hx_updates(mode, key, p, lens, k, 0, a);
  hx_updates(mode2, key2, p2, lens2, k2, 0, b);
  *same = memcmp(a, b, 32) == 0;
}

#ifdef HXC_MID
static void from_parts(hasher *h, const uint8_t *stack, size_t n,
                       const uint32_t *kcv, uint64_t offset, uint64_t count,
                       const uint8_t *buf, uint8_t buf_len, uint8_t flags) {
  uint8_t kb[32];
  for (int i = 0; i < 8; i++) {
    store32(kb + 4 * i, kcv[i]);
  }
  hasher_init(h, kb, flags);
  h->subtree_hashes_len = n;
  memcpy(h->subtree_hashes, stack, 32 * n);
  memcpy(h->chunk.state, kcv + 8, 32);
  h->chunk.offset = offset;
  h->chunk.count = count;
  memcpy(h->chunk.buf, buf, 64);
  h->chunk.buf_len = buf_len;
}
void hx_mid(const uint8_t *stack, size_t n, const uint32_t *kcv,
            uint64_t offset, uint64_t count, const uint8_t *buf,
            uint8_t buf_len, uint8_t flags, const uint8_t *p,
            const size_t *lens, uint8_t *out) {
  hasher h;
  from_parts(&h, stack, n, kcv, offset, count, buf, buf_len, flags);
  hasher_update(&h, p, lens[0]);
  hasher_finalize(&h, out);
  hasher_update(&h, p + lens[0], lens[1]);
  hasher_finalize(&h, out + 32);
}
typedef struct {
  uint8_t stack[53 * 32];
  uint64_t num;
  uint32_t kcv[16];
  uint64_t offset;
  uint64_t count;
  uint8_t buf[64];
  uint64_t buf_len;
  uint64_t flags;
} parts;
static void run(hasher *h, uint8_t mode, const uint8_t *key, const uint8_t *p,
                const size_t *lens, size_t k) {
  uint8_t kb[32], fl;
  hx_key(mode, key, kb, &fl);
  hasher_init(h, kb, fl);
  for (size_t i = 0; i < k; i++) {
    hasher_update(h, p, lens[i]);
    p += lens[i];
  }
}
static void to_parts(const hasher *h, parts *o) {
  o->num = h->subtree_hashes_len;
  memset(o->stack, 0, sizeof o->stack);
  memcpy(o->stack, h->subtree_hashes, 32 * o->num);
  memcpy(o->kcv, h->chunk.key, 32);
  memcpy(o->kcv + 8, h->chunk.state, 32);
  o->offset = h->chunk.offset;
  o->count = h->chunk.count;
  memcpy(o->buf, h->chunk.buf, 64);
  o->buf_len = h->chunk.buf_len;
  o->flags = h->chunk.flags;
}
void hx_parts(uint8_t mode, const uint8_t *key, const uint8_t *p,
              const size_t *lens, size_t k, parts *out) {
  hasher h;
  run(&h, mode, key, p, lens, k);
  to_parts(&h, out);
}
void hx_pair(uint8_t mode, const uint8_t *key, const uint8_t *p,
             const size_t *lens, size_t k, hasher *a, hasher *b) {
  parts o;
  run(a, mode, key, p, lens, k);
  to_parts(a, &o);
  from_parts(b, o.stack, o.num, o.kcv, o.offset, o.count, o.buf, o.buf_len,
             o.flags);
}
size_t hx_hasher_size(void) { return sizeof(hasher); }
#endif

