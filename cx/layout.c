// The layout of the objects that cross the language boundary, as C has it.
#include "baokeshed.c"

#define F(t, f) o[i++] = offsetof(t, f), o[i++] = sizeof(((t *)0)->f)
void hx_layout(uint64_t *o) {
  o[0] = sizeof(hasher);
  o[1] = _Alignof(hasher);
  o[2] = sizeof(chunk_state);
  o[3] = _Alignof(chunk_state);
#ifdef HXC_MID
  int i = 4;
  F(hasher, chunk);
  F(hasher, subtree_hashes_len);
  F(hasher, subtree_hashes);
  F(chunk_state, state);
  F(chunk_state, key);
  F(chunk_state, offset);
  F(chunk_state, count);
  F(chunk_state, buf);
  F(chunk_state, buf_len);
  F(chunk_state, flags);
#endif
}
