// Stand-in for <arm_neon.h> on other hosts, used only to replay
// counterexamples natively. Lane semantics as in the ACLE.
#pragma once
#include <stdint.h>
#include <string.h>
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef struct { uint32x4_t val[2]; } uint32x4x2_t;
typedef struct { uint64x2_t val[2]; } uint64x2x2_t;
#define VXI static inline __attribute__((always_inline, unused))
VXI uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t x; memcpy(&x, p, 16); return x; }
VXI uint64x2_t vld1q_u64(const uint64_t *p) { uint64x2_t x; memcpy(&x, p, 16); return x; }
VXI uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t x; memcpy(&x, p, 16); return x; }
VXI void vst1q_u32(uint32_t *p, uint32x4_t x) { memcpy(p, &x, 16); }
VXI void vst1q_u64(uint64_t *p, uint64x2_t x) { memcpy(p, &x, 16); }
VXI void vst1q_u8(uint8_t *p, uint8x16_t x) { memcpy(p, &x, 16); }
VXI uint32x4_t vdupq_n_u32(uint32_t v) { return (uint32x4_t){v, v, v, v}; }
VXI uint64x2_t vdupq_n_u64(uint64_t v) { return (uint64x2_t){v, v}; }
VXI uint32x4_t vld1q_dup_u32(const uint32_t *p) { uint32_t v; memcpy(&v, p, 4); return vdupq_n_u32(v); }
VXI uint64x2_t vld1q_dup_u64(const uint64_t *p) { uint64_t v; memcpy(&v, p, 8); return vdupq_n_u64(v); }
#define vmovq_n_u32 vdupq_n_u32
#define vmovq_n_u64 vdupq_n_u64
VXI uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a + b; }
VXI uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { return a + b; }
VXI uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VXI uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b) { return a ^ b; }
VXI uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VXI uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b) { return a | b; }
VXI uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VXI uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b) { return a & b; }
#define vshlq_n_u32(a, n) ((uint32x4_t)(a) << (n))
#define vshlq_n_u64(a, n) ((uint64x2_t)(a) << (n))
VXI uint32x4_t vx_shr32(uint32x4_t a, int n) { return n >= 32 ? (uint32x4_t){0} : a >> n; }
VXI uint64x2_t vx_shr64(uint64x2_t a, int n) { return n >= 64 ? (uint64x2_t){0} : a >> n; }
#define vshrq_n_u32(a, n) vx_shr32(a, n)
#define vshrq_n_u64(a, n) vx_shr64(a, n)
#define vsriq_n_u32(a, b, n) (((uint32x4_t)(a) & ~vx_shr32(vdupq_n_u32(~0u), n)) | vx_shr32(b, n))
#define vsriq_n_u64(a, b, n) (((uint64x2_t)(a) & ~vx_shr64(vdupq_n_u64(~0ull), n)) | vx_shr64(b, n))
#define vsliq_n_u32(a, b, n) (((uint32x4_t)(a) & ((1u << (n)) - 1)) | ((uint32x4_t)(b) << (n)))
#define vsliq_n_u64(a, b, n) (((uint64x2_t)(a) & ((1ull << (n)) - 1)) | ((uint64x2_t)(b) << (n)))
VXI uint32x2_t vget_low_u32(uint32x4_t a) { return (uint32x2_t){a[0], a[1]}; }
VXI uint32x2_t vget_high_u32(uint32x4_t a) { return (uint32x2_t){a[2], a[3]}; }
VXI uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) { return (uint32x4_t){a[0], a[1], b[0], b[1]}; }
VXI uint64x1_t vget_low_u64(uint64x2_t a) { return (uint64x1_t){a[0]}; }
VXI uint64x1_t vget_high_u64(uint64x2_t a) { return (uint64x1_t){a[1]}; }
VXI uint64x2_t vcombine_u64(uint64x1_t a, uint64x1_t b) { return (uint64x2_t){a[0], b[0]}; }
VXI uint32x4_t vtrn1q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[0], b[0], a[2], b[2]}; }
VXI uint32x4_t vtrn2q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[1], b[1], a[3], b[3]}; }
VXI uint32x4_t vzip1q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[0], b[0], a[1], b[1]}; }
VXI uint32x4_t vzip2q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[2], b[2], a[3], b[3]}; }
VXI uint32x4_t vuzp1q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[0], a[2], b[0], b[2]}; }
VXI uint32x4_t vuzp2q_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t){a[1], a[3], b[1], b[3]}; }
VXI uint32x4x2_t vtrnq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){{vtrn1q_u32(a, b), vtrn2q_u32(a, b)}}; }
VXI uint32x4x2_t vzipq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){{vzip1q_u32(a, b), vzip2q_u32(a, b)}}; }
VXI uint32x4x2_t vuzpq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){{vuzp1q_u32(a, b), vuzp2q_u32(a, b)}}; }
VXI uint64x2_t vtrn1q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[0], b[0]}; }
VXI uint64x2_t vtrn2q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[1], b[1]}; }
#define vzip1q_u64 vtrn1q_u64
#define vzip2q_u64 vtrn2q_u64
#define vextq_u32(a, b, n) __builtin_shuffle((uint32x4_t)(a), (uint32x4_t)(b), (uint32x4_t){(n), (n) + 1, (n) + 2, (n) + 3})
#define vgetq_lane_u32(a, i) ((a)[i])
#define vgetq_lane_u64(a, i) ((a)[i])
VXI uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return (uint8x16_t)a; }
VXI uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return (uint32x4_t)a; }
VXI uint16x8_t vreinterpretq_u16_u32(uint32x4_t a) { return (uint16x8_t)a; }
VXI uint32x4_t vreinterpretq_u32_u16(uint16x8_t a) { return (uint32x4_t)a; }
VXI uint64x2_t vreinterpretq_u64_u32(uint32x4_t a) { return (uint64x2_t)a; }
VXI uint32x4_t vreinterpretq_u32_u64(uint64x2_t a) { return (uint32x4_t)a; }
VXI uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return (uint8x16_t)a; }
VXI uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return (uint64x2_t)a; }
VXI uint16x8_t vrev32q_u16(uint16x8_t a) { return (uint16x8_t){a[1], a[0], a[3], a[2], a[5], a[4], a[7], a[6]}; }
VXI uint32x4_t vrev64q_u32(uint32x4_t a) { return (uint32x4_t){a[1], a[0], a[3], a[2]}; }
