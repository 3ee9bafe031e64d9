/* A stand-in for <arm_neon.h> on x86-64: the operations' documented results,
 * lane by lane, in generic vector code. Lets the NEON implementation run in
 * the simulator; instruction selection for real NEON hardware is not covered. */
#ifndef EMUL_ARM_NEON_H
#define EMUL_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#define EMU static inline __attribute__((always_inline))
#define VEC(T, n, name) typedef T name __attribute__((vector_size(sizeof(T) * n), may_alias));
VEC(uint8_t, 16, uint8x16_t) VEC(uint16_t, 8, uint16x8_t) VEC(uint32_t, 4, uint32x4_t) VEC(uint64_t, 2, uint64x2_t)
VEC(int8_t, 16, int8x16_t) VEC(int16_t, 8, int16x8_t) VEC(int32_t, 4, int32x4_t) VEC(int64_t, 2, int64x2_t)
VEC(uint8_t, 8, uint8x8_t) VEC(uint16_t, 4, uint16x4_t) VEC(uint32_t, 2, uint32x2_t) VEC(uint64_t, 1, uint64x1_t)
#define OPS(S, T, V, H, n)                                                          \
  typedef struct { V val[2]; } V##_x2;                                              \
  EMU V vaddq_##S(V a, V b) { return a + b; }                                       \
  EMU V vsubq_##S(V a, V b) { return a - b; }                                       \
  EMU V veorq_##S(V a, V b) { return a ^ b; }                                       \
  EMU V vorrq_##S(V a, V b) { return a | b; }                                       \
  EMU V vandq_##S(V a, V b) { return a & b; }                                       \
  EMU V vbicq_##S(V a, V b) { return a & ~b; }                                      \
  EMU V vld1q_##S(const T *p) { V r; memcpy(&r, p, sizeof r); return r; }           \
  EMU void vst1q_##S(T *p, V a) { memcpy(p, &a, sizeof a); }                        \
  EMU V vdupq_n_##S(T x) { V r; for (int i = 0; i < n; i++) r[i] = x; return r; }   \
  EMU V vmovq_n_##S(T x) { return vdupq_n_##S(x); }                                 \
  EMU V vld1q_dup_##S(const T *p) { return vdupq_n_##S(*p); }                       \
  EMU H vget_low_##S(V a) { H r; for (int i = 0; i < n / 2; i++) r[i] = a[i]; return r; }           \
  EMU H vget_high_##S(V a) { H r; for (int i = 0; i < n / 2; i++) r[i] = a[n / 2 + i]; return r; }  \
  EMU V vcombine_##S(H a, H b) { V r; for (int i = 0; i < n / 2; i++) { r[i] = a[i]; r[n / 2 + i] = b[i]; } return r; } \
  EMU V vtrn1q_##S(V a, V b) { V r; for (int i = 0; i < n; i += 2) { r[i] = a[i]; r[i + 1] = b[i]; } return r; }        \
  EMU V vtrn2q_##S(V a, V b) { V r; for (int i = 0; i < n; i += 2) { r[i] = a[i + 1]; r[i + 1] = b[i + 1]; } return r; }\
  EMU V vzip1q_##S(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; } \
  EMU V vzip2q_##S(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[2 * i] = a[n / 2 + i]; r[2 * i + 1] = b[n / 2 + i]; } return r; } \
  EMU V vuzp1q_##S(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[i] = a[2 * i]; r[n / 2 + i] = b[2 * i]; } return r; } \
  EMU V vuzp2q_##S(V a, V b) { V r; for (int i = 0; i < n / 2; i++) { r[i] = a[2 * i + 1]; r[n / 2 + i] = b[2 * i + 1]; } return r; } \
  EMU V emu_shl_##S(V a, int k) { return a << (T)k; }                               \
  EMU V emu_shr_##S(V a, int k) { V r; for (int i = 0; i < n; i++) r[i] = k >= (int)sizeof(T) * 8 ? 0 : (T)(a[i] >> k); return r; } \
  EMU V emu_sri_##S(V d, V a, int k) { V r; for (int i = 0; i < n; i++) { T m = k >= (int)sizeof(T) * 8 ? 0 : (T)((T)-1 >> k); r[i] = (T)((d[i] & ~m) | (k >= (int)sizeof(T) * 8 ? 0 : (a[i] >> k))); } return r; } \
  EMU V emu_sli_##S(V d, V a, int k) { V r; for (int i = 0; i < n; i++) { T m = (T)((T)-1 << k); r[i] = (T)((d[i] & ~m) | (T)(a[i] << k)); } return r; } \
  EMU V emu_ext_##S(V a, V b, int k) { V r; for (int i = 0; i < n; i++) r[i] = i + k < n ? a[i + k] : b[i + k - n]; return r; } \
  EMU T emu_get_##S(V a, int k) { return a[k]; }                                    \
  EMU V emu_set_##S(T x, V a, int k) { a[k] = x; return a; }
OPS(u8, uint8_t, uint8x16_t, uint8x8_t, 16)
OPS(u16, uint16_t, uint16x8_t, uint16x4_t, 8)
OPS(u32, uint32_t, uint32x4_t, uint32x2_t, 4)
OPS(u64, uint64_t, uint64x2_t, uint64x1_t, 2)
typedef uint8x16_t_x2 uint8x16x2_t;
typedef uint16x8_t_x2 uint16x8x2_t;
typedef uint32x4_t_x2 uint32x4x2_t;
typedef uint64x2_t_x2 uint64x2x2_t;
#define PAIRS(S, V, P)                                                                                    \
  EMU P vtrnq_##S(V a, V b) { P r; r.val[0] = vtrn1q_##S(a, b); r.val[1] = vtrn2q_##S(a, b); return r; }  \
  EMU P vzipq_##S(V a, V b) { P r; r.val[0] = vzip1q_##S(a, b); r.val[1] = vzip2q_##S(a, b); return r; }  \
  EMU P vuzpq_##S(V a, V b) { P r; r.val[0] = vuzp1q_##S(a, b); r.val[1] = vuzp2q_##S(a, b); return r; }
PAIRS(u8, uint8x16_t, uint8x16x2_t)
PAIRS(u16, uint16x8_t, uint16x8x2_t)
PAIRS(u32, uint32x4_t, uint32x4x2_t)
#define vshlq_n_u8(a, k) emu_shl_u8(a, k)
#define vshlq_n_u16(a, k) emu_shl_u16(a, k)
#define vshlq_n_u32(a, k) emu_shl_u32(a, k)
#define vshlq_n_u64(a, k) emu_shl_u64(a, k)
#define vshrq_n_u8(a, k) emu_shr_u8(a, k)
#define vshrq_n_u16(a, k) emu_shr_u16(a, k)
#define vshrq_n_u32(a, k) emu_shr_u32(a, k)
#define vshrq_n_u64(a, k) emu_shr_u64(a, k)
#define vsriq_n_u32(d, a, k) emu_sri_u32(d, a, k)
#define vsriq_n_u64(d, a, k) emu_sri_u64(d, a, k)
#define vsliq_n_u32(d, a, k) emu_sli_u32(d, a, k)
#define vsliq_n_u64(d, a, k) emu_sli_u64(d, a, k)
#define vextq_u8(a, b, k) emu_ext_u8(a, b, k)
#define vextq_u32(a, b, k) emu_ext_u32(a, b, k)
#define vextq_u64(a, b, k) emu_ext_u64(a, b, k)
#define vgetq_lane_u32(a, k) emu_get_u32(a, k)
#define vgetq_lane_u64(a, k) emu_get_u64(a, k)
#define vsetq_lane_u32(x, a, k) emu_set_u32(x, a, k)
#define vsetq_lane_u64(x, a, k) emu_set_u64(x, a, k)
#define CAST(D, S, VD, VS) EMU VD vreinterpretq_##D##_##S(VS a) { return (VD)a; }
CAST(u8, u16, uint8x16_t, uint16x8_t) CAST(u8, u32, uint8x16_t, uint32x4_t) CAST(u8, u64, uint8x16_t, uint64x2_t)
CAST(u16, u8, uint16x8_t, uint8x16_t) CAST(u16, u32, uint16x8_t, uint32x4_t) CAST(u16, u64, uint16x8_t, uint64x2_t)
CAST(u32, u8, uint32x4_t, uint8x16_t) CAST(u32, u16, uint32x4_t, uint16x8_t) CAST(u32, u64, uint32x4_t, uint64x2_t)
CAST(u64, u8, uint64x2_t, uint8x16_t) CAST(u64, u16, uint64x2_t, uint16x8_t) CAST(u64, u32, uint64x2_t, uint32x4_t)
EMU uint16x8_t vrev32q_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
EMU uint8x16_t vrev32q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
EMU uint32x4_t vrev64q_u32(uint32x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
#endif
