/* AVX-512F/VL operations in generic vector code, forced into the AVX-512
 * sources where the host CPU has no AVX-512. The 128- and 256-bit operations
 * up to AVX2 stay real. */
#ifndef EMUL512_H
#define EMUL512_H
#include <immintrin.h>
#include <stdint.h>
#include <string.h>
#define EMU static inline __attribute__((always_inline))
typedef uint32_t e512d __attribute__((vector_size(64), may_alias));
typedef uint64_t e512q __attribute__((vector_size(64), may_alias));
typedef uint32_t e256d __attribute__((vector_size(32), may_alias));
typedef uint64_t e256q __attribute__((vector_size(32), may_alias));
typedef uint32_t e128d __attribute__((vector_size(16), may_alias));
typedef uint64_t e128q __attribute__((vector_size(16), may_alias));
EMU __m512i e_loadu512(const void *p) { __m512i r; memcpy(&r, p, 64); return r; }
EMU void e_storeu512(void *p, __m512i a) { memcpy(p, &a, 64); }
EMU __m512i e_add32(__m512i a, __m512i b) { return (__m512i)((e512d)a + (e512d)b); }
EMU __m512i e_add64(__m512i a, __m512i b) { return (__m512i)((e512q)a + (e512q)b); }
EMU __m512i e_xor(__m512i a, __m512i b) { return (__m512i)((e512q)a ^ (e512q)b); }
EMU __m512i e_or(__m512i a, __m512i b) { return (__m512i)((e512q)a | (e512q)b); }
EMU __m512i e_and(__m512i a, __m512i b) { return (__m512i)((e512q)a & (e512q)b); }
EMU __m512i e_set1_32(int32_t x) { e512d r; for (int i = 0; i < 16; i++) r[i] = (uint32_t)x; return (__m512i)r; }
EMU __m512i e_set1_64(int64_t x) { e512q r; for (int i = 0; i < 8; i++) r[i] = (uint64_t)x; return (__m512i)r; }
EMU __m512i e_setr32(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l, int m, int n, int o, int p) {
  e512d r = {(uint32_t)a, (uint32_t)b, (uint32_t)c, (uint32_t)d, (uint32_t)e, (uint32_t)f, (uint32_t)g, (uint32_t)h,
             (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)l, (uint32_t)m, (uint32_t)n, (uint32_t)o, (uint32_t)p};
  return (__m512i)r;
}
EMU __m512i e_ror32(__m512i a, int k) { e512d v = (e512d)a; k &= 31; return k ? (__m512i)((v >> k) | (v << (32 - k))) : a; }
EMU __m512i e_ror64(__m512i a, int k) { e512q v = (e512q)a; k &= 63; return k ? (__m512i)((v >> k) | (v << (64 - k))) : a; }
EMU __m256i e_ror32_256(__m256i a, int k) { e256d v = (e256d)a; k &= 31; return k ? (__m256i)((v >> k) | (v << (32 - k))) : a; }
EMU __m256i e_ror64_256(__m256i a, int k) { e256q v = (e256q)a; k &= 63; return k ? (__m256i)((v >> k) | (v << (64 - k))) : a; }
EMU __m128i e_ror32_128(__m128i a, int k) { e128d v = (e128d)a; k &= 31; return k ? (__m128i)((v >> k) | (v << (32 - k))) : a; }
EMU __m128i e_ror64_128(__m128i a, int k) { e128q v = (e128q)a; k &= 63; return k ? (__m128i)((v >> k) | (v << (64 - k))) : a; }
EMU __m512i e_srli64(__m512i a, unsigned k) { return k > 63 ? e_set1_64(0) : (__m512i)((e512q)a >> (uint64_t)k); }
EMU __m512i e_slli64(__m512i a, unsigned k) { return k > 63 ? e_set1_64(0) : (__m512i)((e512q)a << (uint64_t)k); }
EMU __m512i e_srli32(__m512i a, unsigned k) { return k > 31 ? e_set1_64(0) : (__m512i)((e512d)a >> (uint32_t)k); }
EMU __m512i e_slli32(__m512i a, unsigned k) { return k > 31 ? e_set1_64(0) : (__m512i)((e512d)a << (uint32_t)k); }
EMU __m512i e_unpack32(__m512i a, __m512i b, int hi) {
  e512d x = (e512d)a, y = (e512d)b, r;
  for (int l = 0; l < 16; l += 4) { r[l] = x[l + 2 * hi]; r[l + 1] = y[l + 2 * hi]; r[l + 2] = x[l + 2 * hi + 1]; r[l + 3] = y[l + 2 * hi + 1]; }
  return (__m512i)r;
}
EMU __m512i e_unpack64(__m512i a, __m512i b, int hi) {
  e512q x = (e512q)a, y = (e512q)b, r;
  for (int l = 0; l < 8; l += 2) { r[l] = x[l + hi]; r[l + 1] = y[l + hi]; }
  return (__m512i)r;
}
EMU __m512i e_shuf_i32x4(__m512i a, __m512i b, int m) {
  e512q x = (e512q)a, y = (e512q)b, r;
  for (int j = 0; j < 4; j++) { int s = (m >> (2 * j)) & 3; for (int k = 0; k < 2; k++) r[2 * j + k] = j < 2 ? x[2 * s + k] : y[2 * s + k]; }
  return (__m512i)r;
}
EMU __m512i e_permutex2var32(__m512i a, __m512i i, __m512i b) {
  e512d x = (e512d)a, y = (e512d)b, ix = (e512d)i, r;
  for (int k = 0; k < 16; k++) r[k] = (ix[k] & 16) ? y[ix[k] & 15] : x[ix[k] & 15];
  return (__m512i)r;
}
EMU __m256i e_cvt64_32(__m512i a) { e512q x = (e512q)a; e256d r; for (int i = 0; i < 8; i++) r[i] = (uint32_t)x[i]; return (__m256i)r; }
EMU __m128i e_cvt64_32_256(__m256i a) { e256q x = (e256q)a; e128d r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)x[i]; return (__m128i)r; }
EMU __m256i e_cast256(__m512i a) { __m256i r; memcpy(&r, &a, 32); return r; }
EMU __m128i e_cast128(__m512i a) { __m128i r; memcpy(&r, &a, 16); return r; }
EMU __m256i e_extract4(__m512i a, int k) { __m256i r; memcpy(&r, (const char *)&a + 32 * (k & 1), 32); return r; }
EMU __m128i e_extract2(__m512i a, int k) { __m128i r; memcpy(&r, (const char *)&a + 16 * (k & 3), 16); return r; }
#define _mm512_loadu_si512(p) e_loadu512(p)
#define _mm512_loadu_epi32(p) e_loadu512(p)
#define _mm512_storeu_si512(p, a) e_storeu512(p, a)
#define _mm512_storeu_epi32(p, a) e_storeu512(p, a)
#define _mm512_add_epi32(a, b) e_add32(a, b)
#define _mm512_add_epi64(a, b) e_add64(a, b)
#define _mm512_xor_si512(a, b) e_xor(a, b)
#define _mm512_xor_epi32(a, b) e_xor(a, b)
#define _mm512_or_si512(a, b) e_or(a, b)
#define _mm512_or_epi32(a, b) e_or(a, b)
#define _mm512_and_si512(a, b) e_and(a, b)
#define _mm512_set1_epi32(x) e_set1_32(x)
#define _mm512_set1_epi64(x) e_set1_64(x)
#define _mm512_setzero_si512() e_set1_64(0)
#define _mm512_setr_epi32(...) e_setr32(__VA_ARGS__)
#define _mm512_ror_epi32(a, k) e_ror32(a, k)
#define _mm512_rol_epi32(a, k) e_ror32(a, 32 - (k))
#define _mm512_ror_epi64(a, k) e_ror64(a, k)
#define _mm512_rol_epi64(a, k) e_ror64(a, 64 - (k))
#define _mm256_ror_epi32(a, k) e_ror32_256(a, k)
#define _mm256_rol_epi32(a, k) e_ror32_256(a, 32 - (k))
#define _mm256_ror_epi64(a, k) e_ror64_256(a, k)
#define _mm256_rol_epi64(a, k) e_ror64_256(a, 64 - (k))
#define _mm_ror_epi32(a, k) e_ror32_128(a, k)
#define _mm_rol_epi32(a, k) e_ror32_128(a, 32 - (k))
#define _mm_ror_epi64(a, k) e_ror64_128(a, k)
#define _mm_rol_epi64(a, k) e_ror64_128(a, 64 - (k))
#define _mm512_srli_epi64(a, k) e_srli64(a, k)
#define _mm512_slli_epi64(a, k) e_slli64(a, k)
#define _mm512_srli_epi32(a, k) e_srli32(a, k)
#define _mm512_slli_epi32(a, k) e_slli32(a, k)
#define _mm512_unpacklo_epi32(a, b) e_unpack32(a, b, 0)
#define _mm512_unpackhi_epi32(a, b) e_unpack32(a, b, 1)
#define _mm512_unpacklo_epi64(a, b) e_unpack64(a, b, 0)
#define _mm512_unpackhi_epi64(a, b) e_unpack64(a, b, 1)
#define _mm512_shuffle_i32x4(a, b, m) e_shuf_i32x4(a, b, m)
#define _mm512_shuffle_i64x2(a, b, m) e_shuf_i32x4(a, b, m)
#define _mm512_permutex2var_epi32(a, i, b) e_permutex2var32(a, i, b)
#define _mm512_cvtepi64_epi32(a) e_cvt64_32(a)
#define _mm256_cvtepi64_epi32(a) e_cvt64_32_256(a)
#define _mm512_castsi512_si256(a) e_cast256(a)
#define _mm512_castsi512_si128(a) e_cast128(a)
#define _mm512_extracti64x4_epi64(a, k) e_extract4(a, k)
#define _mm512_extracti32x4_epi32(a, k) e_extract2(a, k)
#endif
