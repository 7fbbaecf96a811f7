// The NEON intrinsics json_struct uses, in plain C++ (semantics of the Arm C language extensions), so that the
// NEON code of the header can be executed on this machine.
#pragma once
#include <stdint.h>
#include <string.h>
struct uint8x16_t { uint8_t v[16]; };
struct uint16x8_t { uint16_t v[8]; };
struct uint32x4_t { uint32_t v[4]; };
struct uint64x2_t { uint64_t v[2]; };
struct uint8x8_t { uint8_t v[8]; };
#define VF_EACH uint8x16_t r; for (int i = 0; i < 16; i++) r.v[i]
static inline uint8x16_t vdupq_n_u8(uint8_t x) { VF_EACH = x; return r; }
static inline uint8x16_t vld1q_u8(const uint8_t *p) { VF_EACH = p[i]; return r; }
static inline uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] == b.v[i] ? 255 : 0; return r; }
static inline uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] >= b.v[i] ? 255 : 0; return r; }
static inline uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] <= b.v[i] ? 255 : 0; return r; }
static inline uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] > b.v[i] ? 255 : 0; return r; }
static inline uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] < b.v[i] ? 255 : 0; return r; }
static inline uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] & b.v[i]; return r; }
static inline uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] | b.v[i]; return r; }
static inline uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] ^ b.v[i]; return r; }
static inline uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] & ~b.v[i]; return r; }
static inline uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] + b.v[i]; return r; }
static inline uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) { VF_EACH = a.v[i] - b.v[i]; return r; }
static inline uint8x16_t vmvnq_u8(uint8x16_t a) { VF_EACH = ~a.v[i]; return r; }
static inline uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t m = 0; for (int i = 0; i < 16; i++) m = a.v[i] > m ? a.v[i] : m; return m; }
static inline uint8_t vminvq_u8(uint8x16_t a) { uint8_t m = 255; for (int i = 0; i < 16; i++) m = a.v[i] < m ? a.v[i] : m; return m; }
static inline uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r.v[i] = a.v[4 * i] | a.v[4 * i + 1] << 8 | a.v[4 * i + 2] << 16 | (uint32_t)a.v[4 * i + 3] << 24; return r; }
static inline uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) { uint64_t x = 0; for (int k = 7; k >= 0; k--) x = x << 8 | a.v[8 * i + k]; r.v[i] = x; } return r; }
static inline uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r.v[i] = a.v[2 * i] | a.v[2 * i + 1] << 8; return r; }
static inline uint64_t vgetq_lane_u64(uint64x2_t a, int l) { return a.v[l]; }
static inline uint32_t vgetq_lane_u32(uint32x4_t a, int l) { return a.v[l]; }
static inline uint8_t vgetq_lane_u8(uint8x16_t a, int l) { return a.v[l]; }
static inline void vst1q_u32(uint32_t *p, uint32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a.v[i]; }
static inline void vst1q_u8(uint8_t *p, uint8x16_t a) { for (int i = 0; i < 16; i++) p[i] = a.v[i]; }
static inline void vst1q_u64(uint64_t *p, uint64x2_t a) { for (int i = 0; i < 2; i++) p[i] = a.v[i]; }
#undef VF_EACH
