/* Harness support: symbolic inputs, assumptions, assertions, witnesses.
 *
 * The same harness source is used three ways:
 *   VP_CBMC               symbolic execution by CBMC, solver decides VP_ASSERT
 *   VP_CBMC + VP_WITNESS  vacuity twin: assertions off, VP_REACH must be reached
 *   (neither)             native replay of a recorded input list against the
 *                         compiled real code under sanitizers
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <stdbool.h>

#ifdef VP_CBMC
uint64_t nondet_vp_u64(void);
uint32_t nondet_vp_u32(void);
uint16_t nondet_vp_u16(void);
uint8_t nondet_vp_u8(void);
static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_vp_u16(); __CPROVER_input("vp", v); return v; }
static inline uint8_t vp_u8(void) { uint8_t v = nondet_vp_u8(); __CPROVER_input("vp", v); return v; }
#define VP_ASSUME(c) __CPROVER_assume(c)
#ifdef VP_WITNESS
#define VP_ASSERT(c, msg) ((void)(c))
#define VP_REACH(msg) __CPROVER_assert(0, "WITNESS " msg)
#define VP_REACH_IF(c, msg) __CPROVER_assert(!(c), "WITNESS " msg)
#else
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP " msg)
#define VP_REACH(msg) ((void)0)
#define VP_REACH_IF(c, msg) ((void)0)
#endif
#else /* native replay */
static uint64_t *vp_in_tab; static size_t vp_in_n, vp_in_pos;
static void vp_in_load(void)
{
	const char *p = getenv("VP_INPUTS");
	FILE *f = p ? fopen(p, "r") : NULL;
	unsigned long long v;
	vp_in_tab = (uint64_t *)calloc(1, sizeof(uint64_t));
	while (f && fscanf(f, "%llu", &v) == 1) {
		vp_in_tab = (uint64_t *)realloc(vp_in_tab, (vp_in_n + 1) * sizeof(uint64_t));
		vp_in_tab[vp_in_n++] = v;
	}
	if (f) fclose(f);
}
static uint64_t vp_in_next(void) { return vp_in_pos < vp_in_n ? vp_in_tab[vp_in_pos++] : 0; }
static inline uint64_t vp_u64(void) { return vp_in_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_in_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_in_next(); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_in_next(); }
#define VP_ASSUME(c) do { if (!(c)) { fprintf(stderr, "VP-ASSUME-FALSE %s:%d %s\n", __FILE__, __LINE__, #c); fflush(NULL); _Exit(77); } } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) { fprintf(stderr, "VP-FAIL %s:%d %s\n", __FILE__, __LINE__, msg); fflush(NULL); _Exit(66); } } while (0)
#define VP_REACH(msg) ((void)0)
#define VP_REACH_IF(c, msg) ((void)0)
#endif
static inline int vp_bool(void) { return vp_u8() & 1; }
static inline int32_t vp_i32(void) { return (int32_t)vp_u32(); }
static inline int64_t vp_i64(void) { return (int64_t)vp_u64(); }
/* value in [lo, hi] */
static inline uint32_t vp_range(uint32_t lo, uint32_t hi)
{
	uint32_t v = vp_u32();
	VP_ASSUME(v >= lo && v <= hi);
	return v;
}
static inline void vp_fill(void *p, size_t n)
{
	for (size_t vp_i = 0; vp_i < n; vp_i++)
		((uint8_t *)p)[vp_i] = vp_u8();
}
#ifdef __cplusplus
extern "C"
#endif
void vp_main(void);
#ifndef VP_CBMC
#ifndef VP_NO_MAIN
int main(void) { vp_in_load(); vp_main(); return 0; }
#endif
#endif
#endif
