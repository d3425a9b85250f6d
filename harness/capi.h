/* Values of the argument lists and the operations written in C (capi_c.c) */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
struct cvals {
	bool b; char c; signed char sc; unsigned char uc; short sh; unsigned short us; int i; int ci; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull;
	int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; size_t z;
	float f; double d; void *p; int *ip; struct cvals *sp; volatile int *vp; double *dp;
	int *more; char *s; const char *cs; const char *t; const char *nul; const unsigned char *us8;
};
static inline int more(const struct cvals *v) { return ++*v->more; }   /* shows how often it is evaluated */
#ifdef __cplusplus
extern "C" {
#endif
struct copts { unsigned feats, poll, tso; void *mask; int policy, prio; const char *aff; };
struct cfopts { unsigned perms; size_t size; unsigned count, cap; int policy, prio; const char *aff; };
/* the area and the section are taken from arrays that end with another value */
void c_post(void **area, unsigned *sect, unsigned n, const struct cvals *v, unsigned *evals);
void c_activate(void *out, const struct copts *o);
void *c_file(const char *name, void *fmt, const struct cfopts *o);
void *c_tls(const char *name, unsigned cap, unsigned prio, unsigned tail);
void *c_mask(unsigned n, const char **s);
#ifdef __cplusplus
}
#endif
