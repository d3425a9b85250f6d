// The argument lists of C25 through the macros in C++, compiled in eight parts (PART)
#include "seq.h"
#include "args.h"
#include "hogl/area.hpp"
#include "hogl/post.hpp"
#include "hogl/c-api/area.h"
#include "hogl/c-api/post.h"
#include "capi.h"

static void d1(hl::text &o, bool x) { arg_json(o, "u32", x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, char x) { arg_json(o, "i32", (uint32_t) (int) x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, signed char x) { arg_json(o, "i32", (uint32_t) (int) x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, short x) { arg_json(o, "i32", (uint32_t) (int) x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, int x) { arg_json(o, "i32", (uint32_t) x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, unsigned char x) { arg_json(o, "u32", x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, unsigned short x) { arg_json(o, "u32", x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, unsigned x) { arg_json(o, "u32", x, 4, "", NOK, 1, 0); }
static void d1(hl::text &o, long x) { arg_json(o, "i64", x, 8, "", NOK, 1, 0); }
static void d1(hl::text &o, long long x) { arg_json(o, "i64", x, 8, "", NOK, 1, 0); }
static void d1(hl::text &o, unsigned long x) { arg_json(o, "u64", x, 8, "", NOK, 1, 0); }
static void d1(hl::text &o, unsigned long long x) { arg_json(o, "u64", x, 8, "", NOK, 1, 0); }
static void d1(hl::text &o, double x) { uint64_t u; memcpy(&u, &x, 8); arg_json(o, "dbl", u, 8, "", (long) (x * 64), 1, 0); }
static void d1(hl::text &o, float x) { d1(o, (double) x); }
static void d1(hl::text &o, const char *x) { arg_json(o, "cstr", 0, 0, x ? x : "", NOK, 1, 0); }
static void d1(hl::text &o, char *x) { d1(o, (const char *) x); }
static void d1(hl::text &o, volatile void *x) { arg_json(o, "ptr", (uint64_t) x, 8, "", NOK, 1, 0); }
static void dn(hl::text &) { }
template <typename T, typename... R> static void dn(hl::text &o, T a, R... r) { d1(o, a); if (sizeof...(r)) o += ","; dn(o, r...); }
#define L(n, ...) static __attribute__((noinline)) void desc##n(hl::text &o, const cvals *v) { const int un = v->i; (void) un; dn(o, __VA_ARGS__); } \
	static __attribute__((noinline)) void xpost##n(void **a, unsigned *s, const cvals *v) { const int un = v->i; (void) un; hogl::post((const hogl::area *) *a, *s, __VA_ARGS__); } \
	static __attribute__((noinline)) void mpost##n(void **area, unsigned *sect, const cvals *v, unsigned *ev) { \
		const int un = v->i; hogl_area_t *a = area; unsigned *s = sect; (void) un; hogl_post(*a++, *s++, __VA_ARGS__); ev[0] = a - area; ev[1] = s - sect; }
#include "lists.h"
#undef L
struct entry { unsigned n; void (*d)(hl::text &, const cvals *); void (*x)(void **, unsigned *, const cvals *); void (*m)(void **, unsigned *, const cvals *, unsigned *); };
static const entry entries[] = {
#define L(n, ...) { n, desc##n, xpost##n, mpost##n },
#include "lists.h"
};
#define NAME3(a, b) a##b
#define NAME2(a, b) NAME3(a, b)
// what: 0 describe, 1 post in C++, 2 post through the macros of C
void NAME2(part, PART)(int what, unsigned n, hl::text &o, void **a, unsigned *s, const cvals *v, unsigned *ev)
{
	for (auto &e : entries) if (e.n == n) { if (what == 0) e.d(o, v); else if (what == 1) e.x(a, s, v); else e.m(a, s, v, ev); }
}
