/* The operations of the C interface that have to be compiled as C */
#include "hogl/c-api/area.h"
#include "hogl/c-api/mask.h"
#include "hogl/c-api/format.h"
#include "hogl/c-api/output.h"
#include "hogl/c-api/engine.h"
#include "hogl/c-api/tls.h"
#include "hogl/c-api/post.h"
#include "capi.h"

#define L(n, ...) static __attribute__((noinline)) void post##n(hogl_area_t *area, unsigned *sect, const struct cvals *v, unsigned *ev) { \
	const int un = v->i; hogl_area_t *a = area; unsigned *s = sect; (void) un; hogl_post(*a++, *s++, __VA_ARGS__); ev[0] = a - area; ev[1] = s - sect; }
#include "lists.h"
#undef L
void c_post(void **area, unsigned *sect, unsigned n, const struct cvals *v, unsigned *evals)
{
	switch (n) {
#define L(n, ...) case n: post##n(area, sect, v, evals); break;
#include "lists.h"
#undef L
	}
}
void c_activate(void *out, const struct copts *o)
{
	struct hogl_engine_options eo = { .features = o->feats, .default_mask = o->mask, .polling_interval_usec = o->poll, .tso_buffer_capacity = o->tso,
		.schedparam = { .policy = o->policy, .priority = o->prio, .cpu_affinity = o->aff } };
	hogl_activate(out, &eo);
}
void *c_file(const char *name, void *fmt, const struct cfopts *o)
{
	struct hogl_output_options fo = { .perms = o->perms, .max_size = o->size, .max_count = o->count, .buffer_capacity = o->cap,
		.schedparam = { .policy = o->policy, .priority = o->prio, .cpu_affinity = o->aff } };
	return hogl_new_output_file(name, fmt, &fo);
}
void *c_tls(const char *name, unsigned cap, unsigned prio, unsigned tail)
{
	struct hogl_tls_options to = { .ring_capacity = cap, .ring_priority = prio, .record_tailroom = tail };
	return hogl_new_tls(name, &to);
}
void *c_mask(unsigned n, const char **s)
{
	switch (n) {
	case 0: return hogl_new_mask((char *) 0);
	case 1: return hogl_new_mask(s[0], (char *) 0);
	case 2: return hogl_new_mask(s[0], s[1], (char *) 0);
	case 3: return hogl_new_mask(s[0], s[1], s[2], (char *) 0);
	default: return hogl_new_mask(s[0], s[1], s[2], s[3], (char *) 0);
	}
}
