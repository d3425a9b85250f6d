// Deterministic cooperative runtime for instrumented code (see rt.cc).
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace rt {

struct opts {
	uint64_t seed      = 1;
	unsigned gap       = 20;   // a plain access switches with probability 1/gap (0: never)
	unsigned vgap      = 4;    // same for volatile/atomic/sync points
	unsigned pct       = 0;    // >0: priority schedule with this many change points
	unsigned pct_len   = 4000; // expected number of steps for placing change points
	unsigned step_ns   = 1000; // virtual time per step
	unsigned spurious  = 0;    // 1/spurious chance per step that a cond waiter wakes up spuriously
	unsigned stall     = 0;    // 1/stall chance per synchronisation point that the thread is held up there for a while
	unsigned stall_at  = ~0u;  // classes of points (rt.cc)
	unsigned stall_len = 1000; // longest stall (steps of the other threads)
	uint64_t max_steps = 3000000; // steps without progress() before a hang is reported
	unsigned max_idle  = 400;  // idle time advances without progress() before a hang is reported
};

void     begin(const opts &o);  // the calling thread becomes thread 0
void     end();
bool     active();
int      self();                // thread number, -1 if unmanaged
int      nthreads();
uint64_t rnd();                 // schedule PRNG
uint64_t now_us();              // virtual time
uint64_t steps();
uint64_t switches();
void     yield();               // explicit preemption point
void     progress();
const char *thread_state(int i); // "run", "mutex", "cond", "sleep", "join", "done"

// Callbacks (executed in the context of the running thread with preemption off)
extern void (*on_poll)();
extern void (*on_hang)(const char *why);       // must not return
extern void (*on_badmem)(const char *what, const void *addr);
extern void (*on_free)(void *p, size_t size);
extern void (*on_crash)(int sig);              // must not return

// Preemption off while alive
struct quiet { quiet(); ~quiet(); };

size_t block_size(const void *p);  // size of a live arena block, 0 if unknown

} // namespace rt
