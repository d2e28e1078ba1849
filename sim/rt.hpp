// Runtime seams the simulator owns: the allocator, the basic-block clock of the code under test, the baton that
// decides which caller thread runs, and memory accounting. Active only while a thread is inside the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

struct Thread {
   int      in        = 0;            // inside the code under test
   uint64_t ticks     = 0;            // basic blocks executed inside the code under test
   uint64_t tick_limit = ~0ull;       // exceeding it is reported as "no progress"
   uint64_t allocs    = 0;            // allocations requested inside the code under test, since arm()
   uint64_t fail_from = ~0ull;        // [fail_from, fail_to): these allocations fail
   uint64_t fail_to   = ~0ull;
   uint64_t fired     = 0;            // injected allocation failures since arm()
   int      id        = 0;            // simulated thread
   uintptr_t stack_min = ~uintptr_t(0); // the deepest frame seen
   uint64_t path      = 0;            // rolling hash of the executed basic blocks
};
extern thread_local Thread ts;

// memory accounting of the code under test (all threads; only one runs at a time)
extern uint64_t live_bytes, live_count, peak_bytes, max_request;
extern uint64_t budget;      // allocations beyond it fail and set over_budget
extern bool     over_budget;

void arm(uint64_t from, uint64_t n); // fail n allocations starting with the from'th (0 based) from now
void disarm();
void mem_reset();            // forget peak and max_request

void begin_call();           // gives the call its own limit; ends runs that have used up their work
struct Around { void (*enter)(); void (*leave)(); };
extern const Around* around; // called when the code under test is entered and left
extern const char*   heap_fill; // what new memory of the code under test holds: 64 bytes, over and over (null: anything)
void set_on_tired(void (*f)());
constexpr uint64_t call_limit = 400000000, run_limit = 300000000;
struct In {  // scope: inside the code under test
   In() { if (!ts.in) begin_call(); ++ts.in; }
   ~In() { if (!--ts.in && around) around->leave(); }
};
struct Out { // scope: code under test called back into the simulator
   int saved;
   Out() : saved(ts.in) { ts.in = 0; }
   ~Out() { ts.in = saved; }
};

// coverage
extern uint8_t* cov_map;     // one byte per basic block edge, shared between processes
extern uint32_t cov_size;
constexpr uint32_t cov_max = 1 << 18;

// simulated threads
void set_on_hang(void (*f)());
struct Switch { uint64_t after; int to; };
struct SchedResult { uint64_t preemptions = 0, switches = 0, conflicts = 0, directed = 0, blocked = 0; uint64_t interleaving = 0; };
// Runs n bodies as real threads, exactly one at a time. After `after` basic blocks of the running thread inside the
// code under test the baton goes to thread `to` (or the next runnable one); `after` 0: at the next yield_point.
// Memory cells which two threads touch, at least one of them writing, become preemption points: there the baton is
// handed on with `percent` probability (needs the code compiled with load and store tracing).
SchedResult run_threads(int n, void (*body)(int, void*), void* arg, const Switch* sw, size_t nsw, unsigned percent, uint64_t seed);
void        yield_point();   // between operations of a simulated thread
}
