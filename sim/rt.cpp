#include "rt.hpp"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <vector>

extern "C" void* __real_memcpy(void*, const void*, size_t);
namespace rt {
thread_local Thread ts;
uint64_t            live_bytes, live_count, peak_bytes, max_request, budget = ~0ull;
bool                over_budget;
const Around*       around;
const char*         heap_fill;
uint8_t*            cov_map;
uint32_t            cov_size;
static void (*on_hang)();
void set_on_hang(void (*f)()) { on_hang = f; }
static void (*on_tired)();
void set_on_tired(void (*f)()) { on_tired = f; }

void arm(uint64_t from, uint64_t n) {
   ts.allocs    = 0;
   ts.fired     = 0;
   ts.fail_from = from;
   ts.fail_to   = n > ~0ull - from ? ~0ull : from + n;
}
void disarm() { ts.fail_from = ts.fail_to = ~0ull; }
void mem_reset() { peak_bytes = live_bytes; max_request = 0; over_budget = false; }

// set of live allocations made by the code under test
namespace {
struct Ent { void* p; size_t n; };
Ent*     tab;
uint32_t tab_size = 1 << 21, tab_used;
uint32_t h(void* p) { return uint32_t((uintptr_t(p) * 0x9e3779b97f4a7c15ull) >> 40) & (tab_size - 1); }
void     put(void* p, size_t n) {
   if (!tab)
      tab = (Ent*)mmap(nullptr, tab_size * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (tab_used > tab_size / 2) return;
   uint32_t i = h(p);
   while (tab[i].p) i = (i + 1) & (tab_size - 1);
   tab[i] = { p, n };
   ++tab_used;
   live_bytes += n;
   ++live_count;
   if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}
} // namespace
static void forget_freed(void* p, size_t n);
namespace {
void del(void* p) {
   if (!tab || !tab_used) return;
   uint32_t i = h(p);
   while (tab[i].p && tab[i].p != p) i = (i + 1) & (tab_size - 1);
   if (!tab[i].p) return;
   forget_freed(p, tab[i].n);
   live_bytes -= tab[i].n;
   --live_count;
   --tab_used;
   // backward shift deletion
   uint32_t j = i;
   for (;;) {
      tab[i].p = nullptr;
      for (;;) {
         j = (j + 1) & (tab_size - 1);
         if (!tab[j].p) return;
         uint32_t k = h(tab[j].p);
         if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
         break;
      }
      tab[i] = tab[j];
      i      = j;
   }
}
void* alloc(size_t n, bool nothrow) {
   if (!ts.in) {
      void* p = malloc(n ? n : 1);
      if (!p) abort();
      return p;
   }
   uint64_t k = ts.allocs++;
   if (n > max_request) max_request = n;
   if (k >= ts.fail_from && k < ts.fail_to) {
      ++ts.fired;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
   }
   if (n > budget || live_bytes + n > budget) {
      over_budget = true;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
   }
   void* p = malloc(n ? n : 1);
   if (!p) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
   }
   if (heap_fill) for (size_t i = 0; i < n; i += 64) __real_memcpy((char*)p + i, heap_fill, n - i < 64 ? n - i : 64);
   put(p, n);
   return p;
}
} // namespace

// ------------------------------------------------------------------------------------------------ threads
namespace {
struct Sched {
   int                 n   = 0;
   int                 cur = -1;
   std::vector<sem_t>  sem;
   std::vector<char>   done, spinning;
   const Switch*       sw  = nullptr;
   size_t              nsw = 0, pos = 0;
   uint64_t            quantum = ~0ull;
   SchedResult         res;
   sem_t               finished;
   unsigned            percent = 0;
   uint64_t            rnd     = 1;
};
Sched* S;

// who touched which memory cell last, while simulated threads run
struct Cell { uintptr_t a; uint8_t th, w, hot; };
Cell*                       cells;
constexpr uint64_t          ncells = 1 << 22;
uint64_t                    cells_used;
Cell* cell(uintptr_t a, bool make) { // keys are never removed, so that what is found does not depend on addresses
   if (!cells) {
      if (!make) return nullptr;
      cells = (Cell*)mmap(nullptr, ncells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   }
   uint64_t i = (a + (a >> 16) * 0x9e3779b97f4a7c15ull) & (ncells - 1);
   for (;; i = (i + 1) & (ncells - 1)) {
      if (cells[i].a == a) return &cells[i];
      if (!cells[i].a) break;
   }
   if (!make || cells_used > ncells / 2) return nullptr;
   ++cells_used;
   cells[i].a = a;
   return &cells[i];
}
thread_local uintptr_t      stack_lo, stack_hi;
uint64_t rnd() {
   uint64_t z = (S->rnd += 0x9e3779b97f4a7c15ull);
   z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}

void next_quantum() {
   S->quantum = S->pos < S->nsw ? (S->sw[S->pos].after ? S->sw[S->pos].after : 1) : ~0ull;
}
int pick(int want) {
   for (int k = 0; k < S->n; ++k) {
      int t = (want + k) % S->n;
      if (t < 0) t += S->n;
      if (!S->done[t]) return t;
   }
   return -1;
}
void hand_over(int to, bool inside) {
   int me = ts.id;
   if (to == me || to < 0) return;
   ++S->res.switches;
   if (inside) ++S->res.preemptions;
   S->res.interleaving = S->res.interleaving * 0x9e3779b97f4a7c15ull + ts.path * 31 + me * 7 + to + 1;
   S->cur              = to;
   sem_post(&S->sem[to]);
   if (!S->done[me])
      while (sem_wait(&S->sem[me])) {}
}
void consume_switch(bool inside) {
   int to = S->pos < S->nsw ? pick(S->sw[S->pos].to) : pick(ts.id);
   ++S->pos;
   next_quantum();
   hand_over(to, inside);
}
// a simulated thread would block: let the others run
bool blocked() {
   if (!S || S->cur != ts.id) return false;
   int others = pick(ts.id + 1);
   if (others < 0 || others == ts.id) return false;
   ++S->res.blocked;
   hand_over(others, true);
   return true;
}
void touch(void* p, bool w) {
   if (!S || !ts.in || S->n < 2 || S->cur != ts.id) return;
   uintptr_t a = uintptr_t(p);
   if (a >= stack_lo && a < stack_hi) return;
   a >>= 3;
   Cell* pc = cell(a, true);
   if (!pc) return;
   Cell& c  = *pc;
   int   me = ts.id + 1;
   bool  conflict = c.th && c.th != me && (c.w || w);
   if (conflict) { c.hot = 1; ++S->res.conflicts; }
   bool stop = conflict || (c.hot && (w || c.w));
   if (stop && S->res.directed < 2000 && rnd() % 100 < S->percent) {
      int to = pick(int(rnd() % S->n));
      if (to >= 0 && to != ts.id) {
         ++S->res.directed;
         hand_over(to, true);
      }
   }
   c.th = me;
   c.w  = w;
}
void forget(void* p, size_t n) { // freed memory has no history
   for (uintptr_t a = uintptr_t(p) >> 3; a <= (uintptr_t(p) + n) >> 3; ++a)
      if (Cell* c = cell(a, false)) c->th = c->w = c->hot = 0;
}
} // namespace
static void forget_freed(void* p, size_t n) { if (S && cells) forget(p, n); }

void begin_call() {
   if (!S && on_tired && ts.ticks > run_limit) on_tired();
   ts.tick_limit = ts.ticks + call_limit;
   if (around) around->enter();
}

void yield_point() {
   if (!S) return;
   if (S->pos < S->nsw && S->sw[S->pos].after == 0) consume_switch(false);
}

struct Body { int id; void (*f)(int, void*); void* arg; };
static void* thread_main(void* v) {
   auto* b = (Body*)v;
   ts      = Thread{};
   ts.tick_limit = call_limit;
   ts.id   = b->id;
   pthread_attr_t at;
   if (pthread_getattr_np(pthread_self(), &at) == 0) {
      void*  lo;
      size_t n;
      if (pthread_attr_getstack(&at, &lo, &n) == 0) { stack_lo = uintptr_t(lo); stack_hi = stack_lo + n; }
      pthread_attr_destroy(&at);
   }
   while (sem_wait(&S->sem[b->id])) {}
   b->f(b->id, b->arg);
   S->done[b->id] = 1;
   int to         = pick(b->id);
   if (to < 0) sem_post(&S->finished);
   else {
      if (S->quantum == ~0ull || S->pos >= S->nsw) {}
      hand_over(to, false);
   }
   return nullptr;
}

SchedResult run_threads(int n, void (*body)(int, void*), void* arg, const Switch* sw, size_t nsw, unsigned percent, uint64_t seed) {
   Sched s;
   s.percent = percent;
   s.rnd     = seed;
   s.n = n;
   s.sem.resize(n);
   s.done.assign(n, 0);
   for (auto& x : s.sem) sem_init(&x, 0, 0);
   sem_init(&s.finished, 0, 0);
   s.sw  = sw;
   s.nsw = nsw;
   S     = &s;
   next_quantum();
   std::vector<pthread_t> th(n);
   std::vector<Body>      b(n);
   for (int i = 0; i < n; ++i) {
      b[i] = { i, body, arg };
      pthread_create(&th[i], nullptr, thread_main, &b[i]);
   }
   s.cur = 0;
   sem_post(&s.sem[0]);
   while (sem_wait(&s.finished)) {}
   for (auto& t : th) pthread_join(t, nullptr);
   S = nullptr;
   return s.res;
}
} // namespace rt

using namespace rt;

void* operator new(size_t n) { return alloc(n, false); }
void* operator new[](size_t n) { return alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, true); }
void  operator delete(void* p) noexcept { if (p) { del(p); free(p); } }
void  operator delete[](void* p) noexcept { if (p) { del(p); free(p); } }
void  operator delete(void* p, size_t) noexcept { if (p) { del(p); free(p); } }
void  operator delete[](void* p, size_t) noexcept { if (p) { del(p); free(p); } }
void  operator delete(void* p, const std::nothrow_t&) noexcept { if (p) { del(p); free(p); } }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) { del(p); free(p); } }

// Function-local statics and mutexes of the code under test: a simulated thread that would block hands the baton on
// instead of blocking the whole simulation.
extern "C" int __cxa_guard_acquire(uint64_t* g) {
   auto* b = (volatile uint8_t*)g;
   for (;;) {
      if (b[0]) return 0;
      if (!b[1]) { b[1] = 1; return 1; }
      if (!blocked()) return 0;
   }
}
extern "C" void __cxa_guard_release(uint64_t* g) { auto* b = (volatile uint8_t*)g; b[1] = 0; b[0] = 1; }
extern "C" void __cxa_guard_abort(uint64_t* g) { ((volatile uint8_t*)g)[1] = 0; }

extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
   static int (*real)(pthread_mutex_t*);
   if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
   if (!S || !ts.in) return real(m);
   for (;;) {
      int r = pthread_mutex_trylock(m);
      if (r != 16 /*EBUSY*/) return r;
      if (!blocked()) return real(m);
   }
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
   if (start == stop || *start) return;
   for (uint32_t* p = start; p < stop; ++p) *p = ++cov_size;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
   auto& t = ts;
   if (!t.in) return;
   ++t.ticks;
   auto fp = uintptr_t(__builtin_frame_address(0));
   if (fp < t.stack_min) t.stack_min = fp;
   if (cov_map && *g < cov_max) cov_map[*g] = 1;
   t.path = t.path * 0x100000001b3ull + *g;
   if (t.ticks > t.tick_limit) {
      if (on_hang) on_hang();
      _exit(98);
   }
   if (S && --S->quantum == 0) consume_switch(true);
}

// what happens inside of these takes time as well
static inline void bulk(size_t n) { if (ts.in) ts.ticks += n / 64; }
#define WRAP3(f, A, B) \
   extern "C" void* __real_##f(A, B, size_t); \
   extern "C" void* __wrap_##f(A a, B b, size_t n) { bulk(n); return __real_##f(a, b, n); }
WRAP3(__asan_memcpy, void*, const void*) WRAP3(__asan_memmove, void*, const void*) WRAP3(__asan_memset, void*, int)
WRAP3(memcpy, void*, const void*) WRAP3(memmove, void*, const void*) WRAP3(memset, void*, int) WRAP3(memchr, const void*, int)
extern "C" int    __real_memcmp(const void*, const void*, size_t);
extern "C" int    __wrap_memcmp(const void* a, const void* b, size_t n) { bulk(n); return __real_memcmp(a, b, n); }
extern "C" size_t __real_strlen(const char*);
extern "C" size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); bulk(n); return n; }

#define TOUCH(n) \
   extern "C" void __sanitizer_cov_load##n(void* p) { touch(p, false); } \
   extern "C" void __sanitizer_cov_store##n(void* p) { touch(p, true); }
TOUCH(1) TOUCH(2) TOUCH(4) TOUCH(8) TOUCH(16)
