#include "surround.hpp"
#include "../rt.hpp"
#include <alloca.h>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <new>
#include <sstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <xmmintrin.h>

namespace {
const char* const loc_names[] = { "C", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "hi_IN.UTF-8", "ja_JP.EUC-JP", "C.UTF-8" };
constexpr int     n_locs = 6;
struct Odd : std::numpunct<char> { // numbers as nobody expects them
   int v;
   explicit Odd(int v) : v(v) {}
   char        do_decimal_point() const override { return v == 0 ? ',' : v == 1 ? '.' : '~'; }
   char        do_thousands_sep() const override { return v == 0 ? '.' : v == 1 ? ',' : '0'; }
   std::string do_grouping() const override { return v == 2 ? "\1" : "\3"; }
   std::string do_truename() const override { return v == 1 ? "yes" : "wahr"; }
   std::string do_falsename() const override { return v == 1 ? "no" : "falsch"; }
};
struct Saved {
   std::string loc;
   unsigned    csr = 0;
   int         fd = 0;
   mode_t      mask = 0;
   std::string cwd;
   std::vector<std::string> env;
   std::terminate_handler   term = nullptr;
   std::new_handler         nomem = nullptr;
   struct sigaction         sig[4];
   char                     rnd[32];
   std::ios::fmtflags       flags{};
   std::streamsize          prec = 0;
};
const Surroundings* cur;
bool                active;
std::string         said;
uint64_t            clock_asked;
Saved               before;
std::locale         neutral;
std::string         home;
FILE *              captured, *real_out, *real_err;
char*               captured_text;
size_t              captured_size;
std::streambuf *    cout_buf, *cerr_buf, *clog_buf;
std::ostringstream* cxx_captured;
char                rnd_state[32], fill[64];
std::string         scratch;

std::string locale_dir() {
   char    b[4096];
   ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
   std::string s(b, n > 0 ? n : 0);
   return s.substr(0, s.rfind('/') + 1) + "locale";
}
bool present(int i) {
   static std::vector<int> known(n_locs, -1);
   if (known[i] < 0) {
      static bool first = true;
      if (first) setenv("LOCPATH", locale_dir().c_str(), 1);
      first    = false;
      known[i] = setlocale(LC_ALL, loc_names[i]) != nullptr;
      setlocale(LC_ALL, "C");
   }
   return known[i];
}
const std::locale& cxx_locale(int i, int loc) {
   static std::vector<std::locale> all;
   static std::vector<int>         named(n_locs, -1);
   if (i == 0) return std::locale::classic();
   if (i == 1) {
      static std::locale l[n_locs];
      if (named[loc] < 0) { named[loc] = present(loc); if (named[loc]) l[loc] = std::locale(loc_names[loc]); }
      return l[loc];
   }
   if (all.empty()) for (int v = 0; v < 3; ++v) all.push_back(std::locale(std::locale::classic(), new Odd(v)));
   return all[(i - 2) % 3];
}
std::vector<std::string> all_vars() {
   std::vector<std::string> v;
   for (char** e = environ; e && *e; ++e) v.push_back(*e);
   return v;
}
const int sigs[] = { SIGINT, SIGPIPE, SIGTERM, SIGALRM };
void observe(Saved& s) {
   s.loc = setlocale(LC_ALL, nullptr);
   s.csr = _mm_getcsr() & ~0x3fu;
   s.fd  = open("/dev/null", O_RDONLY | O_CLOEXEC);
   close(s.fd);
   s.mask = umask(0);
   umask(s.mask);
   char b[4096];
   s.cwd   = getcwd(b, sizeof b) ? b : "?";
   s.env   = all_vars();
   s.term  = std::get_terminate();
   s.nomem = std::get_new_handler();
   for (int i = 0; i < 4; ++i) sigaction(sigs[i], nullptr, &s.sig[i]);
   memcpy(s.rnd, rnd_state, sizeof rnd_state);
   s.flags = std::cout.flags();
   s.prec  = std::cout.precision();
}
__attribute__((noinline, no_sanitize("address"))) void fill_stack() { // what is below is what the call finds in its variables
   constexpr size_t n = 96 * 1024;
   volatile char*   p = (volatile char*)alloca(n);
   for (size_t i = 0; i < n; ++i) p[i] = fill[i & 63];
}
void set_vars(int k, bool on) {
   static const char* const names[] = { "TZ", "LANG", "LC_ALL", "LC_NUMERIC", "HOME", "TMPDIR", "POSIXLY_CORRECT", "LANGUAGE" };
   static const char* const values[][8] = {
      { "Asia/Kathmandu", "de_DE.UTF-8", "de_DE.UTF-8", "de_DE.UTF-8", "/nonexistent", "/nonexistent", "1", "de" },
      { "XXX+23:59:59", "tr_TR", "", "C", "", "", "", "" },
      { "AAA-14", "C", "C", "hi_IN.UTF-8", "/", "/", "y", "tr:de" },
   };
   for (int i = 0; i < 8; ++i)
      if (on && k) setenv(names[i], values[(k - 1) % 3][i], 1);
      else unsetenv(names[i]);
   tzset();
}
void enter() {
   if (!cur || active) return;
   active = true;
   auto&  s = *cur;
   for (int i = 0; i < 64; ++i) {
      uint64_t x = mix(s.seed, i / 8);
      fill[i] = s.mem == 0 ? 0 : s.mem == 1 ? char(0xff) : s.mem == 2 ? 1 : s.mem == 3 ? char(s.seed) : char(x >> (i % 8 * 8));
   }
   rt::heap_fill = fill;
   set_vars(s.vars, true);
   if (s.dir && chdir(s.dir == 1 ? "/" : scratch.c_str())) {}
   if (s.loc) setlocale(LC_ALL, present(s.loc) ? loc_names[s.loc] : "C");
   // the global C++ locale takes the C locale with it when it has a name
   if (s.cxx) std::locale::global(cxx_locale(s.cxx, s.loc));
   captured_text = nullptr;
   captured      = open_memstream(&captured_text, &captured_size);
   real_out = stdout; real_err = stderr;
   stdout = stderr = captured;
   cxx_captured = new std::ostringstream;
   cout_buf = std::cout.rdbuf(cxx_captured->rdbuf());
   cerr_buf = std::cerr.rdbuf(cxx_captured->rdbuf());
   clog_buf = std::clog.rdbuf(cxx_captured->rdbuf());
   if (s.io) { std::cout.setf(std::ios::hex, std::ios::basefield); std::cout.setf(std::ios::uppercase); std::cout.precision(2); }
   initstate(unsigned(s.seed) | 1, rnd_state, sizeof rnd_state);
   observe(before);
   if (!s.plain_arith && s.fp) {
      static const unsigned mode[] = { _MM_ROUND_NEAREST, _MM_ROUND_UP, _MM_ROUND_DOWN, _MM_ROUND_TOWARD_ZERO };
      static const int      x87[]  = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
      fesetround(x87[s.fp & 3]);
      _mm_setcsr((_mm_getcsr() & ~_MM_ROUND_MASK) | mode[s.fp & 3] | (s.fp & 4 ? 0x8040 : 0));
   }
   before.csr = _mm_getcsr() & ~0x3fu;
   static const int errs[] = { 0, ERANGE, EINVAL, ENOMEM, EINTR, 9999 };
   fill_stack();
   errno = errs[s.err % 6];
}
void leave() {
   if (!cur || !active) return;
   unsigned csr   = _mm_getcsr() & ~0x3fu;
   int      round = fegetround();
   fesetround(FE_TONEAREST);
   _mm_setcsr(0x1f80);
   auto& s = *cur;
   auto  say = [&](const std::string& t) { if (said.empty()) said = t; };
   if (csr != before.csr) say("changed how the processor calculates");
   static const int x87[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
   if (round != x87[s.plain_arith ? 0 : s.fp & 3]) say("changed the direction of rounding");
   Saved after;
   observe(after);
   if (after.loc != before.loc) say("changed the C locale from " + before.loc + " to " + after.loc);
   if (!(std::locale() == (s.cxx ? cxx_locale(s.cxx, s.loc) : neutral))) say("changed the global C++ locale");
   if (after.fd != before.fd) say("left a file open or closed one");
   if (after.mask != before.mask) say("changed the umask");
   if (after.cwd != before.cwd) say("changed the working directory to " + after.cwd);
   if (after.env != before.env) say("changed the environment variables");
   if (after.term != before.term || after.nomem != before.nomem) say("replaced a handler of the C++ runtime");
   for (int i = 0; i < 4; ++i) if (after.sig[i].sa_handler != before.sig[i].sa_handler) say("changed the handling of a signal");
   if (memcmp(after.rnd, before.rnd, sizeof after.rnd)) say("took numbers from the program's random generator");
   if (after.flags != before.flags || after.prec != before.prec) say("changed the format of std::cout");
   if (s.io) { std::cout.unsetf(std::ios::basefield | std::ios::uppercase); std::cout.setf(std::ios::dec, std::ios::basefield); std::cout.precision(6); }
   std::cout.rdbuf(cout_buf);
   std::cerr.rdbuf(cerr_buf);
   std::clog.rdbuf(clog_buf);
   stdout = real_out; stderr = real_err;
   fclose(captured);
   auto printed = std::string(captured_text, captured_size) + cxx_captured->str();
   free(captured_text);
   delete cxx_captured;
   if (!printed.empty()) say("printed " + show(printed));
   if (s.cxx) std::locale::global(neutral);
   setlocale(LC_ALL, "C");
   if (s.dir && chdir(home.c_str())) {}
   if (after.cwd != before.cwd && chdir(home.c_str())) {}
   set_vars(s.vars, false);
   rt::heap_fill = nullptr;
   active        = false;
}
const rt::Around hooks{ enter, leave };
} // namespace

Surroundings Surroundings::of(const Op& o) {
   Surroundings s;
   s.loc = int(o.unum("loc") % n_locs); s.cxx = int(o.unum("cxx") % 5); s.fp = int(o.unum("fp") & 7); s.err = int(o.unum("err") % 6);
   s.mem = int(o.unum("mem") % 5); s.vars = int(o.unum("vars") % 4); s.dir = int(o.unum("dir") % 3); s.io = int(o.unum("io") & 1); s.now = o.unum("now"); s.seed = o.unum("seed");
   return s;
}
std::string Surroundings::text() const {
   static const char* const cx[] = { "classic", "the same", "1.000,5", "1,000.5", "10500~5" };
   return std::string("C locale ") + loc_names[loc] + ", C++ locale " + cx[cxx] + ", arithmetic " + std::to_string(plain_arith ? 0 : fp) + ", errno " + std::to_string(err) + ", memory " + std::to_string(mem) + ", variables " + std::to_string(vars);
}
void surround::use(const Surroundings* s) { cur = s; }
std::string surround::complaint() { auto s = said; said.clear(); return s; }
uint64_t surround::asked_time() { auto n = clock_asked; clock_asked = 0; return n; }
void surround::begin() {
   neutral = std::locale();
   char b[4096];
   home = getcwd(b, sizeof b) ? b : "/";
   scratch = locale_dir();
   for (int i = 0; i < n_locs; ++i) present(i);
   said.clear();
   clock_asked = 0;
   rt::around  = &hooks;
}
void surround::end() {
   rt::around = nullptr;
   cur        = nullptr;
}
// the clock: inside of the code under test it is the one of the surroundings
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
   if (rt::ts.in && active && cur) {
      ++clock_asked;
      t->tv_sec  = time_t(cur->now / 1000000000);
      t->tv_nsec = long(cur->now % 1000000000);
      return 0;
   }
   return int(syscall(SYS_clock_gettime, id, t));
}
extern "C" time_t time(time_t* t) noexcept {
   struct timespec s;
   clock_gettime(CLOCK_REALTIME, &s);
   if (t) *t = s.tv_sec;
   return s.tv_sec;
}
