// Runner: derives plans from seeds, executes every run in its own forked process, minimises and gates violations.
#include "rt.hpp"
#include "sim.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
          "max_malloc_fill_size=65536:malloc_fill_byte=190:max_free_fill_size=0:print_legend=0:print_full_thread_history=0:"
          "fast_unwind_on_malloc=1:malloc_context_size=8:quarantine_size_mb=64:detect_odr_violation=0:alloc_dealloc_mismatch=0:check_initialization_order=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

namespace {
struct Shared {
   uint32_t len, logged;
   char     phase[512];
   char     buf[(1 << 20)];
};
Shared*  sh;
char*    errbuf;
int      errfd = -1;
const Scenario* find(const std::string& id) {
   for (auto& s : scenarios()) if (id == s.id) return &s;
   return nullptr;
}

struct Result {
   bool        done = false;
   Run         r;
   std::string err; // captured stderr of a child that died
};

std::string first_line_with(const std::string& s, const char* k) {
   size_t p = s.find(k);
   if (p == s.npos) return {};
   size_t e = s.find('\n', p);
   return s.substr(p, e - p);
}
// a crash is classified without addresses, so that the class is stable
std::string crash_class(int status, const std::string& err) {
   std::string l;
   if (!(l = first_line_with(err, "ERROR: AddressSanitizer: ")).empty()) {
      l = l.substr(25);
      return "memory-error:" + l.substr(0, l.find(' '));
   }
   if (!(l = first_line_with(err, "runtime error: ")).empty()) {
      std::string c = l.substr(15);
      std::string o;
      for (char ch : c) { if (isdigit((unsigned char)ch)) { if (o.empty() || o.back() != '#') o += '#'; } else o += ch == ' ' ? '-' : ch; }
      return "undefined-behaviour:" + o.substr(0, 60);
   }
   if (WIFEXITED(status) && WEXITSTATUS(status) == 98) return "no-progress";
   if (err.find("terminate called") != err.npos) return "terminated";
   if (WIFSIGNALED(status)) return WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL ? "no-progress" : std::string("killed:") + std::to_string(WTERMSIG(status));
   return "died:" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}

void serialise(const Run& r) {
   std::string o;
   o += "H " + std::to_string(r.hash) + "\n";
   o += "T " + std::to_string(r.sim_time) + "\n";
   for (auto& [k, n] : r.count) o += "C " + k + " " + std::to_string(n) + "\n";
   for (auto& [k, n] : r.distinct) o += "D " + k + " " + std::to_string(n) + "\n";
   if (r.failed) o += "V " + esc(r.v.cls) + " " + esc(r.v.msg.substr(0, 4000)) + "\n";
   if (!r.log.empty()) o += "L " + esc(r.log) + "\n";
   if (o.size() >= sizeof(sh->buf)) o.resize(o.rfind('\n', sizeof(sh->buf) - 2) + 1);
   memcpy(sh->buf, o.data(), o.size());
   sh->len = uint32_t(o.size());
}
void deserialise(Run& r) {
   std::string_view t(sh->buf, sh->len);
   size_t           p = 0;
   while (p < t.size()) {
      size_t e = t.find('\n', p);
      if (e == t.npos) break;
      auto l = t.substr(p, e - p);
      p      = e + 1;
      auto rest = l.substr(2);
      auto sp   = rest.find(' ');
      switch (l[0]) {
         case 'H': r.hash = strtoull(std::string(rest).c_str(), nullptr, 10); break;
         case 'T': r.sim_time = strtoull(std::string(rest).c_str(), nullptr, 10); break;
         case 'C': r.count[std::string(rest.substr(0, sp))] += strtoull(std::string(rest.substr(sp + 1)).c_str(), nullptr, 10); break;
         case 'D': r.distinct.push_back({ std::string(rest.substr(0, sp)), strtoull(std::string(rest.substr(sp + 1)).c_str(), nullptr, 10) }); break;
         case 'V': r.failed = true; r.v = { unesc(rest.substr(0, sp)), unesc(rest.substr(sp + 1)) }; break;
         case 'L': r.log = unesc(rest); break;
      }
   }
}

Result execute(const Scenario& sc, const Plan& plan, bool keep_log = false) {
   sh->len = 0;
   sh->phase[0] = 0;
   if (ftruncate(errfd, 0)) {}
   lseek(errfd, 0, SEEK_SET);
   fflush(stdout);
   pid_t pid = fork();
   if (pid == 0) {
      dup2(errfd, 2);
      struct rlimit rl { 60, 62 };
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit core { 0, 0 };
      setrlimit(RLIMIT_CORE, &core);
      Run r;
      r.keep_log = keep_log;
      static Run* current;
      current = &r;
      rt::ts.tick_limit = rt::call_limit; // whatever takes longer makes no progress
      rt::set_on_tired([] { // many large calls: what was done so far counts
         current->add("probe.cut_short");
         current->add("ticks", rt::ts.ticks);
         serialise(*current);
         _exit(0);
      });
      sc.run(plan, r);
      r.ev("path " + std::to_string(rt::ts.path) + " ticks " + std::to_string(rt::ts.ticks));
      r.add("ticks", rt::ts.ticks);
      serialise(r);
      _exit(0);
   }
   int status = 0;
   while (waitpid(pid, &status, 0) < 0) {}
   Result res;
   if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->len) {
      res.done = true;
      deserialise(res.r);
   } else {
      off_t n = lseek(errfd, 0, SEEK_END);
      if (n > 60000) n = 60000;
      res.err.resize(n);
      if (n && pread(errfd, res.err.data(), n, 0) != n) {}
      if (sh->len) deserialise(res.r);
      std::string cls = crash_class(status, res.err);
      std::string at;
      size_t p = res.err.find("#");
      // innermost frame that lies in the repository
      for (size_t q = res.err.find("    #"); q != res.err.npos; q = res.err.find("    #", q + 5)) {
         auto line = res.err.substr(q, res.err.find('\n', q) - q);
         if (line.find("/include/eosio/") != line.npos || line.find("/src/abi") != line.npos || line.find("/src/crypto") != line.npos) { at = line; break; }
      }
      (void)p;
      res.r.failed = false;
      res.r.fail(cls, "the process under simulation " + cls + " during " + std::string(sh->phase) + (at.empty() ? "" : " at" + at));
      res.r.hash = fnv(cls);
   }
   return res;
}
} // namespace

void note_phase(const std::string& s) {
   if (!sh) return;
   size_t n = std::min(s.size(), sizeof(sh->phase) - 1);
   memcpy(sh->phase, s.data(), n);
   sh->phase[n] = 0;
}

namespace {
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Minimiser {
   const Scenario& sc;
   std::string     cls;
   int             left;
   double          until;
   bool same(const Plan& p) {
      if (left-- <= 0 || now() > until) return false;
      auto r = execute(sc, p);
      return r.r.failed && r.r.v.cls == cls;
   }
   void ops(Plan& p) {
      for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2);; chunk /= 2) {
         for (size_t i = 0; i < p.ops.size();) {
            Plan q = p;
            q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(p.ops.size(), i + chunk));
            if (q.ops.size() < p.ops.size() && same(q)) p = q;
            else i += chunk;
         }
         if (chunk <= 1) break;
      }
   }
   void args(Plan& p) {
      for (size_t i = 0; i < p.ops.size(); ++i) {
         std::vector<std::string> keys;
         for (auto& [k, _] : p.ops[i].a) keys.push_back(k);
         for (auto& k : keys) {
            std::string orig = p.ops[i].a[k];
            { Plan q = p; q.ops[i].a.erase(k); if (same(q)) { p = q; continue; } }
            bool num = !orig.empty() && orig.find_first_not_of("0123456789") == orig.npos && orig.size() < 10;
            if (num) {
               uint64_t v = strtoull(orig.c_str(), nullptr, 10);
               for (uint64_t w : { uint64_t(0), uint64_t(1), v / 2, v - 1 }) {
                  if (w >= v) continue;
                  Plan q = p;
                  q.ops[i].a[k] = std::to_string(w);
                  if (same(q)) { p = q; v = w; break; }
               }
            } else if (orig.size() > 1) {
               size_t step = k == "data" ? 2 : 1;
               for (size_t chunk = orig.size() / 2 / step * step; chunk >= step && chunk; chunk = chunk / 2 / step * step) {
                  for (size_t a = 0; a < p.ops[i].a[k].size();) {
                     Plan q = p;
                     q.ops[i].a[k].erase(a, chunk);
                     if (same(q)) p = q; else a += chunk;
                     if (left <= 0) return;
                  }
               }
            }
         }
      }
   }
};

std::string replay_text(const Plan& p, const Violation& v, uint64_t hash, size_t from_ops) {
   std::string t = "# minimised from " + std::to_string(from_ops) + " operations. Replay: /verif/check.py --replay <this file>\n";
   std::string body = p.text();
   std::string m;
   for (char c : v.msg) m += c == '\n' ? ' ' : c;
   return body.substr(0, body.find('\n') + 1) + t + "class " + v.cls + "\nmessage " + m + "\nhash " + std::to_string(hash) + "\n" + body.substr(body.find('\n') + 1);
}
std::string slurp(const char* f) {
   std::string s;
   FILE*       h = fopen(f, "rb");
   if (!h) return s;
   char   b[65536];
   size_t n;
   while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
   fclose(h);
   return s;
}
uint64_t plan_seed(uint64_t seed, const std::string& prop, uint64_t i) { return mix(mix(seed, fnv(prop)), i); }
} // namespace

int main(int argc, char** argv) {
   // same addresses in every process, where the system lets us
   if (!getenv("ABIEOS_SIM_NOASLR")) {
      int cur = personality(0xffffffff);
      if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE)) {
         setenv("ABIEOS_SIM_NOASLR", "1", 1);
         personality(cur | ADDR_NO_RANDOMIZE);
         execv("/proc/self/exe", argv);
      }
   }
   std::map<std::string, std::string> a;
   std::vector<std::string>           pos;
   for (int i = 1; i < argc; ++i) {
      std::string s = argv[i];
      if (s.substr(0, 2) == "--") {
         size_t eq = s.find('=');
         a[s.substr(2, eq - 2)] = eq == s.npos ? "1" : s.substr(eq + 1);
      } else pos.push_back(s);
   }
   sh    = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   rt::cov_map = (uint8_t*)mmap(nullptr, rt::cov_max, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   errfd = memfd_create("err", 0);
   std::string mode = pos.empty() ? "" : pos[0];
   Tier        tier;
   tier.thorough = a["tier"] == "thorough";

   auto known = [](const Scenario& sc) { // the executions listed as findings
      Plan p;
      p.prop = sc.id;
      Scenario k = sc;
      static void (*kf)(Run&);
      kf    = sc.known;
      k.run = [](const Plan&, Run& r) { r.keep_log = true; kf(r); };
      return execute(k, p);
   };
   if (mode == "replay") {
      Plan p;
      std::map<std::string, std::string> meta;
      if (pos.size() < 2 || !Plan::parse(slurp(pos[1].c_str()), p, &meta)) { fprintf(stderr, "not a replay file\n"); return 2; }
      auto* sc = find(p.prop);
      if (!sc) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
      if (p.ops.size() == 1 && p.ops[0].name == "known" && sc->known) {
         auto key = p.ops[0].str("key");
         auto r   = known(*sc);
         if (r.done && r.r.log.find("STILL " + key + "\n") == std::string::npos) { printf("REPLAY held hash=0\n"); return 0; }
         printf("REPLAY violated class=known-case:%s hash=0\n", key.c_str());
         return 1;
      }
      auto r = execute(*sc, p, a.count("log"));
      if (a.count("log")) printf("%s", r.r.log.c_str());
      if (a.count("stderr")) printf("%s", r.err.c_str());
      if (!r.r.failed) { printf("REPLAY held hash=%llu\n", (unsigned long long)r.r.hash); return 0; }
      printf("REPLAY violated class=%s hash=%llu\n%s\n", r.r.v.cls.c_str(), (unsigned long long)r.r.hash, r.r.v.msg.c_str());
      return meta.count("class") && meta["class"] != r.r.v.cls ? 3 : 1;
   }
   if (mode == "known") {
      auto* sc = find(pos[1]);
      if (!sc) return 2;
      if (!sc->known) return 0;
      auto r = known(*sc);
      printf("%s", r.r.log.c_str());
      if (!r.done) { printf("%s\n%s", r.r.v.msg.c_str(), r.err.c_str()); return 2; }
      return 0;
   }
   if (mode == "plan") {
      auto* sc = find(pos[1]);
      Rng   r(plan_seed(strtoull(a["seed"].c_str(), nullptr, 10), sc->id, strtoull(a["run"].c_str(), nullptr, 10)));
      Plan  p = sc->gen(r, tier);
      p.prop  = sc->id;
      printf("%s", p.text().c_str());
      return 0;
   }
   if (mode != "batch") { fprintf(stderr, "usage: sim batch|replay|known|plan\n"); return 2; }

   auto*    sc    = find(pos[1]);
   if (!sc) return 2;
   uint64_t seed  = strtoull(a["seed"].c_str(), nullptr, 10), first = strtoull(a["first"].c_str(), nullptr, 10), n = strtoull(a["runs"].c_str(), nullptr, 10),
            stride = a.count("stride") ? strtoull(a["stride"].c_str(), nullptr, 10) : 1;
   double   cap   = a.count("cap") ? atof(a["cap"].c_str()) : 1e9, t0 = now();
   bool     hashes = a.count("hashes");
   FILE*    out   = fopen(a["out"].c_str(), "w");
   if (!out) return 2;
   std::map<std::string, uint64_t>           count;
   std::map<std::string, std::set<uint64_t>> distinct;
   std::set<uint64_t>                        plans;
   uint64_t runs = 0, nontrivial = 0, sim_ms = 0;
   std::vector<std::string> samples;
   bool violated = false;
   for (uint64_t i = first; i < first + n * stride; i += stride) {
      if (now() - t0 > cap) break;
      Rng  r(plan_seed(seed, sc->id, i));
      Plan p = sc->gen(r, tier);
      p.prop = sc->id;
      p.seed = i;
      auto res = execute(*sc, p);
      ++runs;
      sim_ms += res.r.sim_time;
      for (auto& [k, c] : res.r.count) count[k] += c;
      for (auto& [k, c] : res.r.distinct) distinct[k].insert(c);
      bool nt = false;
      for (auto& [k, c] : res.r.count) if (k.compare(0, 6, "fault.") == 0 && c) nt = true;
      std::string ptext = p.text();
      Plan        np = p;
      np.seed = 0;
      if (nt) if (plans.insert(fnv(np.text())).second) ++nontrivial;
      if (hashes) fprintf(out, "HASH %llu %llu\n", (unsigned long long)i, (unsigned long long)res.r.hash);
      if (samples.size() < 1 && nt && ptext.size() < 6000) samples.push_back(ptext);
      if (!res.r.failed) continue;
      // ---- violation: gate, minimise, gate again
      violated   = true;
      auto cls   = res.r.v.cls;
      auto again = execute(*sc, p);
      if (!again.r.failed || again.r.v.cls != cls || again.r.hash != res.r.hash) {
         fprintf(out, "UNSTABLE %llu %s\n", (unsigned long long)i, cls.c_str());
         break;
      }
      Minimiser m{ *sc, cls, 600, now() + (a.count("mincap") ? atof(a["mincap"].c_str()) : 45) };
      Plan      q = p;
      if (!a.count("nomin")) { m.ops(q); m.args(q); m.ops(q); }
      auto v1 = execute(*sc, q), v2 = execute(*sc, q);
      if (!(v1.r.failed && v2.r.failed && v1.r.v.cls == cls && v1.r.hash == v2.r.hash)) { q = p; v1 = execute(*sc, q); }
      std::string dir = a.count("replays") ? a["replays"] : ".";
      std::string file = dir + "/" + sc->id + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".plan";
      FILE* f = fopen(file.c_str(), "w");
      if (f) { auto t = replay_text(q, v1.r.v, v1.r.hash, p.ops.size()); fwrite(t.data(), 1, t.size(), f); fclose(f); }
      fprintf(out, "VIOLATION %s %s %s\n", file.c_str(), esc(v1.r.v.cls).c_str(), esc(v1.r.v.msg.substr(0, 2000)).c_str());
      break;
   }
   uint64_t edges = 0;
   for (uint32_t i = 0; i < rt::cov_max; ++i) edges += rt::cov_map[i];
   fprintf(out, "RUNS %llu\nNONTRIVIAL %llu\nSIMMS %llu\nWALL %.3f\nEDGESTOTAL %u\n", (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)sim_ms, now() - t0, rt::cov_size);
   for (auto& [k, c] : count) fprintf(out, "COUNT %s %llu\n", k.c_str(), (unsigned long long)c);
   for (auto& [k, s] : distinct) { fprintf(out, "DISTINCT %s", k.c_str()); for (auto x : s) fprintf(out, " %llx", (unsigned long long)x); fprintf(out, "\n"); }
   fprintf(out, "EDGES");
   for (uint32_t i = 0; i < rt::cov_max; ++i) if (rt::cov_map[i]) fprintf(out, " %x", i);
   fprintf(out, "\n");
   for (auto& s : samples) fprintf(out, "SAMPLE %s\n", esc(s).c_str());
   fprintf(out, "END\n");
   fclose(out);
   return violated ? 1 : 0;
}
