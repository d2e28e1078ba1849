// C06: the caller's callback between the steps of a conversion: cancellation at any step, deadlines on a simulated
// clock, work done inside the callback.
#include "../world.hpp"
#include <functional>
#include <stdexcept>

namespace {
struct Cancel : std::exception {
   std::string t;
   explicit Cancel(std::string s) : t(std::move(s)) {}
   const char* what() const noexcept override { return t.c_str(); }
};
// the clock of the simulation: basic blocks executed by the code under test, plus what callbacks and stalls take
uint64_t clock_jump;
uint64_t sim_now() { return rt::ts.ticks + clock_jump; }

Plan gen_c06(Rng& r, const Tier& tier) {
   Plan p;
   Book b = wgen::book(r);
   // arrays next to other fields, so that long runs of elements occur at any depth
   {
      auto t = r.pick(b.types);
      auto elem = t.find_first_of("?[$") == t.npos ? t : std::string("uint16");
      model::AbiDef d = b.def;
      d.structs.push_back({ "zzwrap", "", { { "a", elem + "[]" }, { "b", "uint8[]" }, { "c", "string" }, { "d", elem + "[]" } } });
      d.structs.push_back({ "zznest", "", { { "w", "zzwrap[]" }, { "o", "zzwrap?" } } });
      auto m = std::make_shared<model::Abi>();
      if (m->build(d) == model::ok) { b.def = d; b.abi = m; b.types.push_back("zzwrap"); b.types.push_back("zznest"); b.types.push_back("zznest"); b.types.push_back(elem + "[]"); b.types.push_back("uint8[]"); b.types.push_back("bool[]"); }
   }
   p.ops.push_back(Op("xload").i("c", 0).s("fmt", r.coin() ? "json" : "bin").s("data", ""));
   p.ops[0].s("data", p.ops[0].str("fmt") == "json" ? model::abi_to_json(b.def) : model::abi_to_bin(b.def));
   int n = int(r.range(2, tier.thorough ? 12 : 6));
   for (int i = 0; i < n; ++i) {
      std::string        type = r.pick(b.types);
      const model::Type* t    = b.abi->find(type, 0);
      if (!t) continue;
      gen::ValOpt vo;
      model::JV   j;
      std::string bin, text;
      Op          o("conv");
      bool        big = r.chance(25);
      if (big) { vo.array = int(r.range(20, tier.thorough ? 300 : 120)); vo.depth = 2; if (t->kind == model::Type::arr && t->sub->kind == model::Type::builtin) vo.array *= 8; }
      gen::value(r, t, j, bin, vo);
      if (bin.size() > 60000) continue;
      int mode = int(r.below(3)); // 0 ordered, 1 reorderable, 2 binary
      if (mode == 1 && r.coin()) gen::shuffle_keys(r, j, r.coin());
      gen::write_json(text, j, r, gen::style(r));
      bool hurt = r.chance(15);
      if (mode == 2) { if (hurt) bin = gen::damage(r, bin); o.s("data", bin); } else { if (hurt) text = gen::damage_text(r, text); o.s("data", text); }
      o.i("c", 0).i("mode", mode).s("type", type);
      // where the caller gives up
      o.u("from", r.chance(60) ? 0 : r.below(30)).u("step", r.chance(50) ? 1 : r.range(1, 20)).u("sweep", tier.thorough ? 60 : 20);
      o.i("kind", r.below(3)); // what is thrown
      if (r.coin()) o.u("dl", r.chance(50) ? r.below(3000) : r.below(100000)).u("slow", r.chance(50) ? 0 : r.below(400));
      if (r.chance(40)) o.u("re", r.range(1, 6)).i("ctx", r.coin());
      if (r.chance(25)) o.u("fa", r.below(30)).u("fr", r.chance(70) ? 1 : 1000);
      p.ops.push_back(o);
   }
   return p;
}
struct Got {
   api::R   r;
   size_t   consumed = 0;
   bool     operator==(const Got& b) const { return r == b.r && (!r.ok || consumed == b.consumed); }
};
Got conv(api::Abi& a, const Op& o, const std::function<void()>* cb) {
   Got g;
   int m = int(o.num("mode"));
   if (m == 2) g.r = api::cb_bin_to_json(a, o.str("type"), o.str("data"), g.consumed, cb);
   else g.r = api::cb_json_to_bin(a, o.str("type"), o.str("data"), m == 1, cb);
   return g;
}
// base 58 text takes quadratic time
uint64_t piece(uint64_t n) { return 7000 + 150 * n + n * n; }
uint64_t count_values(const model::JV& v) {
   uint64_t n = 1;
   for (auto& x : v.a) n += count_values(x);
   for (auto& x : v.o) n += count_values(x.second);
   return n;
}
// no single step may take longer than this: it is given by the longest piece of text or bytes in the data
uint64_t step_bound(const Op& o) {
   uint64_t longest = 0, cur = 0;
   if (o.num("mode") == 2) longest = 0;
   else for (char c : o.str("data")) { if (strchr(",:[]{}", c)) cur = 0; else longest = std::max(longest, ++cur); }
   // a binary does not show where its strings are: every byte may belong to one
   if (o.num("mode") == 2) return ~0ull;
   uint64_t commas = 0; // with reordering: a growing array of values moves to another place
   if (o.num("mode") == 1) for (char c : o.str("data")) commas += c == ',';
   return piece(longest) + 16 * commas;
}

void run_c06(const Plan& p, Run& r) {
   World w(r);
   for (auto& o : p.ops) {
      if (o.name == "xload") { if (!w.exec(o)) return; continue; }
      if (o.name != "conv" || !w.slots.count(int(o.num("c")))) continue;
      auto& a = *w.slots[int(o.num("c"))].a;
      // what it is without a callback, judged by the model
      Op plain(o.num("mode") == 2 ? "xb2j" : "xj2b");
      plain.i("c", o.num("c")).s("type", o.str("type")).s("data", o.str("data")).i("ord", o.num("mode") == 1);
      auto skipped = r.count["probe.known_zone_skipped"];
      if (!w.exec(plain)) return;
      if (r.count["probe.known_zone_skipped"] != skipped) continue;
      Got base = conv(a, o, nullptr);
      uint64_t bound = step_bound(o);
      if (bound == ~0ull) { // the longest string of the JSON form bounds every step
         uint64_t longest = 0, cur = 0;
         for (char c : base.r.out) { if (strchr(",:[]{}", c)) cur = 0; else longest = std::max(longest, ++cur); }
         bound = base.r.ok ? piece(longest) : piece(o.str("data").size());
      }
      auto fail = [&](const char* cls, const std::string& m) { r.fail(std::string(cls) + ":" + (o.num("mode") == 2 ? "binary" : o.num("mode") == 1 ? "reorderable" : "ordered"), World::brief(o) + ": " + m); };
      // ---- a callback which only watches
      uint64_t calls = 0, last = 0, gap = 0;
      std::function<void()> watch = [&] { uint64_t t = sim_now(); gap = std::max(gap, t - last); last = t; ++calls; };
      last  = sim_now();
      Got g = conv(a, o, &watch);
      uint64_t n = calls;
      r.ev("watch " + std::to_string(n) + " " + std::to_string(gap));
      r.add("probe.callbacks", n);
      if (!(g == base)) return fail("callback-changes-result", "without callback " + World::show_r(base.r) + ", with one " + World::show_r(g.r));
      if (n && gap > bound) return fail("no-callback", std::to_string(gap) + " basic blocks went by between two callbacks (bound " + std::to_string(bound) + ", " + std::to_string(n) + " callbacks)");
      auto& json  = o.num("mode") == 2 ? base.r.out : o.str("data");
      auto  start = json.find_first_not_of(" \t\r\n");
      size_t solid = 0;
      for (char c : json) solid += !strchr(" \t\r\n", c);
      if (!n && base.r.ok && solid > 20 && start != json.npos && (json[start] == '[' || json[start] == '{'))
         return fail("no-callback", "the callback was never called");
      if (base.r.ok) { // many small values: their number counts as well
         model::JV v;
         if (model::parse_json(json, v) == model::ok) {
            uint64_t values = count_values(v);
            if (values > 20 && n * 6 < values) return fail("no-callback", std::to_string(n) + " callbacks for " + std::to_string(values) + " values");
         }
      }
      // ---- the caller gives up at a step
      std::string why = "given up";
      auto thrower = [&](uint64_t k) {
         return std::function<void()>([&, k] {
            if (calls++ < k) return;
            switch (o.num("kind")) { case 0: throw Cancel(why); case 1: throw std::runtime_error(why); default: throw 42; }
         });
      };
      std::string want = o.num("kind") >= 2 ? "unknown exception" : why;
      uint64_t    from = o.unum("from"), step = std::max<uint64_t>(1, o.unum("step"));
      for (uint64_t q = 0; q < o.unum("sweep"); ++q) {
         uint64_t k = from + q * step;
         if (k >= n) break;
         why           = "given up at " + std::to_string(k);
         want          = o.num("kind") >= 2 ? "unknown exception" : why;
         auto     f    = thrower(k);
         uint64_t grow = 0, before = rt::live_count;
         for (int rep = 0; rep < 6; ++rep) {
            calls = 0;
            Got x = conv(a, o, &f);
            r.add("fault.cancelled_conversion");
            r.ev("cancel " + std::to_string(k) + " " + x.r.err);
            if (x.r.ok) return fail("cancellation-lost", "the callback threw at step " + std::to_string(k) + " and the conversion went on to " + World::show_r(x.r));
            if (x.r.err != want) return fail("cancellation-lost", "the callback threw " + show(want) + ", the caller got " + show(x.r.err));
            if (calls != k + 1) return fail("cancellation-lost", "the callback was called again after it threw");
            grow = rt::live_count > before ? grow + 1 : 0;
            if (!grow) break;
            before = rt::live_count;
         }
         if (grow >= 6) return fail("leak-on-cancel", "every cancelled conversion leaves more memory allocated (step " + std::to_string(k) + ")");
         r.state("cancel_points", mix(mix(fnv(o.str("type")), o.num("mode")), k));
      }
      if (n && o.unum("sweep")) {
         Got again = conv(a, o, nullptr);
         if (!(again == base)) return fail("unusable-after-cancel", "before " + World::show_r(base.r) + ", after cancelled conversions " + World::show_r(again.r));
      }
      // ---- a deadline
      if (o.has("dl")) {
         clock_jump        = 0;
         uint64_t t0       = sim_now(), dl = t0 + o.unum("dl"), slow = o.unum("slow"), seen = 0, prev = t0;
         calls             = 0;
         std::function<void()> f = [&] {
            clock_jump += slow; // the callback itself takes time
            if (sim_now() >= dl) { seen = sim_now(); throw Cancel("deadline"); }
            prev = sim_now();
            ++calls;
         };
         Got x = conv(a, o, &f);
         uint64_t end = seen ? seen : sim_now();
         r.sim_time += (end - t0) / 1000;
         r.ev("deadline " + std::to_string(calls) + " " + x.r.err);
         if (seen) {
            r.add("fault.deadline_passed");
            if (x.r.ok || x.r.err != "deadline") return fail("deadline-ignored", "the deadline passed and the caller got " + World::show_r(x.r));
            if (seen - dl > bound + slow) return fail("deadline-ignored", "noticed " + std::to_string(seen - dl) + " after the deadline (bound " + std::to_string(bound + slow) + ")");
         } else if (!(x == base)) return fail("callback-changes-result", "without callback " + World::show_r(base.r) + ", with a deadline not reached " + World::show_r(x.r));
         (void)prev;
         clock_jump = 0;
      }
      // ---- work on the same types inside the callback
      if (o.has("re")) {
         uint64_t every = std::max<uint64_t>(1, o.unum("re")), inner = 0;
         bool     bad = false;
         Got      got;
         calls = 0;
         api::Ctx* c = o.num("ctx") ? api::create() : nullptr;
         std::function<void()> f = [&] {
            if (calls++ % every || inner > 20 || bad) return;
            ++inner;
            got = conv(a, o, nullptr);
            if (!(got == base)) bad = true;
            if (c && api::name_to_string(c, 6138663577826885632ull).out != "eosio") bad = true;
         };
         Got x = conv(a, o, &f);
         if (c) api::destroy(c);
         r.add("fault.reentrant_call", inner);
         r.ev("nested " + std::to_string(inner));
         if (bad) return fail("nested-result", "a conversion inside the callback gave " + World::show_r(got.r) + ", outside " + World::show_r(base.r));
         if (!(x == base)) return fail("callback-changes-result", "alone " + World::show_r(base.r) + ", with conversions inside the callback " + World::show_r(x.r));
      }
      // ---- memory runs out while a callback is installed
      if (o.has("fa")) {
         std::function<void()> f = [&] { ++calls; };
         rt::arm(o.unum("fa"), o.has("fr") ? o.unum("fr") : 1);
         Got x = conv(a, o, &f);
         bool hit = rt::ts.fired;
         rt::disarm();
         r.add("fault.allocation_failure", hit);
         r.ev("oom " + x.r.err);
         if (!hit && !(x == base)) return fail("callback-changes-result", World::show_r(base.r) + " and " + World::show_r(x.r));
         Got y = conv(a, o, nullptr);
         if (!(y == base)) return fail("unusable-after-cancel", "before " + World::show_r(base.r) + ", after a failed allocation " + World::show_r(y.r));
      }
   }
   w.close();
}
} // namespace
extern const Scenario sc_c06;
const Scenario sc_c06{ "C06", gen_c06, run_c06, nullptr };
