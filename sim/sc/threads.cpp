// C05: several threads, each with contexts of its own, and types of one ABI shared for reading.
#include "../world.hpp"

namespace {
Plan gen_c05(Rng& r, const Tier& tier) {
   Plan p;
   int  n = int(r.range(2, r.chance(30) ? 5 : 3));
   p.ops.push_back(Op("sched").i("n", n).u("pc", r.chance(20) ? 0 : r.range(5, 90)).u("cs", r.next() >> 16));
   size_t nsw = r.chance(15) ? 0 : r.below(tier.thorough ? 400 : 200);
   for (size_t i = 0; i < nsw; ++i) {
      uint64_t after = r.chance(10) ? 0 : r.coin() ? r.range(1, 60) : r.coin() ? r.range(1, 800) : r.range(1, 20000);
      p.ops.push_back(Op("sw").u("after", after).u("to", r.below(n)));
   }
   std::vector<Book> pool;
   for (int i = 0, k = int(r.range(1, 2)); i < k; ++i) pool.push_back(wgen::book(r));
   std::vector<uint64_t> cons{ gen::some_account(r), gen::some_account(r) };
   for (size_t s = 0; s < pool.size(); ++s)
      p.ops.push_back(Op("xload").i("c", int(s)).s("fmt", "json").s("data", model::abi_to_json(pool[s].def)));
   // the same kind of work everywhere, so that the same code runs at the same time
   std::string same = r.chance(60) ? r.pick(pool[0].types) : "";
   unsigned    shared = unsigned(r.below(70)), hurt = unsigned(r.below(20));
   for (int t = 0; t < n; ++t) {
      std::map<uint64_t, size_t> have;
      auto add = [&](Op o) { p.ops.push_back(o.i("th", t)); };
      add(Op("new").i("c", 0));
      for (auto con : cons) { size_t b = r.below(pool.size()); if (r.chance(80)) { add(wgen::load(r, 0, con, pool[b].def)); have[con] = b; } }
      int m = int(r.range(4, tier.thorough ? 30 : 16));
      for (int i = 0; i < m; ++i) {
         uint64_t con = r.pick(cons);
         size_t   bi  = have.count(con) ? have[con] : 0;
         unsigned k   = unsigned(r.below(100));
         Op       o;
         if (k < 6) { size_t b = r.below(pool.size()); o = wgen::load(r, 0, con, pool[b].def, r.chance(hurt)); if (!r.chance(hurt)) have[con] = b; }
         else if (k < 10) { add(Op("new").i("c", 1)); add(wgen::load(r, 1, con, pool[bi].def)); add(wgen::convert(r, 1, con, pool[bi], hurt)); o = Op("del").i("c", 1); }
         else if (k < 20) o = wgen::small(r, 0);
         else if (k < 30) o = wgen::lookup(r, 0, con, pool[bi]);
         else if (r.chance(shared)) {
            size_t s = r.below(pool.size());
            Book   b = pool[s];
            if (!same.empty() && s == 0 && r.chance(60)) b.types = { same };
            o = wgen::convert(r, int(s), con, b, hurt);
            if (o.name == "h2j") { std::string raw; World::unhex(o.str("data"), raw); o.s("data", raw); }
            o.name = o.name == "j2b" ? "tj2b" : "tb2j";
            o.a.erase("con");
         } else {
            Book b = pool[bi];
            if (!same.empty() && bi == 0 && r.chance(60)) b.types = { same };
            o = wgen::convert(r, 0, con, b, hurt);
         }
         if (r.chance(3) && o.name != "s2n" && o.name != "del" && o.name[0] != 't') { o.u("fa", r.below(30)); o.u("fr", 1); }
         add(o);
      }
      if (r.coin()) add(Op("del").i("c", 0));
   }
   return p;
}
struct Shared {
   World*                                                   base = nullptr;
   std::map<std::pair<int, std::string>, api::Type>         types;
   std::vector<std::unique_ptr<World>>                      w;
   std::vector<std::vector<const Op*>>                      ops;
   std::vector<std::vector<api::R>>                         res;
   std::vector<char>                                        faulted;
   Run*                                                     r;
};
bool one(Shared& s, int th, const Op& o) {
   auto& w = *s.w[th];
   if (o.name[0] == 't') {
      auto it = s.types.find({ int(o.num("c")), o.str("type") });
      w.last  = {};
      if (it == s.types.end()) return true;
      World::Want        want;
      const model::Type* t = nullptr;
      World::Con         k;
      k.abi = s.base->slots[int(o.num("c"))].abi;
      auto f = World::find_type(k, o.str("type"), t);
      bool j = o.name == "tj2b";
      if (!it->second) { if (f == model::ok) return w.fail("refused-valid", o, "no such type"); return true; }
      if (f != model::ok) want.t = f;
      else if (j) {
         auto x = model::json_to_bin(t, o.str("data"), o.num("ord"));
         want.t = x.t;
         if (x.t == model::ok || x.maybe) { want.has_out = true; want.out = x.bin; }
      } else {
         auto x = model::bin_to_json(t, o.str("data"), false);
         if (x.zero_width) { s.r->add("probe.known_zone_skipped"); return true; }
         want.t = x.t;
         if (x.t == model::ok) { want.has_e = true; want.e = x.e; }
      }
      auto g = j ? api::t_json_to_bin(it->second, o.str("data"), o.num("ord")) : api::t_bin_to_json(it->second, o.str("data"));
      w.last = g;
      s.r->ev(o.name + (g.ok ? " ok " : " err ") + std::to_string(fnv(g.out)) + " " + g.err);
      return w.judge(o, g, want);
   }
   return w.exec(o);
}
void body(int th, void* v) {
   auto& s = *(Shared*)v;
   for (auto* o : s.ops[th]) {
      rt::yield_point();
      if (s.r->failed) break;
      if (!one(s, th, *o)) break;
      s.res[th].push_back(s.w[th]->last);
      if (s.w[th]->last_fired) s.faulted[th] = 1;
   }
   rt::yield_point();
   if (!s.r->failed) s.w[th]->close();
}
void run_c05(const Plan& p, Run& r) {
   int                     n = 1;
   uint64_t                pc = 0, cs = 0;
   std::vector<rt::Switch> sw;
   World                   base(r);
   for (auto& o : p.ops) {
      if (o.name == "sched") { n = int(std::max<int64_t>(1, std::min<int64_t>(8, o.num("n")))); pc = o.unum("pc"); cs = o.unum("cs"); }
      else if (o.name == "sw") sw.push_back({ o.unum("after"), int(o.unum("to") % n) });
      else if (o.name == "xload") { if (!base.exec(o)) return; }
   }
   Shared s;
   s.base = &base;
   s.r    = &r;
   auto setup = [&] {
      s.w.clear();
      s.ops.assign(n, {});
      s.res.assign(n, {});
      for (int i = 0; i < n; ++i) s.w.push_back(std::make_unique<World>(r));
      for (auto& o : p.ops)
         if (o.has("th") && o.num("th") >= 0 && o.num("th") < n) {
            s.ops[o.num("th")].push_back(&o);
            if (o.name[0] == 't') {
               auto key = std::make_pair(int(o.num("c")), o.str("type"));
               if (!s.types.count(key) && base.slots.count(key.first)) s.types[key] = api::type_of(*base.slots[key.first].a, key.second);
            }
         }
   };
   setup();
   s.faulted.assign(n, 0);
   auto x = rt::run_threads(n, body, &s, sw.data(), sw.size(), unsigned(pc), cs);
   r.add("fault.preemption", x.preemptions);
   r.add("probe.thread_switches", x.switches);
   r.add("probe.conflicting_accesses", x.conflicts);
   r.add("fault.conflict_directed_preemption", x.directed);
   r.add("probe.would_have_blocked", x.blocked);
   r.state("interleavings", x.interleaving);
   r.ev("schedule " + std::to_string(x.switches) + " " + std::to_string(x.interleaving));
   if (r.failed) return;
   // the same calls again, thread after thread
   auto conc = s.res;
   s.w.clear();
   setup();
   for (int t = 0; t < n; ++t) {
      if (s.faulted[t]) continue;
      for (size_t i = 0; i < s.ops[t].size(); ++i) {
         if (!one(s, t, *s.ops[t][i])) return;
         r.add("probe.compared_with_serial");
         if (!(s.w[t]->last == conc[t][i])) {
            s.w[t]->fail("interleaving-dependent-result", *s.ops[t][i], "with other threads running: " + World::show_r(conc[t][i]) + "; alone: " + World::show_r(s.w[t]->last));
            return;
         }
      }
      s.w[t]->close();
   }
}
} // namespace
extern const Scenario sc_c05;
const Scenario sc_c05{ "C05", gen_c05, run_c05, nullptr };
