// C17: the same requests to hosts which differ in everything a process shares with the library, and which change it
// from call to call. All of them have to answer alike, and the library has to leave everything as it was.
#include "../spoil.hpp"
#include "lab.hpp"
#include "surround.hpp"

namespace {
using model::B;
Op some_surroundings(Rng& r, int h) {
   Op o("surr");
   o.i("h", h);
   if (r.chance(70)) o.u("loc", r.below(6));
   if (r.chance(50)) o.u("cxx", r.below(5));
   if (r.chance(35)) o.u("fp", r.below(8));
   o.u("err", r.below(6)).u("mem", r.below(5)).u("vars", r.below(4)).u("dir", r.below(3)).u("io", r.below(2)).u("now", r.next() >> r.range(1, 30)).u("seed", r.next() >> 1);
   return o;
}
Plan gen_c17(Rng& r, const Tier& tier) {
   Plan p;
   int  n = int(r.range(2, 3));
   p.ops.push_back(Op("hosts").i("n", n).u("order", r.next() >> 1).u("oom", r.chance(25) ? r.range(3, 8) : 0));
   for (int h = 0; h < n; ++h) if (h || r.coin()) p.ops.push_back(some_surroundings(r, h));
   std::vector<uint64_t> cons;
   std::vector<Book>     books;
   for (int i = 0, k = int(r.range(1, 2)); i < k; ++i) {
      static const char* nm[] = { "alice", "bob" };
      cons.push_back(model::name_loose(nm[i]));
      books.push_back(wgen::book(r));
      p.ops.push_back(wgen::load(r, 0, cons[i], books[i].def));
      p.ops.push_back(Op("xload").i("c", i).s("fmt", r.coin() ? "json" : "bin").s("data", ""));
      p.ops.back().s("data", p.ops.back().str("fmt") == "json" ? model::abi_to_json(books[i].def) : model::abi_to_bin(books[i].def));
   }
   int m = int(r.range(6, tier.thorough ? 80 : 30));
   for (int i = 0; i < m; ++i) {
      if (r.chance(25)) p.ops.push_back(some_surroundings(r, int(r.below(n))));
      if (r.chance(5)) p.ops.push_back(Op("restart").i("h", r.below(n)));
      size_t c = r.below(cons.size());
      auto   w = r.below(100);
      if (w < 35) {
         Op o = wgen::convert(r, 0, cons[c], books[c], 35);
         if (o.name != "h2j" && r.chance(30)) { o.name = "x" + o.name; o.i("c", c); }
         p.ops.push_back(o);
      } else if (w < 60) { // near misses, which have to be explained
         auto type = r.chance(40) ? r.pick(gen::builtin_names()) : r.pick(books[c].types);
         auto* t   = books[c].abi->find(type, 0);
         if (!t) continue;
         gen::ValOpt vo;
         model::JV   j;
         std::string bin, text;
         gen::value(r, t, j, bin, vo);
         if (r.chance(60)) gen::spoil(r, t, j);
         gen::write_json(text, j, r, gen::style(r));
         bool x = r.chance(30);
         p.ops.push_back(Op(x ? "xj2b" : "j2b").i("c", x ? c : 0).u("con", cons[c]).s("type", type).i("ord", r.coin()).s("data", text));
      } else if (w < 66) p.ops.push_back(wgen::lookup(r, 0, cons[c], books[c]));
      else if (w < 72) p.ops.push_back(wgen::small(r, 0));
      else if (w < 77) p.ops.push_back(wgen::load(r, 0, r.coin() ? cons[c] : 99, r.coin() ? books[c].def : gen::damage_abi(r, books[c].def), r.chance(40)));
      else if (w < 90) {
         auto& e = nat::some_entry(r);
         auto  b = nat::some_value(r, e);
         if (r.chance(40)) b = r.coin() ? gen::damage_marks(r, nat::type(e), b) : gen::damage(r, b);
         p.ops.push_back(Op("nat").s("type", e.name).s("data", b));
      } else {
         auto& e = nat::some_entry(r);
         if (!e.parse) continue;
         model::JV   j;
         std::string text;
         nat::some_value(r, e, &j);
         if (r.chance(25)) gen::spoil(r, nat::type(e), j);
         gen::write_json(text, j, r, gen::style(r));
         if (text.size() > 6000) continue;
         p.ops.push_back(Op("parse").s("type", e.name).s("data", text));
      }
   }
   return p;
}
struct W17 {
   Run&                      run;
   World                     w;
   nat::Lab                  lab;
   std::vector<Surroundings> hosts;
   std::map<uint64_t, Op>    loads;  // by contract
   std::map<int, Op>         xloads;
   uint64_t                  order = 0, oom = 0, step = 0;
   explicit W17(Run& r) : run(r), w(r), lab(r) {}
   static bool floats(const model::Type* root) {
      std::set<const model::Type*> seen;
      std::function<bool(const model::Type*)> walk = [&](const model::Type* t) {
         if (!t || !seen.insert(t).second) return false;
         if (t->kind == model::Type::builtin && (t->b == B::f32 || t->b == B::f64)) return true;
         if (walk(t->sub)) return true;
         for (auto& f : t->f) if (walk(f.t)) return true;
         return false;
      };
      return walk(root);
   }
   // numbers with a fraction depend on how the program wants its processor to round, everything else doesn't
   bool uses_floats(const Op& o) {
      if (o.name == "nat" || o.name == "parse") { auto* e = nat::find(o.str("type")); return e && floats(nat::type(*e)); }
      const model::Type* t = nullptr;
      if (o.name == "xj2b" || o.name == "xb2j") {
         for (int h = 0; h < int(hosts.size()); ++h) { auto s = w.slots.find(h * 4 + int(o.num("c"))); if (s != w.slots.end()) { World::Con k; k.abi = s->second.abi; if (!k.abi || w.find_type(k, o.str("type"), t) == model::unk) return true; if (floats(t)) return true; } }
         return false;
      }
      if (o.name != "j2b" && o.name != "b2j" && o.name != "h2j") return false;
      for (int h = 0; h < int(hosts.size()); ++h)
         if (auto* c = w.get(h)) { auto k = c->con.find(o.unum("con")); if (k != c->con.end()) { if (!k->second.abi || w.find_type(k->second, o.str("type"), t) == model::unk) return true; if (floats(t)) return true; } }
      return false;
   }
   bool at(int h, const Op& o, api::R& g) { // one host does it
      auto s = hosts[h];
      bool f = uses_floats(o);
      s.plain_arith   = f;
      surround::use(&s);
      bool good = perform(h, o, g);
      surround::use(nullptr);
      if (s.loc) run.add("fault.c_locale");
      if (s.cxx) run.add("fault.cxx_locale");
      if (s.fp && !f) run.add("fault.arithmetic_mode");
      if (s.err) run.add("fault.errno_left_over");
      if (s.vars) run.add("fault.environment_variables");
      if (s.dir) run.add("fault.working_directory");
      if (s.io) run.add("fault.stream_format");
      run.add("fault.memory_contents");
      run.add("probe.asked_time", surround::asked_time());
      auto c = surround::complaint();
      if (!good) { if (!run.v.msg.empty()) run.v.msg += " [with " + s.text() + "]"; return false; }
      if (!c.empty()) { run.fail("surroundings-changed:" + o.name, o.name + " " + World::brief(o) + ": " + c + " [with " + s.text() + "]"); return false; }
      return true;
   }
   bool perform(int h, const Op& o, api::R& g) {
      if (o.name == "nat") {
         auto* e = nat::find(o.str("type"));
         if (!e) return true;
         nat::Lab::Got got;
         note_phase("native " + o.str("type"));
         if (!lab.decode(*e, o.str("data"), got)) return false;
         g = got.r;
         if (got.obj && got.r.ok) {
            for (auto what : { nat::BIN, nat::JSON, nat::PRETTY, nat::KEY }) {
               if (what && !(e->caps & (what == nat::JSON ? nat::cJ : what == nat::PRETTY ? nat::cP : nat::cK))) continue;
               auto x = got.obj->emit(what, nat::CONVERT, 0);
               g.out += std::to_string(x.ok) + x.err + "/" + x.bytes + "/";
            }
         }
         return true;
      }
      if (o.name == "parse") {
         auto* e = nat::find(o.str("type"));
         if (!e || !e->parse) return true;
         note_phase("parse " + o.str("type"));
         auto v = e->parse(o.str("data"), g);
         run.ev("parse " + std::to_string(g.ok) + g.err);
         if (g.ok) { auto x = v->emit(nat::BIN, nat::CONVERT, 0); g.out = std::to_string(x.ok) + x.bytes + x.err; }
         return true;
      }
      Op q = o;
      q.i("c", o.name[0] == 'x' ? h * 4 + o.num("c") : o.num("c") < 0 ? -1 : h);
      if (oom && ++step % oom == 0 && !o.has("null") && o.name != "hex") {
         Op f = q;
         f.u("fa", mix(order, step) % 24);
         if (!w.exec(f)) return false;
      }
      if (!w.exec(q)) return false;
      g = w.last;
      return true;
   }
   bool start(int h) {
      api::R g;
      if (!at(h, Op("new"), g)) return false;
      for (auto& [_, l] : loads) if (!at(h, l, g)) return false;
      for (auto& [_, l] : xloads) if (!at(h, l, g)) return false;
      return true;
   }
   void all(const Op& o) { // every host, one after another
      uint64_t k = mix(order, ++step) % hosts.size();
      api::R   first;
      for (size_t i = 0; i < hosts.size(); ++i) {
         int    h = int((i + k) % hosts.size());
         api::R g;
         if (!at(h, o, g)) return;
         if (i == 0) { first = g; continue; }
         if (o.name == "hex" || g == first) continue;
         run.fail("hosts-disagree:" + o.name, o.name + " " + World::brief(o) + ": host " + std::to_string(h) + " (" + hosts[h].text() + ") answers " + World::show_r(g) + ", host " + std::to_string(k) + " (" + hosts[k].text() + ") " + World::show_r(first));
         return;
      }
      if (o.name == "load" && first.ok) loads[o.unum("con")] = o;
      if (o.name == "xload" && first.ok) xloads[int(o.num("c"))] = o;
   }
};
void run_c17(const Plan& p, Run& r) {
   W17 w(r);
   surround::begin();
   for (auto& o : p.ops) {
      if (r.failed) break;
      if (o.name == "hosts") {
         if (!w.hosts.empty()) continue;
         w.order = o.unum("order"); w.oom = o.unum("oom");
         w.hosts.resize(std::min<uint64_t>(4, std::max<uint64_t>(1, o.unum("n"))));
         for (auto& h : w.hosts) h.seed = w.order, h.mem = 4;
         for (size_t h = 0; h < w.hosts.size(); ++h) w.start(int(h));
      } else if (w.hosts.empty()) continue;
      else if (o.name == "surr") {
         auto s = Surroundings::of(o);
         w.hosts[o.unum("h") % w.hosts.size()] = s;
         r.state("surroundings", mix(mix(mix(s.loc, s.cxx), mix(s.fp, s.err)), mix(s.mem, s.vars)));
      } else if (o.name == "restart") {
         int    h = int(o.unum("h") % w.hosts.size());
         api::R g;
         r.add("fault.restart");
         if (w.at(h, Op("del"), g)) w.start(h);
      } else w.all(o);
   }
   Surroundings s;
   surround::use(&s);
   w.w.close();
   surround::use(nullptr);
   auto c = surround::complaint();
   if (!c.empty()) r.fail("surroundings-changed:del", "destroying contexts: " + c);
   surround::end();
}
} // namespace
extern const Scenario sc_c17;
const Scenario sc_c17{ "C17", gen_c17, run_c17, nullptr };
