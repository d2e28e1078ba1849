// C01..C04: what a context promises, over histories of calls, damaged ABIs and allocation failures.
#include "../world.hpp"

namespace {
Plan gen_c01(Rng& r, const Tier& tier) {
   Plan  p;
   int   nctx = int(r.range(1, 3));
   std::vector<uint64_t> cons;
   for (int i = 0, n = int(r.range(1, 3)); i < n; ++i) cons.push_back(gen::some_account(r));
   std::map<int, std::map<uint64_t, Book>> books;
   std::vector<Book> pool;
   for (int i = 0, n = int(r.range(1, 3)); i < n; ++i) pool.push_back(wgen::book(r));
   unsigned hurt = unsigned(r.below(50)), nulls = unsigned(r.below(8)), twin = unsigned(r.range(20, 100));
   for (int c = 0; c < nctx; ++c) p.ops.push_back(Op("new").i("c", c));
   auto reload = [&](int c, uint64_t con) {
      Book b = r.chance(60) ? r.pick(pool) : wgen::book(r);
      bool h = r.chance(hurt);
      if (h && r.coin()) {
         auto o = wgen::load(r, c, con, gen::damage_abi(r, b.def));
         p.ops.push_back(o);
         return;
      }
      p.ops.push_back(wgen::load(r, c, con, b.def, h));
      if (!h) books[c][con] = b;
   };
   for (int c = 0; c < nctx; ++c) for (auto con : cons) if (r.chance(85)) reload(c, con);
   int n = int(r.range(5, tier.thorough ? 60 : 30));
   for (int i = 0; i < n; ++i) {
      int      c   = int(r.below(nctx));
      uint64_t con = r.pick(cons);
      if (r.chance(2)) con = gen::some_account(r);
      size_t before = p.ops.size();
      unsigned k = unsigned(r.below(100));
      if (k < 12) reload(c, con);
      else if (k < 15) { p.ops.push_back(Op("del").i("c", c)); p.ops.push_back(Op("new").i("c", c)); books.erase(c); if (r.chance(80)) reload(c, con); }
      else if (k < 25) p.ops.push_back(wgen::small(r, c));
      else {
         auto it = books[c].find(con);
         Book b  = it == books[c].end() ? r.pick(pool) : it->second;
         if (k < 40) p.ops.push_back(wgen::lookup(r, c, con, b));
         else p.ops.push_back(wgen::convert(r, c, con, b, hurt));
      }
      for (size_t q = before; q < p.ops.size(); ++q) {
         if (p.ops[q].name == "new" || p.ops[q].name == "del") continue;
         if (r.chance(nulls)) wgen::null_something(r, p.ops[q]);
         if (r.chance(twin)) p.ops[q].i("tw", 1);
      }
   }
   return p;
}
void run_c01(const Plan& p, Run& r) {
   World w(r);
   for (auto& o : p.ops) {
      if (!w.exec(o)) return;
      r.state("context_states", w.state());
   }
   w.close();
}

// ------------------------------------------------------------------------------------------------ C02 allocation failure
Plan gen_c02(Rng& r, const Tier& tier) {
   Plan     p;
   uint64_t con = gen::some_account(r);
   auto fault = [&](Op o, int points) {
      bool load = o.name == "load" || o.name == "xload";
      // how many allocations the call makes is not known here: points are spread, and stop where the call completes
      uint64_t step = r.chance(40) ? 1 : r.range(1, load ? 25 : 4);
      o.u("from", r.chance(40) ? 0 : r.below(load ? 150 : 20)).u("step", step).i("sweep", points);
      o.u("fr", r.chance(60) ? 1 : r.coin() ? r.range(2, 10) : 1000000);
      return o;
   };
   auto cxx = [&](Op o) { // the same through the C++ interface
      if (o.name == "load") { if (o.str("fmt") == "hex") { std::string raw; World::unhex(o.str("data"), raw); o.s("data", raw).s("fmt", "bin"); } o.name = "xload"; }
      else if (o.name == "j2b") o.name = "xj2b";
      else if (o.name == "b2j") o.name = "xb2j";
      else return Op("xdel").i("c", 9);
      return o;
   };
   Book b = wgen::book(r);
   int  points = tier.thorough ? 60 : 24;
   if (r.chance(20)) { Op n("new"); n.i("c", 0).u("fa", r.below(2)).u("fr", 1); p.ops.push_back(n); }
   p.ops.push_back(Op("new").i("c", 0));
   Op l0 = wgen::load(r, 0, con, b.def);
   if (r.chance(30)) p.ops.push_back(fault(l0, points));
   p.ops.push_back(l0);
   p.ops.push_back(cxx(l0));
   int n = int(r.range(2, tier.thorough ? 12 : 7));
   for (int i = 0; i < n; ++i) {
      unsigned k = unsigned(r.below(100));
      Op o;
      if (k < 20) { // replace the ABI, fail, then look whether the old one still answers
         Book nb = wgen::book(r);
         Op l = wgen::load(r, 0, con, r.chance(15) ? gen::damage_abi(r, nb.def) : nb.def);
         if (r.coin()) l = cxx(l);
         p.ops.push_back(fault(l, points));
         for (int q = 0; q < 3; ++q) { Op c = wgen::convert(r, 0, con, b, 5); p.ops.push_back(c); if (l.name == "xload") p.ops.push_back(cxx(c)); }
         if (r.coin()) { p.ops.push_back(l); if (l.name == "load") { b = nb; } else { p.ops.push_back(cxx(l0)); } }
         continue;
      }
      if (k < 30) o = wgen::lookup(r, 0, con, b);
      else if (k < 40) o = wgen::small(r, 0);
      else o = wgen::convert(r, 0, con, b, 10);
      if (o.name == "s2n") { p.ops.push_back(o); continue; }
      if (r.chance(40) && (o.name == "j2b" || o.name == "b2j")) o = cxx(o);
      p.ops.push_back(fault(o, points));
      p.ops.push_back(o);
      if (r.chance(20)) p.ops.push_back(Op("hex").i("c", 0));
   }
   return p;
}
bool sweep(World& w, const Op& o, Run& r) {
   uint64_t n = o.unum("sweep"), from = o.unum("from"), step = std::max<uint64_t>(1, o.unum("step"));
   for (uint64_t k = 0; k < n; ++k) {
      Op f = o;
      f.u("fa", from + k * step);
      f.a.erase("sweep");
      // a failing call repeated must not pile up memory
      uint64_t growth = 0, before = rt::live_count;
      for (int rep = 0; rep < 6; ++rep) {
         if (!w.exec(f)) return false;
         if (!w.last_fired) return true; // completed before the failure point
         growth = rt::live_count > before ? growth + 1 : 0;
         if (!growth) break;
         before = rt::live_count;
      }
      if (growth >= 6) { w.fail("leak-on-failure", f, "every failing call leaves more memory allocated (allocation " + f.str("fa") + " fails)"); return false; }
      r.state("failure_points", mix(mix(fnv(o.name + o.str("type") + o.str("fmt")), from + k * step), o.unum("fr")));
   }
   return true;
}
void pass_c02(const Plan& p, Run& r) {
   World w(r);
   for (auto& o : p.ops) {
      if (o.has("sweep") ? !sweep(w, o, r) : !w.exec(o)) return;
   }
   w.close();
}
void run_c02(const Plan& p, Run& r) {
   pass_c02(p, r);
   if (r.failed || !rt::live_count) return;
   // something is left: constants made on first use, or a leak, which grows every time
   r.add("probe.leftover");
   uint64_t a = rt::live_count;
   pass_c02(p, r);
   uint64_t b = rt::live_count;
   pass_c02(p, r);
   uint64_t c = rt::live_count;
   if (!r.failed && b > a && c > b) r.fail("leak", "allocations left after destroying every context: " + std::to_string(a) + ", after a second pass " + std::to_string(b) + ", after a third " + std::to_string(c));
}

// ------------------------------------------------------------------------------------------------ C03 ABI loading
// Three contexts hold the same contract, loaded from the three formats; one or more loads are torn or damaged on the
// way. A conversion asked of all contexts that accepted the same definition must give the same answer.
Plan gen_c03(Rng& r, const Tier& tier) {
   Plan     p;
   int      nctx = 3;
   uint64_t con  = gen::some_account(r), other = gen::some_account(r);
   for (int c = 0; c < nctx; ++c) p.ops.push_back(Op("new").i("c", c));
   Book cur = wgen::book(r), oth = wgen::book(r);
   auto data_for = [&](const model::AbiDef& d, int c) {
      Op o("load");
      std::string fmt = c == 0 ? "json" : c == 1 ? "bin" : "hex", data;
      if (c == 0) data = wgen::spell(r, model::abi_to_json(d));
      else { data = model::abi_to_bin(d, !d.variants.empty() || r.coin()); if (c == 2) data = tohex(data, r.coin()); }
      return o.i("c", c).u("con", con).s("fmt", fmt).s("data", data);
   };
   auto everywhere = [&](const model::AbiDef& d) { for (int c = 0; c < nctx; ++c) p.ops.push_back(data_for(d, c)); };
   auto probes = [&](Book& b, int n) {
      for (int i = 0; i < n; ++i) {
         Op o = r.chance(25) ? wgen::lookup(r, 0, con, b) : wgen::convert(r, 0, con, b, 8);
         o.i("all", nctx);
         p.ops.push_back(o);
      }
   };
   everywhere(cur.def);
   if (r.coin()) for (int c = 0; c < nctx; ++c) { auto o = data_for(oth.def, c); o.u("con", other); p.ops.push_back(o); }
   probes(cur, 3);
   int n = int(r.range(1, tier.thorough ? 6 : 3));
   for (int i = 0; i < n; ++i) {
      Book nb = r.chance(25) ? cur : wgen::book(r);
      if (r.chance(30)) { // an edited version of the same contract, as upgrades are
         nb = cur;
         if (!nb.def.structs.empty()) {
            auto& s = nb.def.structs[r.below(nb.def.structs.size())];
            if (!s.fields.empty() && r.coin()) s.fields.pop_back(); else s.fields.push_back({ "zz", "uint16" });
         }
         auto m = std::make_shared<model::Abi>();
         if (m->build(nb.def) != model::ok) nb = cur; else nb.abi = m;
      }
      // torn and damaged deliveries of the new version: refused, or taken for exactly what arrived
      for (int q = 0, k = int(r.range(1, 4)); q < k; ++q) {
         int c = int(r.below(nctx));
         if (r.chance(35)) {
            Op o = data_for(nb.def, c);
            o.name = "torn";
            o.u("from", r.below(20)).u("step", r.range(1, 12)).u("sweep", tier.thorough ? 60 : 15).i("reread", c);
            p.ops.push_back(o);
            continue;
         }
         Op o = data_for(r.chance(40) ? gen::damage_abi(r, nb.def) : nb.def, c);
         if (r.chance(70)) o.s("data", c == 0 ? gen::damage_text(r, o.str("data")) : c == 2 && r.coin() ? gen::damage_text(r, o.str("data")) : c == 1 ? gen::damage(r, o.str("data")) : [&] { std::string raw; World::unhex(o.str("data"), raw); return tohex(gen::damage(r, raw)); }());
         p.ops.push_back(o);
         if (r.coin()) { Op t = r.coin() ? wgen::lookup(r, c, con, cur) : wgen::convert(r, c, con, cur, 0); p.ops.push_back(t); }
      }
      if (r.chance(30)) probes(cur, 2);
      if (r.chance(80)) { everywhere(nb.def); cur = nb; }
      else everywhere(cur.def);
      probes(cur, int(r.range(2, 5)));
      if (r.chance(30)) { Op o = wgen::convert(r, 0, other, oth, 0); o.i("all", nctx); p.ops.push_back(o); }
      if (r.chance(30)) { Op o("codec"); o.s("data", model::abi_to_bin(cur.def)); p.ops.push_back(o); }
   }
   return p;
}
// what an exported definition means
bool same_type(const model::Type* a, const model::Type* b, std::set<std::pair<const void*, const void*>>& seen) {
   if (!seen.insert({ a, b }).second) return true;
   if (!a || !b || a->kind != b->kind || a->f.size() != b->f.size() || !a->sub != !b->sub) return false;
   if (a->kind == model::Type::builtin && a->b != b->b) return false;
   if (a->sub && !same_type(a->sub, b->sub, seen)) return false;
   for (size_t i = 0; i < a->f.size(); ++i)
      if (a->f[i].name != b->f[i].name || !same_type(a->f[i].t, b->f[i].t, seen)) return false;
   return true;
}
bool exported(World& w, const Op& o) {
   model::AbiDef d, e;
   model::Abi    m, n;
   api::AbiPtr   a, b;
   if (!api::abi_load_bin(o.str("data"), a).ok || model::parse_abi_bin(o.str("data"), d) != model::ok || m.build(d) != model::ok) return true;
   auto x = api::abi_export(*a);
   w.run.ev("export " + std::to_string(fnv(x.out)) + x.err);
   w.run.add("probe.exported_abis");
   if (!x.ok) return w.fail("abi-export", o, "an ABI cannot be exported: " + x.err);
   auto y = api::abi_load_bin(x.out, b);
   if (!y.ok) return w.fail("abi-export", o, "the exported ABI is refused: " + y.err + "; " + show(x.out, 400));
   if (model::parse_abi_bin(x.out, e) != model::ok || n.build(e) != model::ok) return w.fail("abi-export", o, "the exported ABI is none: " + show(x.out, 400));
   std::set<std::pair<const void*, const void*>> seen;
   for (auto& [name, t] : m.types) {
      if (name.find_first_of("?[$") != name.npos) continue;
      auto it = n.types.find(name);
      if (it == n.types.end() || !same_type(t, it->second, seen)) return w.fail("abi-export", o, "the exported ABI defines " + name + " in another way: " + show(x.out, 400));
   }
   return true;
}
void run_c03(const Plan& p, Run& r) {
   World w(r);
   for (auto& o : p.ops) {
      if (o.name == "torn") {
         uint64_t n = o.unum("sweep"), from = o.unum("from"), step = std::max<uint64_t>(1, o.unum("step"));
         for (uint64_t k = 0; k < n; ++k) {
            Op t   = o;
            t.name = "load";
            for (auto x : { "from", "step", "sweep", "reread" }) t.a.erase(x);
            uint64_t len = from + k * step;
            if (len >= o.str("data").size()) break;
            t.s("data", o.str("data").substr(0, len));
            r.add("fault.torn_abi");
            if (!w.exec(t)) return;
         }
         continue;
      }
      if (o.name == "codec") {
         auto x = api::abi_recode(o.str("data"));
         r.ev("codec " + std::to_string(fnv(x.out)) + x.err);
         if (x.ok) {
            model::AbiDef d;
            if (!exported(w, o)) return;
            if (model::parse_abi_bin(o.str("data"), d) == model::ok && x.out != o.str("data") && model::abi_to_bin(d) == o.str("data"))
               { w.fail("abi-codec", o, "binary ABI changed by decoding and encoding: " + show(x.out)); return; }
         }
         continue;
      }
      int n = int(o.num("all", 1));
      std::map<std::string, api::R> seen; // by definition loaded
      for (int c = 0; c < n; ++c) {
         Op t = o;
         t.a.erase("all");
         if (n > 1) t.i("c", c);
         if (!w.exec(t)) return;
         auto* x = w.get(c);
         if (n == 1 || !x) continue;
         auto it = x->con.find(o.unum("con"));
         if (it == x->con.end() || !it->second.abi) continue;
         // only definitions that the model reads as the same
         model::AbiDef d;
         auto&       k = it->second;
         std::string raw;
         if (k.fmt == "json") model::parse_abi_json(k.data, d);
         else { if (k.fmt == "hex") World::unhex(k.data, raw); else raw = k.data; model::parse_abi_bin(raw, d); }
         std::string key = model::abi_to_bin(d);
         auto        f   = seen.find(key);
         if (f == seen.end()) seen[key] = w.last;
         else {
            r.add("probe.formats_compared");
            if (!(f->second == w.last)) { w.fail("formats-differ", t, "loaded from " + k.fmt + ": " + World::show_r(w.last) + "; from another format: " + World::show_r(f->second)); return; }
         }
      }
      r.state("abi_states", w.state());
   }
   w.close();
}

// ------------------------------------------------------------------------------------------------ C04 error contract
Plan gen_c04(Rng& r, const Tier& tier) {
   Plan p;
   int  nctx = int(r.range(1, 2));
   uint64_t con = gen::some_account(r), missing = r.next();
   Book b = wgen::book(r);
   for (int c = 0; c < nctx; ++c) { p.ops.push_back(Op("new").i("c", c)); if (r.chance(85)) p.ops.push_back(wgen::load(r, c, con, b.def)); }
   int n = int(r.range(6, tier.thorough ? 60 : 35));
   unsigned good = unsigned(r.range(20, 60));
   for (int i = 0; i < n; ++i) {
      int c = int(r.below(nctx));
      Op  o;
      if (r.chance(good)) {
         switch (r.below(6)) {
            case 0: o = wgen::load(r, c, con, b.def); break;
            case 1: o = wgen::small(r, c); break;
            case 2: o = wgen::lookup(r, c, con, b); break;
            default: o = wgen::convert(r, c, con, b, 0);
         }
      } else switch (r.below(12)) {
         case 0: o = wgen::load(r, c, con, b.def, true); break;
         case 1: o = wgen::load(r, c, con, gen::damage_abi(r, b.def)); break;
         case 2: { Book nb = wgen::book(r); o = wgen::lookup(r, c, con, nb); break; }
         case 3: o = wgen::lookup(r, c, missing, b); break;
         case 4: o = wgen::convert(r, c, missing, b, 20); break;
         case 5: o = wgen::convert(r, c, con, b, 0); o.s("type", r.coin() ? "" : r.coin() ? "nope" : o.str("type") + "??"); break;
         case 6: o = wgen::convert(r, c, con, b, 0); wgen::null_something(r, o); break;
         case 7: o = wgen::load(r, c, con, b.def); wgen::null_something(r, o); break;
         case 8: o = Op("h2j").i("c", c).u("con", con).s("type", r.pick(b.types)).s("data", gen::damage_text(r, tohex(gen::raw_bytes(r, r.below(12))))); break;
         case 9: o = Op("load").i("c", c).u("con", con).s("fmt", r.coin() ? "bin" : r.coin() ? "hex" : "json").s("data", r.coin() ? "" : gen::raw_bytes(r, r.below(30))); break;
         case 10: { Op q = wgen::convert(r, c, con, b, 0); if (q.name == "b2j") q.s("data", q.str("data") + gen::raw_bytes(r, r.range(1, 3))); if (q.name == "h2j") q.s("data", q.str("data") + (r.coin() ? "00" : "0")); o = q; break; }
         default: o = wgen::convert(r, c, con, b, 100);
      }
      if (o.name != "s2n") o.i("tw", r.chance(85));
      p.ops.push_back(o);
      if (r.chance(30)) p.ops.push_back(Op("hex").i("c", c));
   }
   return p;
}
void run_c04(const Plan& p, Run& r) {
   World w(r);
   std::map<int, std::string> reported;
   for (auto& o : p.ops) {
      if (!w.exec(o)) return;
      int   id = int(o.num("c"));
      auto* c  = w.get(id);
      if (c) { // reading the error and the binary changes neither
         std::string e1 = api::error(c->c), h = api::bin_data(c->c), e2 = api::error(c->c);
         if (e1 != e2) { w.fail("error-unstable", o, show(e1) + " then " + show(e2)); return; }
         if (o.name != "new" && o.name != "del" && o.name != "s2n" && !w.last.ok && !w.last.err.empty() && e1 != w.last.err && id >= 0) { w.fail("error-unstable", o, "reported " + show(w.last.err) + ", later " + show(e1)); return; }
      }
      if (api::error(nullptr) != "context is null" || api::bin_size(nullptr) != 0 || !api::bin_data_null(nullptr)) { w.fail("null-context", o, "sentinels for a null context"); return; }
      if (!w.last.ok) r.state("error_texts", fnv(w.last.err));
   }
   w.close();
}
} // namespace
extern const Scenario sc_c01, sc_c02, sc_c03, sc_c04;
const Scenario sc_c01{ "C01", gen_c01, run_c01, nullptr };
const Scenario sc_c02{ "C02", gen_c02, run_c02, nullptr };
const Scenario sc_c03{ "C03", gen_c03, run_c03, nullptr };
const Scenario sc_c04{ "C04", gen_c04, run_c04, nullptr };
