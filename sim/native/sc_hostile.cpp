// C13, C14: a gateway which converts what anybody sends to it, on a machine with little memory, stack and time.
#include "../net.hpp"
#include "../repl.hpp"
#include "lab.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using model::AbiDef;
using net::Peer;
std::string put_field(const std::string& s) { return Peer::num(s.size()) + s; }
std::string get_field(const std::string& s, size_t& p) { uint64_t n = Peer::num(s, p); auto r = s.substr(std::min(p, s.size()), n); p += n; return r; }

// ------------------------------------------------------------------------------------------ what one may be sent
std::string repeated(const Op& o) {
   std::string s = o.str("pre");
   auto        u = o.str("unit");
   for (uint64_t i = 0; i < o.unum("rep") && s.size() < 400000; ++i) s += u;
   s += o.str("post");
   for (uint64_t i = 0; i < o.unum("close") && s.size() < 400000; ++i) s += o.str("end");
   return s + o.str("data");
}
// structs which contain themselves through an array, an optional or a variant, and values of them as deep as you like
struct Cycle {
   AbiDef           def;
   std::vector<int> links;
   std::vector<bool> x;
   Cycle(Rng& r) {
      def.version = "eosio::abi/1.1";
      int n = int(r.range(1, 3));
      for (int i = 0; i < n; ++i) { links.push_back(int(r.below(4))); x.push_back(r.coin()); }
      for (int i = 0; i < n; ++i) {
         auto            next = "c" + std::to_string((i + 1) % n);
         AbiDef::Struct  s;
         s.name = "c" + std::to_string(i);
         if (x[i]) s.fields.push_back({ "x", "uint8" });
         if (links[i] == 2) { def.variants.push_back({ "v" + std::to_string(i), { "uint8", next } }); next = "v" + std::to_string(i); }
         else if (links[i] == 3) { def.types.push_back({ "t" + std::to_string(i), next + "[]" }); next = "t" + std::to_string(i); }
         else next += links[i] == 0 ? "?" : "[]";
         s.fields.push_back({ "n", next });
         def.structs.push_back(s);
      }
   }
   void value(Rng& r, Op& o, bool json, uint64_t depth) {
      std::string open, end;
      size_t      n = links.size();
      auto head = [&](size_t i) { return json ? std::string(x[i] ? "{\"x\":1,\"n\":" : "{\"n\":") : std::string(x[i] ? 1 : 0, '\1'); };
      for (size_t i = 0; i < n; ++i) {
         open += head(i);
         if (!json) open += '\1';
         else if (links[i] == 2) { open += "[\"c" + std::to_string((i + 1) % n) + "\","; end = "]}" + end; }
         else if (links[i]) { open += "["; end = "]}" + end; }
         else end = "}" + end;
      }
      auto mid = head(0) + (!json ? std::string(links[0] == 2 ? 2 : 1, '\0') : std::string(links[0] == 2 ? "[\"uint8\",0]" : links[0] ? "[]" : "null") + "}");
      uint64_t rep = std::max<uint64_t>(1, depth / (n * 2));
      o.s("unit", open).u("rep", rep).s("post", mid);
      if (json) o.s("end", end).u("close", r.chance(90) ? rep : r.below(rep + 3));
   }
};
void deep_json(Rng& r, Op& o) {
   static const char* units[] = { "[", "{\"a\":", "[[", "[{\"x\":[", "[1,", "{\"a0\":{", "[\"s0\",", "{\"\":[null," };
   static const char* firsts[] = { "", "[", "{\"zz\":", "{\"a\":1,\"a\":" };
   o.s("pre", firsts[r.below(4)]).s("unit", units[r.below(8)]).u("rep", r.chance(50) ? r.range(20, 300) : r.range(300, 30000));
}
void long_json(Rng& r, Op& o) {
   switch (r.below(9)) {
      case 0: o.s("pre", "\"").s("unit", r.coin() ? "\\u0041" : "abcdefgh").u("rep", r.range(100, 1500)).s("post", "\""); break;
      case 1: o.s("pre", r.coin() ? "" : "-").s("unit", r.coin() ? "9" : "0").u("rep", r.range(30, 20000)).s("post", r.coin() ? "" : ".5e10"); break;
      case 2: o.s("pre", "[").s("unit", r.coin() ? "[]," : "{},").u("rep", r.range(100, 20000)).s("post", "[]]"); break;
      case 3: o.s("pre", "{").s("unit", r.coin() ? "\"a\":1," : "\"b0\":{\"x\":[]},").u("rep", r.range(100, 10000)).s("post", "\"b\":2}"); break;
      case 4: o.s("pre", "\"PUB_K1_").s("unit", "11111111").u("rep", r.range(10, 400)).s("post", "\""); break;
      case 5: o.s("pre", "\"").s("unit", "00ff").u("rep", r.range(100, 10000)).s("post", "\""); break;
      case 6: o.s("pre", "1e").s("unit", "9").u("rep", r.range(3, 1000)); break;
      case 7: o.s("unit", r.coin() ? " " : "\n\t").u("rep", r.range(100, 30000)).s("post", "[]"); break;
      case 8: o.s("pre", "[").s("unit", "\"\",").u("rep", r.range(100, 20000)).s("post", "\"\"]"); break;
   }
}
void long_bin(Rng& r, Op& o) {
   switch (r.below(4)) {
      case 0: o.s("pre", std::string(1, char(r.range(0, 3)))).s("unit", std::string("\1", 1)).u("rep", r.range(20, 20000)); break; // one inside of another
      case 1: { std::string c; model::put_varuint(c, r.range(100, 20000)); o.s("pre", c).s("unit", std::string(1, char(r.below(3)))).u("rep", r.range(100, 30000)); break; }
      case 2: { std::string c; model::put_varuint(c, r.next() >> r.range(20, 60)); o.s("pre", c).s("unit", gen::raw_bytes(r, r.range(1, 9))).u("rep", r.range(1, 3000)); break; }
      case 3: o.s("unit", std::string(1, char(r.coin() ? 0xff : 0x80))).u("rep", r.range(1, 20000)); break;
   }
}
std::string odd_type(Rng& r, const std::string& base) {
   static const char* suf[] = { "?", "[]", "$", "?[]", "[]?", "$$", "[" , "]" };
   std::string s = base, u = suf[r.below(8)];
   for (uint64_t i = 0, n = r.chance(70) ? r.range(1, 60) : r.range(60, 6000); i < n; ++i) s += u;
   return s;
}
// definitions which take more to understand than they look like
AbiDef hard_abi(Rng& r) {
   AbiDef d;
   d.version = "eosio::abi/1.1";
   int n = int(r.chance(60) ? r.range(2, 40) : r.range(40, 400));
   auto nm = [](const char* p, int i) { return p + std::to_string(i); };
   switch (r.below(9)) {
      case 0: for (int i = 0; i < n; ++i) d.types.push_back({ nm("t", i), nm("t", (i + 1) % n) + (r.chance(20) ? "[]" : r.chance(10) ? "?" : "") }); break; // in a circle
      case 1: for (int i = 0; i < n; ++i) d.types.push_back({ nm("t", i), i + 1 < n ? nm("t", i + 1) : "uint8" }); break;
      case 2: for (int i = 0; i < n; ++i) d.structs.push_back({ nm("s", i), nm("s", (i + 1) % n), { { "a", "uint8" } } }); break; // circular bases
      case 3: for (int i = 0; i < n; ++i) d.structs.push_back({ nm("s", i), i + 1 < n ? nm("s", i + 1) : "", { { nm("a", i), "uint8" } } }); break;
      case 4: for (int i = 0; i < n; ++i) d.structs.push_back({ nm("s", i), "", { { "a", i + 1 < n ? nm("s", i + 1) : "uint8" }, { "b", "uint8" } } }); break; // one inside of another
      case 5: { // many heirs of a large struct
         AbiDef::Struct b;
         b.name = "s";
         for (int i = 0; i < n; ++i) b.fields.push_back({ nm("f", i), "uint8" });
         d.structs.push_back(b);
         for (int i = 0; i < n; ++i) d.structs.push_back({ nm("h", i), "s", { { "x", "uint8" } } });
         break;
      }
      case 6: { AbiDef::Variant v; v.name = "v"; for (int i = 0; i < n; ++i) v.types.push_back(i % 3 ? gen::builtin_names()[r.below(gen::builtin_names().size())] : "v[]"); d.variants.push_back(v); break; }
      case 7: for (int i = 0; i < n; ++i) d.variants.push_back({ nm("v", i), { nm("v", (i + 1) % n), "uint8" } }); break; // variants in a circle: never a value
      case 8: d.types.push_back({ odd_type(r, "t"), "uint8" }); d.types.push_back({ "x", odd_type(r, "uint8") }); d.structs.push_back({ "s", odd_type(r, "s"), {} }); break;
   }
   if (r.coin()) { auto sh = [&](auto& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }; sh(d.types); sh(d.structs); sh(d.variants); }
   if (d.structs.empty() || r.chance(30)) d.structs.push_back({ "root", "", { { "r", "uint32" }, { "q", d.variants.empty() ? "root[]" : d.variants[0].name } } });
   return d;
}
Plan gen_hostile(Rng& r, const Tier& tier, bool defs) {
   Plan p;
   int  clients = int(r.range(1, 3));
   std::vector<uint64_t>                    cons;
   std::vector<std::shared_ptr<model::Abi>> abis;
   std::vector<std::vector<std::string>>    types;
   std::vector<AbiDef>                      ds;
   p.ops.push_back(Op("gateway").u("queue", r.range(4, 40)).i("cxx", r.chance(40)).u("oom", r.chance(25) ? r.range(2, 6) : 0).i("clients", clients));
   for (int i = 0, k = int(r.range(1, 2)); i < k; ++i) {
      auto o = gen::abi_style(r);
      o.zero_width = o.weird_names = false;
      o.unique_fields = r.coin();
      std::shared_ptr<model::Abi> a;
      auto d = gen::good_abi(r, o, &a);
      static const char* nm[] = { "alice", "bob" };
      cons.push_back(model::name_loose(nm[i]));
      abis.push_back(a);
      ds.push_back(d);
      types.push_back(gen::type_names(d, r));
      p.ops.push_back(Op("abi").u("con", cons[i]).s("data", model::abi_to_bin(d)));
   }
   Cycle cy(r);
   p.ops.push_back(Op("abi").u("con", model::name_loose("cycle")).s("data", model::abi_to_bin(cy.def)));
   int m = int(r.range(5, tier.thorough ? 60 : 26));
   for (int i = 0; i < m; ++i) {
      size_t c    = r.below(cons.size());
      auto   type = r.pick(types[c]);
      auto*  t    = abis[c]->find(type, 0);
      Op     o("req");
      o.u("cl", r.range(1, clients)).u("con", r.chance(3) ? 77 : cons[c]).i("ord", r.chance(40));
      auto what = r.below(100);
      if (r.chance(defs ? 10 : 5)) { // deep values
         static const char* kd[] = { "b2j", "j2b", "h2j", "j2b" };
         for (int k = int(r.range(1, 3)); k; --k) {
            Op  u("req");
            int what = int(r.below(3));
            u.u("cl", o.unum("cl")).u("con", model::name_loose("cycle")).i("ord", r.coin()).s("type", "c0").s("kind", kd[what]);
            cy.value(r, u, what == 1, r.chance(70) ? r.range(20, 400) : r.range(400, 20000));
            if (what == 2) u.s("unit", tohex(u.str("unit"))).s("post", tohex(u.str("post")));
            p.ops.push_back(u);
         }
         continue;
      }
      if (what < (defs ? 30 : 6)) { // definitions
         static const char* fm[] = { "json", "bin", "hex" };
         auto        f = r.below(3);
         AbiDef      d = r.chance(defs ? 75 : 30) ? hard_abi(r) : r.coin() ? gen::damage_abi(r, ds[c]) : ds[c];
         std::string data = f == 0 ? model::abi_to_json(d) : model::abi_to_bin(d);
         if (r.chance(25)) data = f == 0 ? (r.chance(25) ? gen::half_character(r, data) : gen::damage_text(r, data)) : gen::damage(r, data);
         if (f == 0 && r.chance(12)) { // one that goes on and on
            Op x("x");
            if (r.coin()) deep_json(r, x); else long_json(r, x);
            o.s("pre", "{\"version\":\"eosio::abi/1.1\",\"zz\":" + x.str("pre")).s("unit", x.str("unit")).u("rep", x.unum("rep")).s("post", x.str("post") + (r.coin() ? "}" : ""));
            data.clear();
         }
         if (f == 1 && r.chance(15)) { o.s("pre", std::string("\x0e" "eosio::abi/1.1", 15)); long_bin(r, o); o.s("pre", std::string("\x0e" "eosio::abi/1.1", 15) + o.str("pre")); data.clear(); }
         if (f == 2) data = tohex(data);
         o.s("kind", "load").s("fmt", fm[f]).s("data", data).u("con", 99);
         p.ops.push_back(o);
         // and it is used
         if (r.coin()) {
            Op u("req");
            std::string root = !d.structs.empty() ? d.structs[r.below(d.structs.size())].name : d.variants.empty() ? "t0" : d.variants[0].name;
            u.u("cl", o.unum("cl")).u("con", 99).i("ord", r.coin()).s("type", r.chance(10) ? odd_type(r, root) : root);
            bool b = r.coin();
            u.s("kind", b ? "b2j" : "j2b");
            if (b) long_bin(r, u); else if (r.coin()) deep_json(r, u); else long_json(r, u);
            p.ops.push_back(u);
         }
         continue;
      }
      if (what < (defs ? 40 : 10)) { o.s("kind", r.coin() ? "b2j" : "j2b").s("type", odd_type(r, type)).s("data", r.coin() ? "{}" : "1"); p.ops.push_back(o); continue; }
      if (!t) continue;
      gen::ValOpt vo;
      vo.text = r.chance(15) ? 4000 : 24;
      vo.array = r.chance(20) ? 30 : 4;
      vo.longs = 6;
      model::JV   j;
      std::string bin, text;
      gen::value(r, t, j, bin, vo);
      o.s("type", type);
      if (what >= (defs ? 92 : 70)) { // native types
         auto& e = nat::some_entry(r);
         auto  b = nat::some_value(r, e, nullptr, 8000);
         o.s("kind", "nat").s("type", e.name);
         if (r.chance(20)) long_bin(r, o);
         else o.s("data", r.chance(20) ? b : r.chance(70) ? gen::damage_marks(r, nat::type(e), b) : gen::damage(r, b));
      } else if (r.coin()) {
         o.s("kind", r.chance(20) ? "h2j" : r.chance(30) ? "xb2j" : "b2j");
         auto k = r.below(10);
         if (o.str("kind") == "h2j") { if (k < 5) bin = gen::damage_marks(r, t, bin); o.s("data", tohex(bin)); }
         else if (k < 2) o.s("data", bin);
         else if (k < 6) o.s("data", gen::damage_marks(r, t, bin));
         else if (k < 7) o.s("data", gen::damage(r, bin));
         else long_bin(r, o);
      } else {
         o.s("kind", r.chance(30) ? "xj2b" : "j2b");
         auto k = r.below(10);
         gen::write_json(text, j, r, gen::style(r));
         if (k < 3) o.s("data", text);
         else if (k < 4) o.s("data", r.chance(12) ? gen::half_character(r, text) : gen::damage_text(r, text));
         else if (k < 7) long_json(r, o);
         else deep_json(r, o);
      }
      p.ops.push_back(o);
   }
   auto mx = net::some_mix(r);
   mx.disks = 0;
   if (r.chance(50)) mx.flip = unsigned(r.below(15));
   if (r.chance(30)) mx.cut = unsigned(r.below(10));
   net::faults(r, p, mx, 20 + 4 * m, clients + 1, 1500);
   return p;
}
// ------------------------------------------------------------------------------------------ how much is reasonable
struct Limits {
   uint64_t mem = 0, work = 0, stack = 0;
};
uint64_t inherited(const std::string& fmt, const std::string& data) { // fields of all structs, with those of their bases
   AbiDef      d;
   std::string raw;
   auto        t = fmt == "json" ? model::parse_abi_json(data, d) : fmt == "hex" ? (World::unhex(data, raw), model::parse_abi_bin(raw, d)) : model::parse_abi_bin(data, d);
   (void)t;
   std::map<std::string, const AbiDef::Struct*> by;
   for (auto& s : d.structs) by[s.name] = &s;
   uint64_t n = 0;
   for (auto& s : d.structs) {
      const AbiDef::Struct* x = &s;
      for (int i = 0; x && i < 34; ++i) { n += x->fields.size(); auto b = by.find(x->base); x = b == by.end() ? nullptr : b->second; }
   }
   return n;
}
Limits limits(const std::string& kind, const std::string& fmt, const std::string& data, const std::string& type, bool keys) {
   uint64_t n = data.size() + type.size(), longest = 0, len = 0;
   Limits   l;
   l.stack = 96 << 10;
   l.mem   = (256 << 10) + 256 * n;
   l.work  = 150000 + 1200 * n;
   if (kind == "load") {
      uint64_t k = inherited(fmt, data);
      l.mem += 256 * k;
      l.work += 850000 + 1000 * k;
   } else if (kind == "j2b" || kind == "xj2b") { // numbers of many digits take digits * digits
      for (char c : data) { len = isalnum((unsigned char)c) ? len + 1 : 0; longest = std::max(longest, len); }
      l.work += longest * longest / 2;
   }
   if (keys) l.work += n * n; // base 58 as well
   return l;
}
struct WH {
   Run&  run;
   World w;
   bool  mem = true, work = true;
   int   serial = 0;
   std::vector<std::pair<uint64_t, std::string>> abis;
   std::vector<Op> reqs;
   explicit WH(Run& r) : run(r), w(r) {}
   uint64_t cost = 0;
   bool bad(const std::string& cls, const Op& o, const std::string& data, const std::string& msg) {
      run.fail(cls + ":" + o.str("kind"), o.str("kind") + " of " + show(o.str("type"), 60) + " with " + std::to_string(data.size()) + " bytes " + show(data, 160) + ": " + msg);
      return false;
   }
   bool has_keys(uint64_t con, const std::string& type) {
      const model::Type* root = nullptr;
      for (auto& [c, x] : w.ctx) { auto k = x.con.find(con); if (!root && k != x.con.end() && k->second.abi) w.find_type(k->second, type, root); }
      std::set<const model::Type*> seen;
      std::function<bool(const model::Type*)> walk = [&](const model::Type* t) {
         if (!t || !seen.insert(t).second) return false;
         if (t->kind == model::Type::builtin && (t->b == model::B::public_key || t->b == model::B::signature || t->b == model::B::private_key)) return true;
         if (walk(t->sub)) return true;
         for (auto& f : t->f) if (walk(f.t)) return true;
         return false;
      };
      return walk(root);
   }
   // one request; with limits on what it may take
   bool exec(const Op& o, int ctx, std::string& reply, bool measured = true) {
      std::string kind = o.str("kind"), data = repeated(o), type = o.str("type");
      Limits      l = limits(kind, o.str("fmt"), data, type, kind != "nat" && kind != "load" && has_keys(o.unum("con"), type));
      uint64_t    live = rt::live_bytes, ticks = rt::ts.ticks;
      rt::mem_reset();
      if (mem) rt::budget = live + l.mem;
      char here;
      rt::ts.stack_min = uintptr_t(&here);
      reply.clear();
      bool good = true;
      if (kind == "nat") {
         auto* e = nat::find(type);
         if (!e) return true;
         auto m = model::recode(nat::type(*e), data);
         if (m.heavy || m.steps > 1000 + 8 * data.size()) { rt::budget = ~0ull; run.add("probe.heavy_skipped"); return true; }
         api::R      g;
         size_t      consumed = 0;
         bool        faulty = o.has("fa");
         note_phase("nat " + type);
         if (faulty) rt::arm(o.unum("fa"), 1);
         auto obj = e->decode(data, g, consumed);
         if (faulty) { run.add("fault.allocation_failure", rt::ts.fired); rt::disarm(); }
         run.ev("nat " + std::to_string(g.ok) + g.err);
         reply = g.ok ? "+" : "-" + g.err;
         if (!g.ok) run.add("fault.rejected_data");
         if (!faulty && m.t == model::ok && !g.ok) { if (!rt::over_budget) good = bad("refused-valid", o, data, g.err); }
         if (m.t == model::bad && g.ok) good = bad("accepted-invalid", o, data, "decoded");
      } else {
         Op x(kind);
         x.i("c", ctx).u("con", o.unum("con")).s("type", type).s("data", data).i("ord", o.num("ord")).s("fmt", o.str("fmt"));
         if (o.has("fa")) x.s("fa", o.str("fa")).s("fr", "1");
         if (kind == "xb2j" || kind == "xj2b") x.i("c", int(o.unum("con") % 1000));
         bool before = run.failed;
         good = w.exec(x);
         if (!good && !before && rt::over_budget) { run.failed = false; good = true; } // it was refused memory: that is reported below
         reply = w.last.ok ? "+" + std::to_string(fnv(w.last.out)) : "-" + w.last.err;
      }
      uint64_t peak = rt::peak_bytes - std::min(live, rt::peak_bytes), work = rt::ts.ticks - ticks, stack = uintptr_t(&here) - rt::ts.stack_min;
      rt::budget = ~0ull;
      cost = work;
      if (!good || !measured) return good;
      if (mem && (rt::over_budget || peak > l.mem)) return bad("memory", o, data, "needs " + std::string(rt::over_budget ? "more than " : "") + std::to_string(rt::over_budget ? l.mem : peak) + " bytes of memory, a reasonable amount is " + std::to_string(l.mem) + (rt::max_request > l.mem ? "; asked for " + std::to_string(rt::max_request) + " at once" : ""));
      if (this->work && work > l.work) return bad("work", o, data, "takes " + std::to_string(work) + " steps, a reasonable number is " + std::to_string(l.work));
      if (this->work && stack > l.stack) return bad("stack", o, data, "uses " + std::to_string(stack) + " bytes of stack, a reasonable amount is " + std::to_string(l.stack));
      run.state(mem && !this->work ? "memory_used" : "work_done", mix(fnv(kind), mem && !this->work ? peak / 64 : work / 64));
      return true;
   }
   bool boot(int ctx) {
      if (!w.exec(Op("new").i("c", ctx))) return false;
      for (auto& [con, data] : abis) {
         if (!w.exec(Op("load").i("c", ctx).u("con", con).s("fmt", "bin").s("data", data))) return false;
         if (!w.exec(Op("xload").i("c", int(con % 1000)).s("fmt", "bin").s("data", data))) return false;
      }
      return true;
   }
   void shutdown(int ctx) {
      w.exec(Op("del").i("c", ctx));
      for (auto& [con, _] : abis) w.exec(Op("xdel").i("c", int(con % 1000)));
   }
};
struct Gateway : net::Node {
   WH*      w = nullptr;
   uint64_t queue = 16, oom = 0, calls = 0, busy = 0;
   std::deque<std::pair<int, std::string>> q;
   void start() override { if (!w->boot(id)) return; busy = 0; net->at(id, 5, 1); }
   void stop() override { q.clear(); w->shutdown(id); }
   void message(int from, const std::string& f) override {
      if (q.size() >= queue) { net->run.add("probe.queue_full"); return; }
      q.push_back({ from, f });
   }
   void timer(int) override {
      uint64_t wait = 5;
      if (!q.empty()) {
         auto [from, f] = q.front();
         q.pop_front();
         std::string s, reply;
         Op          o("req");
         if (net::unsealed(f, s)) {
            size_t   p = 0;
            uint64_t k = Peer::num(s, p);
            if (k < w->reqs.size()) {
               o = w->reqs[k];
               if (oom && ++calls % (oom + 1) == 0) { // memory is short
                  Op x = o;
                  x.u("fa", mix(calls, k) % 40);
                  if (!w->exec(x, id, reply)) return;
                  wait += w->cost / 50000;
               }
               if (!w->exec(o, id, reply)) return;
               if (net->run.failed) return;
               net->send(id, from, net::sealed(Peer::num(k) + reply));
            }
         } else { // damaged on the way: taken for data
            net->run.add("probe.damaged_request");
            auto& like = w->reqs[fnv(f) % w->reqs.size()];
            bool  nat  = nat::find(like.str("type"));
            o.s("kind", nat ? "nat" : fnv(f) & 1 ? "j2b" : "b2j").u("con", like.unum("con")).s("type", like.str("type")).s("data", f).i("ord", like.num("ord"));
            if (!w->exec(o, id, reply)) return;
         }
         wait += w->cost / 50000; // 50 million steps per second
         net->run.add("probe.served");
      }
      net->at(id, wait, 1);
   }
};
struct Client : net::Node {
   WH*                             w = nullptr;
   std::vector<uint64_t>           mine;
   size_t                          pos = 0; // kept on its disk, as far as the gateway is concerned
   std::map<uint64_t, std::string> got;
   void start() override { net->at(id, 10, 1); }
   void stop() override {}
   void send() { if (pos < mine.size()) { auto& o = w->reqs[mine[pos]]; net->send(id, 0, net::sealed(Peer::num(mine[pos]) + put_field(repeated(o).substr(0, 3000)))); } }
   void timer(int) override { send(); net->at(id, 150, 1); }
   void message(int, const std::string& f) override {
      std::string s;
      if (!net::unsealed(f, s)) { net->run.add("probe.bad_frame"); return; }
      size_t   p = 0;
      uint64_t k = Peer::num(s, p);
      std::string a = s.substr(p);
      auto it = got.find(k);
      if (it == got.end()) got[k] = a;
      else if (it->second != a && w->reqs[k].unum("con") != 99) { net->run.fail("unstable-answer", "request " + std::to_string(k) + " was answered " + show(it->second) + " and then " + show(a)); return; }
      if (pos < mine.size() && mine[pos] == k) { ++pos; send(); }
   }
};
void run_hostile(const Plan& p, Run& r, bool mem, bool work) {
   WH       w(r);
   w.mem = mem; w.work = work;
   net::Net net(r);
   Gateway  g;
   g.net = &net; g.id = 0; g.w = &w;
   net.nodes.push_back(&g);
   std::vector<std::unique_ptr<Client>> cl;
   note_phase("gateway");
   for (auto& o : p.ops) {
      if (o.name == "gateway") {
         g.queue = std::max<uint64_t>(2, o.unum("queue")); g.oom = o.unum("oom");
         for (uint64_t i = 0; i < std::min<uint64_t>(4, o.unum("clients")); ++i) { cl.push_back(std::make_unique<Client>()); cl.back()->net = &net; cl.back()->id = int(cl.size()); cl.back()->w = &w; net.nodes.push_back(cl.back().get()); }
      } else if (o.name == "abi") w.abis.push_back({ o.unum("con"), o.str("data") });
      else if (o.name == "req") { if (!cl.empty()) { cl[(std::max<uint64_t>(1, o.unum("cl")) - 1) % cl.size()]->mine.push_back(w.reqs.size()); w.reqs.push_back(o); } }
   }
   if (cl.empty() || w.reqs.empty()) return;
   for (auto& o : p.ops) net.take(o);
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& c : cl) if (!c->up || c->pos < c->mine.size()) return false;
      return g.up;
   };
   bool fin = net.go(net.quiet_at + 20000 + 3000 * w.reqs.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:gateway", "requests are not answered " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   net.finish();
   if (!mem) { w.w.close(); return; }
   // doing all of it over and over takes no more memory than doing it once
   rt::disarm();
   if (!w.boot(50)) return;
   uint64_t after[4];
   for (int k = 0; k < 4; ++k) {
      for (auto& o : w.reqs) {
         if (repeated(o).size() > 30000) continue;
         std::string reply;
         if (!w.exec(o, 50, reply, false)) return;
         Op u("req"); // names which have not been seen before
         u.s("kind", "b2j").u("con", w.abis.empty() ? 1 : w.abis[0].first).s("type", "nosuch" + std::to_string(10000 + ++w.serial)).s("data", "x");
         if (!w.exec(u, 50, reply, false)) return;
         Op n("n2s");
         n.i("c", 50).u("n", mix(w.serial, 1));
         if (!w.w.exec(n)) return;
         Op t("tab");
         t.i("c", 50).u("con", u.unum("con")).u("n", mix(w.serial, 2) & ~0xfull);
         if (!w.w.exec(t)) return;
         if (!w.w.exec(Op("act").i("c", 50).u("con", mix(w.serial, 3) & ~0xfull).u("n", 5))) return;
      }
      after[k] = rt::live_bytes;
   }
   r.ev("live " + std::to_string(after[3]));
   if (after[3] > after[1] + 512 && after[3] > after[2] + 256) { r.fail("memory-grows", "memory in use after doing the same " + std::to_string(w.reqs.size()) + " requests 1, 2, 3 and 4 times: " + std::to_string(after[0]) + ", " + std::to_string(after[1]) + ", " + std::to_string(after[2]) + ", " + std::to_string(after[3])); return; }
   w.shutdown(50);
   w.w.close();
   r.add("probe.repeated_requests", w.reqs.size() * 4);
}
Plan gen_c13(Rng& r, const Tier& t) { return gen_hostile(r, t, false); }
Plan gen_c14(Rng& r, const Tier& t) { return gen_hostile(r, t, true); }
void run_c13(const Plan& p, Run& r) { run_hostile(p, r, true, false); }
void run_c14(const Plan& p, Run& r) { run_hostile(p, r, false, true); }
// ------------------------------------------------------------------------------------------ known findings
void amplified(Run& r, const char* key, const AbiDef& d, const char* type, const std::string& data) {
   auto c = api::create();
   if (api::set_abi_bin(c, 5, model::abi_to_bin(d)).ok) {
      rt::mem_reset();
      uint64_t live = rt::live_bytes;
      api::bin_to_json(c, 5, type, data);
      r.ev((rt::peak_bytes - live > limits("b2j", "", data, type, false).mem ? "STILL " : "GONE ") + std::string(key));
   }
   api::destroy(c);
}
void known_c13(Run& r) {
   AbiDef d;
   d.version = "eosio::abi/1.1";
   d.structs.push_back({ "s0", "", {} });
   std::string count;
   model::put_varuint(count, 1000000);
   amplified(r, "array-of-empty-values", d, "s0[]", count);
   for (int i = 1; i <= 20; ++i) { auto t = "s" + std::to_string(i - 1); d.structs.push_back({ "s" + std::to_string(i), "", { { "a", t }, { "b", t } } }); }
   amplified(r, "nested-empty-structs", d, "s20", "");
}
void known_c14(Run& r) {
   // failed_dtrx_trace inside of failed_dtrx_trace ...: id, status, cpu, net, elapsed, usage, scheduled, no actions, no ram delta, nothing thrown, no code
   std::string level(1, '\0'), data;
   level += std::string(32, '\1') + std::string(1, '\0') + std::string(4, '\0') + std::string(1, '\0') + std::string(16, '\0') + std::string(1, '\0') + std::string(1, '\0') + std::string(3, '\0') + '\1';
   for (int i = 0; i < 100000; ++i) data += level;
   int pid = fork();
   if (!pid) {
      int null = open("/dev/null", O_WRONLY);
      dup2(null, 1); dup2(null, 2);
      struct rlimit nocore{ 0, 0 };
      setrlimit(RLIMIT_CORE, &nocore);
      api::R g;
      size_t n = 0;
      auto*  e = nat::find("ship.transaction_trace");
      rt::ts.tick_limit = ~0ull;
      if (e) e->decode(data, g, n);
      _exit(g.err.find("end") != std::string::npos ? 99 : 0); // 99: read all of it, level by level
   }
   int st = 0;
   waitpid(pid, &st, 0);
   r.ev((WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "GONE " : "STILL ") + std::string("nested-transaction-traces"));
}
} // namespace
extern const Scenario sc_c13, sc_c14;
const Scenario sc_c13{ "C13", gen_c13, run_c13, known_c13 };
const Scenario sc_c14{ "C14", gen_c14, run_c14, known_c14 };
