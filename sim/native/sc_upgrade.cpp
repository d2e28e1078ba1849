// C10: contracts and programs which are upgraded while data of all versions is about.
#include "../net.hpp"
#include "../repl.hpp"
#include "../world.hpp"
#include "upgrade_api.hpp"

namespace {
using model::AbiDef;
using net::Peer;
std::string put_field(const std::string& s) { return Peer::num(s.size()) + s; }
std::string get_field(const std::string& s, size_t& p) { uint64_t n = Peer::num(s, p); auto r = s.substr(std::min(p, s.size()), n); p += n; return r; }

// ------------------------------------------------------------------------------------------ versions of one contract
bool mentions(const AbiDef& d, const std::string& n) {
   for (auto& t : d.types) if (model::Abi::strip(t.second) == n) return true;
   for (auto& s : d.structs) { if (s.base == n) return true; for (auto& f : s.fields) if (model::Abi::strip(f.second) == n) return true; }
   for (auto& v : d.variants) for (auto& t : v.types) if (model::Abi::strip(t) == n) return true;
   return false;
}
// the types whose data ends with a value of this one
std::set<std::string> at_the_end_of(const AbiDef& d, const std::string& n) {
   std::set<std::string> res;
   auto is = [&](const std::string& t) { return t == n || t == n + "?" || t == n + "$"; };
   for (auto& s : d.structs) if (s.fields.empty() ? s.base == n : is(s.fields.back().second)) res.insert(s.name);
   for (auto& v : d.variants) for (auto& t : v.types) if (is(t)) res.insert(v.name);
   for (auto& t : d.types) if (is(t.second)) res.insert(t.first);
   return res;
}
std::string plain_type(Rng& r, const AbiDef& d, const std::string& not_this) {
   for (int i = 0; i < 10; ++i) {
      auto k = r.below(4);
      std::string n;
      if (k == 0 && !d.structs.empty()) n = d.structs[r.below(d.structs.size())].name;
      if (k == 1 && !d.variants.empty()) n = d.variants[r.below(d.variants.size())].name;
      if (k == 2 && !d.types.empty()) n = d.types[r.below(d.types.size())].first;
      if (k == 3 || n.empty()) n = gen::builtin_names()[r.below(gen::builtin_names().size())];
      if (n != not_this) return n + (r.chance(15) ? "?" : r.chance(15) ? "[]" : "");
   }
   return "uint32";
}
template <typename T>
void mixed_up(Rng& r, std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
// what a contract may change without breaking those who know its new version
AbiDef next_version(Rng& r, const AbiDef& was, int ver, std::set<std::string>& grown) {
   AbiDef d = was;
   d.version = "eosio::abi/1.1";
   int n = int(r.range(1, 4));
   for (int i = 0; i < n; ++i) {
      std::string tag = std::to_string(ver) + std::to_string(i);
      switch (r.below(6)) {
         case 0: case 1: { // fields at the end of a struct which nothing else contains, or which is the end of something else
            std::vector<size_t>                roots;
            std::vector<std::set<std::string>> around;
            bool nested = r.coin();
            for (size_t k = 0; k < d.structs.size(); ++k) {
               auto ends = at_the_end_of(d, d.structs[k].name);
               if (nested ? !ends.empty() : !mentions(d, d.structs[k].name)) { roots.push_back(k); around.push_back(ends); }
            }
            if (roots.empty()) break;
            size_t which = r.below(roots.size());
            auto&  s = d.structs[roots[which]];
            for (int k = int(r.range(1, 3)); k > 0; --k) {
               auto type = plain_type(r, d, s.name);
               if (nested && type == model::Abi::strip(type)) type = gen::builtin_names()[r.below(gen::builtin_names().size())]; // which may contain this struct
               s.fields.push_back({ "n" + tag + char('a' + k), type + "$" });
            }
            grown.insert(s.name);
            grown.insert(around[which].begin(), around[which].end());
            break;
         }
         case 2: if (!d.variants.empty()) { auto& v = d.variants[r.below(d.variants.size())]; v.types.push_back(r.chance(50) ? plain_type(r, d, v.name) : gen::builtin_names()[r.below(gen::builtin_names().size())]); } break;
         case 3: {
            AbiDef::Struct s;
            s.name = "new" + tag;
            for (int k = int(r.range(1, 3)); k > 0; --k) s.fields.push_back({ std::string(1, char('a' + k)), plain_type(r, d, s.name) });
            d.structs.push_back(s);
            break;
         }
         case 4: d.types.push_back({ "al" + tag, plain_type(r, d, "") }); break;
         case 5: d.actions.push_back({ gen::some_account(r), d.structs.empty() ? "name" : d.structs[r.below(d.structs.size())].name }); break;
      }
   }
   if (r.chance(40)) { mixed_up(r, d.structs); mixed_up(r, d.types); mixed_up(r, d.variants); }
   return d;
}
// ------------------------------------------------------------------------------------------ the model of the native structs
struct Shop {
   AbiDef     d;
   model::Abi abi;
   void st(const char* n, const char* base, std::vector<std::pair<std::string, std::string>> f) { d.structs.push_back({ n, base, std::move(f) }); }
   Shop() {
      d.version = "eosio::abi/1.1";
      st("item0", "", { { "sku", "name" }, { "n", "uint32" } });
      st("item1", "", { { "sku", "name" }, { "n", "uint32" }, { "tax", "uint16" }, { "note", "string" } });
      st("item2", "", { { "note", "string" }, { "sku", "name" }, { "tax", "uint16" }, { "n", "uint32" } });
      st("order0", "", { { "id", "uint64" }, { "who", "string" }, { "items", "item0[]" }, { "gift", "item0?" } });
      st("order1", "", { { "id", "uint64" }, { "who", "string" }, { "items", "item1[]" }, { "gift", "item1?" }, { "memo", "bytes" }, { "via", "name" } });
      st("order2", "", { { "who", "string" }, { "id", "uint64" }, { "gift", "item2?" }, { "items", "item2[]" }, { "via", "name" }, { "memo", "bytes" } });
      st("order3", "", { { "id", "uint64" }, { "who", "string" }, { "items", "item1[]" }, { "gift", "item1?" }, { "memo", "bytes" }, { "via", "name" }, { "paid", "bool" }, { "why", "string?" }, { "back", "item1[]" } });
      d.variants.push_back({ "any_order", { "order0", "order1", "order2", "order3" } });
      st("parcel0", "", { { "number", "varuint32" }, { "content", "bytes" }, { "items", "item0[]" } });
      st("parcel1", "", { { "number", "uint32" }, { "content", "bytes" }, { "items", "item2[]" }, { "remark", "string" } });
      for (auto x : { "", "$" }) { // $: as in an ABI
         auto n = [&](int v) { return "account" + std::to_string(v) + (*x ? "" : "f"); };
         std::string e = x;
         st(n(0).c_str(), "", { { "id", "name" }, { "tags", "string[]" } });
         st(n(1).c_str(), n(0).c_str(), { { "age", "uint32" + e } });
         st(n(2).c_str(), n(1).c_str(), { { "nums", "uint64[]" + e } });
         st(n(3).c_str(), n(2).c_str(), { { "mail", "string?" + e }, { "level", "varuint32" + e } });
      }
      if (abi.build(d) != model::ok) abort();
   }
   const model::Type* type(const std::string& n) { return abi.find(n, 0); }
   static model::JV none(const model::Type* t) {
      using namespace model;
      switch (t->kind) {
         case Type::opt: return {};
         case Type::arr: { JV j; j.kind = JV::arr; return j; }
         case Type::st: { JV j; j.kind = JV::obj; for (auto& f : t->f) j.o.push_back({ f.name, none(f.t) }); return j; }
         default: break;
      }
      if (t->b == B::boolean) return gen::jbool(false);
      if (t->b == B::string || t->b == B::name || t->b == B::bytes) return gen::jstr("");
      return gen::jnum("0");
   }
   // the value with the fields of another type: those with the same name, or nothing
   static model::JV as(const model::Type* t, const model::JV& v) {
      using namespace model;
      if (t->kind == Type::opt) return v.kind == JV::null ? v : as(t->sub, v);
      if (t->kind == Type::ext) return as(t->sub, v);
      if (t->kind == Type::arr) { JV j; j.kind = JV::arr; for (auto& x : v.a) j.a.push_back(as(t->sub, x)); return j; }
      if (t->kind != Type::st) return v;
      JV j;
      j.kind = JV::obj;
      for (auto& f : t->f) {
         const JV* have = nullptr;
         for (auto& x : v.o) if (x.first == f.name) have = &x.second;
         j.o.push_back({ f.name, have ? as(f.t, *have) : none(f.t) });
      }
      return j;
   }
   static model::JV value(const model::Type* t, const std::string& bin) {
      auto      j = model::bin_to_json(t, bin, false);
      model::JV v;
      if (j.t == model::ok) model::parse_json(j.e.text(), v);
      return v;
   }
   static std::string encode(const model::Type* t, const model::JV& v) {
      std::string text;
      Rng         r(1);
      gen::write_json(text, v, r, gen::TextStyle{});
      return model::json_to_bin(t, text, false).bin;
   }
};
Shop& shop() { static Shop s; return s; }

Plan gen_c10(Rng& r, const Tier& tier) {
   Plan p;
   auto style          = gen::abi_style(r);
   style.unique_fields = true;
   std::vector<AbiDef>                      ver;
   std::vector<std::shared_ptr<model::Abi>> abi(1);
   ver.push_back(gen::good_abi(r, style, &abi[0]));
   std::set<std::string> grown;
   int                   k = int(r.range(1, tier.thorough ? 5 : 3));
   for (int i = 1; i <= k; ++i) {
      auto g = grown;
      auto d = next_version(r, ver.back(), i, g);
      auto a = std::make_shared<model::Abi>();
      if (a->build(d) != model::ok) continue;
      grown = g;
      ver.push_back(d);
      abi.push_back(a);
   }
   for (auto& d : ver) p.ops.push_back(Op("ver").s("data", model::abi_to_bin(d)));
   int      nv   = int(ver.size());
   int      n    = int(r.range(1, tier.thorough ? 4 : 3));
   uint64_t time = 1200 + r.below(1500);
   static const char* fm[] = { "json", "bin", "hex" };
   for (int i = 0; i < n; ++i) p.ops.push_back(Op("node").s("fmt", fm[r.below(3)]).i("cxx", r.coin()).i("hex", r.coin()).i("ord", r.coin()).u("every", r.range(1, 5)).u("window", r.range(1, 5)).u("oom", r.chance(30) ? r.range(1, 5) : 0).i("up", r.chance(75) ? i : int64_t(r.below(i + 1))));
   for (int i = 0; i < n; ++i)
      for (int v = 0, t = 0; v < nv || r.chance(20); ++v) { // mostly one after another, sometimes a step back
         t += int(r.below(time / nv + 1));
         if (r.chance(15)) continue;
         p.ops.push_back(Op("up").i("n", i + 1).u("t", t).i("v", v < nv ? r.chance(85) ? v : int64_t(r.below(nv)) : int64_t(r.below(nv))));
      }
   int m = int(r.range(4, tier.thorough ? 24 : 14));
   for (int i = 0; i < m; ++i) {
      gen::ValOpt vo;
      vo.text = r.chance(10) ? 300 : 24;
      model::JV   j;
      std::string bin;
      if (r.chance(55)) {
         int  v  = int(std::min<uint64_t>(nv - 1, r.chance(60) ? uint64_t(i) * nv / m : r.below(nv)));
         auto tn = gen::type_names(ver[v], r);
         std::string type = !grown.empty() && r.chance(45) ? *std::next(grown.begin(), r.below(grown.size())) : r.pick(tn);
         auto*       t    = abi[v]->find(type, 0);
         if (!t) continue;
         gen::value(r, t, j, bin, vo);
         if (bin.size() > 20000) continue;
         p.ops.push_back(Op("rec").i("v", v).s("type", type).s("data", bin).i("tail", r.chance(20)));
      } else {
         static const char* kinds[] = { "order", "any", "list", "stored", "parcel", "account", "account", "json" };
         std::string kind = kinds[r.below(8)];
         int         v    = int(r.below(4));
         std::string vs   = std::to_string(v), type = kind == "order" ? "order" + vs : kind == "any" ? "any_order" : kind == "list" ? "order" + vs + "[]" : kind == "stored" ? "order0[]" : kind == "parcel" ? "parcel0" : "account" + vs + "f";
         gen::value(r, shop().type(type), j, bin, vo);
         Op o("nat");
         o.s("kind", kind).i("v", v);
         if (kind == "json") {
            std::vector<std::pair<std::string, model::JV>> f;
            for (auto& x : j.o) if (!r.chance(15)) f.push_back(x);
            j.o = f;
            if (r.coin()) mixed_up(r, j.o);
            bin.clear();
            gen::write_json(bin, j, r, gen::style(r));
         } else if (r.chance(12)) bin.resize(r.below(bin.size() + 1));
         else if (r.chance(15)) bin += gen::raw_bytes(r, r.range(1, 20));
         p.ops.push_back(o.s("data", bin));
      }
   }
   net::faults(r, p, net::some_mix(r), 20 + 6 * m * n, n + 1, time, 1);
   return p;
}
struct W10 {
   Run&  run;
   World w;
   std::vector<AbiDef>                      ver;
   std::vector<std::shared_ptr<model::Abi>> abi;
   std::vector<std::set<std::string>>       grown; // structs which have more fields than in the version before, by version
   uint64_t                                 con = model::name_loose("tester");
   explicit W10(Run& r) : run(r), w(r) {}
   // is data of this type, written as version a, readable as version b?
   bool reads(const std::string& type, int a, int b) {
      return a <= b && aligned(type, a, b);
   }
   bool aligned(const std::string& type, int a, int b) { // what was added is at the end of the data
      std::set<std::string> g;
      for (int v = std::min(a, b) + 1; v <= std::max(a, b); ++v) g.insert(grown[v].begin(), grown[v].end());
      if (g.empty()) return true;
      std::set<std::pair<const model::Type*, bool>> seen;
      return at_the_end(abi[std::max(a, b)]->find(type, 0), ver[std::max(a, b)], g, true, seen);
   }
   static bool at_the_end(const model::Type* t, const AbiDef& d, const std::set<std::string>& g, bool end, std::set<std::pair<const model::Type*, bool>>& seen) {
      using model::Type;
      if (!t || !seen.insert({ t, end }).second) return true;
      if (t->kind == Type::opt || t->kind == Type::ext) return at_the_end(t->sub, d, g, end, seen);
      if (t->kind == Type::arr) return at_the_end(t->sub, d, g, false, seen);
      if (t->kind == Type::var) { for (auto& f : t->f) if (!at_the_end(f.t, d, g, end, seen)) return false; return true; }
      if (t->kind != Type::st) return true;
      size_t after = 0;
      for (std::string n = t->name; !n.empty();) {
         if (g.count(n) && (after || !end)) return false;
         std::string base;
         for (auto& s : d.structs) if (s.name == n) { after += s.fields.size(); base = s.base; }
         n = base;
      }
      for (size_t i = 0; i < t->f.size(); ++i) if (!at_the_end(t->f[i].t, d, g, end && i + 1 == t->f.size(), seen)) return false;
      return true;
   }
};
struct Shop10 : Peer {
   W10*        w = nullptr;
   std::string fmt = "bin";
   bool        cxx = false, hex = false, ord = false;
   uint64_t    oom = 0, calls = 0;
   int         cur = 0, natv = 0;
   std::vector<std::pair<uint64_t, int>> ups;

   bool bad(const std::string& cls, const std::string& msg) { net->run.fail(cls, "node " + std::to_string(id) + ": " + msg); return false; }
   int planned() {
      int v = 0;
      for (auto& [t, k] : ups) if (t <= net->now) v = k;
      if (net->now > net->quiet_at) v = int(w->ver.size()) - 1;
      return std::min(v, int(w->ver.size()) - 1);
   }
   bool load(int v) {
      cur  = v;
      natv = int((v + 1) * 4 / (w->ver.size() + 1)) % 4;
      auto        bin = model::abi_to_bin(w->ver[v]);
      std::string data = fmt == "json" ? model::abi_to_json(w->ver[v]) : fmt == "hex" ? tohex(bin) : bin;
      if (!w->w.exec(Op("load").i("c", id).u("con", w->con).s("fmt", fmt).s("data", data))) return false;
      if (!w->w.last.ok) return bad("refused-valid:load", "version " + std::to_string(v) + " is refused: " + w->w.last.err);
      return w->w.exec(Op("xload").i("c", id).s("fmt", fmt == "json" ? "json" : "bin").s("data", fmt == "json" ? data : bin));
   }
   void start() override {
      if (up_id >= 0) {
         if (!w->w.exec(Op("new").i("c", id))) return;
         if (!load(planned())) return;
      }
      Peer::start();
   }
   void forget() override { w->w.exec(Op("del").i("c", id)); w->w.exec(Op("xdel").i("c", id)); }
   void timer(int what) override {
      if (up_id >= 0 && planned() != cur) {
         net->run.add(planned() > cur ? "fault.upgrade" : "fault.downgrade");
         if (!load(planned())) return;
         for (uint64_t i = 0; i < log.size(); ++i) if (!read(log[i])) return; // what was stored before
      }
      Peer::timer(what);
   }
   bool call(const Op& o) {
      if (oom && ++calls % (oom + 1) == 0) {
         Op f = o;
         f.u("fa", mix(calls, id) % 50).u("fr", calls % 3 ? 1 : 1000000);
         if (!w->w.exec(f)) return false;
         if (!w->w.last_fired || w->w.last.ok) return true;
      }
      return w->w.exec(o);
   }
   bool process(uint64_t, const std::string& in, std::string& o) override { o = in; return read(in); }
   bool read(const std::string& in) {
      size_t p = 1;
      int    v = int(Peer::num(in, p));
      std::string type = get_field(in, p), data = get_field(in, p), json = get_field(in, p);
      return in[0] == 'D' ? dynamic(v, type, data, json) : native(type, v, data);
   }
   bool dynamic(int v, const std::string& type, const std::string& data, const std::string& json) {
      bool sure = w->reads(type, v, cur);
      Op   b(cxx ? "xb2j" : hex ? "h2j" : "b2j");
      b.i("c", id).u("con", w->con).s("type", type).s("data", !cxx && hex ? tohex(data) : data);
      if (!call(b)) return false;
      auto l = w->w.last;
      std::string what = "data " + show(data, 200) + " of " + show(type) + " in version " + std::to_string(v) + " and read in version " + std::to_string(cur);
      if (sure && (!l.ok || l.out != json)) return bad("unreadable-after-upgrade:" + b.name, what + " was " + show(json, 300) + " and is " + World::show_r(l));
      if (sure) net->run.add(v < cur ? "probe.old_data_read" : "probe.same_version_read");
      if (!w->aligned(type, v, cur)) return true;
      if (!sure) {
         net->run.add(l.ok ? "probe.new_data_read_in_part" : "probe.new_data_refused");
         if (l.ok && !cxx && l.out != json) return bad("misread-before-upgrade:" + b.name, what + " was " + show(json, 300) + " and is read completely as " + show(l.out, 300));
      }
      if (!l.ok) return true;
      // and back
      Op j(cxx ? "xj2b" : "j2b");
      j.i("c", id).u("con", w->con).s("type", type).s("data", l.out).i("ord", ord);
      if (!call(j)) return false;
      auto k = w->w.last;
      if (!k.ok) return bad("unwritable-after-upgrade:" + j.name, what + " gives " + show(l.out, 300) + ", which is refused: " + k.err);
      if (sure ? k.out != data : data.compare(0, k.out.size(), k.out) != 0) return bad("rewritten-by-upgrade:" + j.name, what + " is written back as " + show(k.out, 200));
      // documents of the writer's version
      if (sure && v < cur) {
         Op d(cxx ? "xj2b" : "j2b");
         d.i("c", id).u("con", w->con).s("type", type).s("data", json).i("ord", !ord);
         if (!call(d)) return false;
         if (w->w.last.out != data) return bad("document-after-upgrade:" + d.name, "the document " + show(json, 300) + " gives " + World::show_r(w->w.last) + ", not the bytes of version " + std::to_string(v) + " " + show(data, 200));
      }
      return true;
   }
   // the same once more with memory failing somewhere on the way
   template <typename F>
   api::R with_oom(F f) {
      if (oom && ++calls % (oom + 1) == 0) {
         rt::arm(mix(calls, id) % 30, 1);
         auto r = f();
         net->run.add("fault.allocation_failure", rt::ts.fired);
         bool hit = rt::ts.fired;
         rt::disarm();
         if (!hit) return r;
      }
      return f();
   }
   bool native(const std::string& kind, int v, const std::string& data) {
      auto&       s    = shop();
      std::string vs   = std::to_string(v);
      bool        good = false;
      std::string want, what = kind + " of version " + vs + " " + show(data, 200) + " taken as version " + std::to_string(natv);
      size_t      taken = ~size_t(0), got_taken = ~size_t(0);
      api::R      g;
      auto        target = [&](const std::string& t) { return s.type(t); };
      auto        source = [&](const std::string& t) {
         auto m = model::recode(s.type(t), data);
         good   = m.t == model::ok;
         taken  = m.consumed;
         return good ? Shop::value(s.type(t), data) : model::JV{};
      };
      net->run.ev("nat " + kind);
      if (kind == "order") {
         auto j = source("order" + vs);
         for (int back = 0; back < 2 && good; ++back) want = Shop::encode(target("order" + std::to_string(natv)), Shop::as(target("order" + std::to_string(natv)), j));
         g = with_oom([&] { return upgr::convert(v, natv, ord, data); });
         taken = ~size_t(0);
         if (good && g.ok && g.out == want && natv >= v) { // and back again: nothing is lost
            auto b = with_oom([&] { return upgr::convert(natv, v, !ord, g.out); });
            auto c = model::recode(s.type("order" + vs), data);
            if (!b.ok || b.out != c.bin) return bad("native-version:back", what + " and back is " + World::show_r(b) + ", expected " + show(c.bin));
            net->run.add("probe.native_back");
         }
      } else if (kind == "any") {
         auto m = model::recode(s.type("any_order"), data);
         good   = m.t == model::ok;
         taken  = m.consumed;
         if (good) {
            auto j = Shop::value(s.type("any_order"), data); // [ "order1", {...} ]
            auto t = target("order" + std::to_string(natv));
            if (j.a.size() == 2) want = Shop::encode(t, Shop::as(t, j.a[1]));
         }
         g = with_oom([&] { return upgr::convert_any(natv, data, got_taken); });
      } else if (kind == "list") {
         int to = std::max(v, natv);
         auto j = source("order" + vs + "[]");
         auto t = target("order" + std::to_string(to) + "[]");
         if (good) want = Shop::encode(t, Shop::as(t, j));
         g = with_oom([&] { return upgr::convert_list(v, to, data, got_taken); });
      } else if (kind == "stored") {
         auto j = source("order0[]");
         auto t = target("order1[]");
         if (good) want = Shop::encode(t, Shop::as(t, j));
         g = with_oom([&] { return upgr::stored_as(data, got_taken); });
      } else if (kind == "parcel") {
         auto j = source("parcel0");
         auto t = target("parcel1");
         if (good) want = Shop::encode(t, Shop::as(t, j));
         g = with_oom([&] { return upgr::parcel(data, got_taken); });
      } else if (kind == "account") {
         auto*  t = target("account" + std::to_string(natv) + "f");
         size_t p = 0;
         good     = true;
         for (size_t f = 0; f < t->f.size() && good; ++f) {
            if (f >= 2 && p >= data.size()) { want += Shop::encode(t->f[f].t, Shop::none(t->f[f].t)); continue; }
            auto m = model::recode(t->f[f].t, std::string_view(data).substr(p));
            good   = m.t == model::ok;
            want += m.bin;
            p += m.consumed;
         }
         taken = p;
         g = with_oom([&] { return upgr::account(natv, data, got_taken); });
         if (good && !g.ok) return bad("native-version:account", what + " is refused: " + g.err);
      } else if (kind == "json") {
         auto*     t = target("account" + std::to_string(natv) + "f");
         model::JV j;
         if (model::parse_json(data, j) != model::ok) return true;
         good = true;
         want = Shop::encode(t, Shop::as(t, j));
         g    = with_oom([&] { return upgr::account_json(natv, data); });
      } else return true;
      net->run.ev(std::string(g.ok ? "ok " : "err ") + std::to_string(fnv(g.out)) + g.err);
      if (!g.ok && g.err.empty()) return bad("native-version:" + kind, what + ": refused without a reason");
      if (g.ok != good) return bad("native-version:" + kind, what + ": " + World::show_r(g) + ", expected " + (good ? show(want) : "a refusal"));
      net->run.add(good ? "probe.native_versions" : "fault.rejected_data");
      if (!good) return true;
      if (g.out != want) return bad("native-version:" + kind, what + " is " + show(g.out, 300) + ", expected " + show(want, 300));
      if (taken != ~size_t(0) && got_taken != taken) return bad("native-version:" + kind, what + " took " + std::to_string(got_taken) + " bytes, expected " + std::to_string(taken));
      if (kind == "account") { // the same with an ABI made of the native type
         auto& x = w->w.slots[1000 + natv];
         if (!x.a) {
            std::string called;
            auto        m = upgr::account_abi(natv, x.a, called);
            x.abi         = std::shared_ptr<model::Abi>(&s.abi, [](model::Abi*) {});
            if (!m.ok || called != "account" + std::to_string(natv)) return bad("native-version:abi", "an abi made of account" + std::to_string(natv) + ": " + called + m.err);
         }
         std::string cut = data.substr(0, taken);
         if (!w->w.exec(Op("xb2j").i("c", 1000 + natv).s("type", "account" + std::to_string(natv)).s("data", cut))) return false;
         if (!w->w.last.ok) return bad("native-version:abi", what + " is refused by the abi made of the type: " + w->w.last.err);
         auto text = w->w.last.out;
         if (!w->w.exec(Op("xj2b").i("c", 1000 + natv).s("type", "account" + std::to_string(natv)).s("data", text).i("ord", ord))) return false;
         // what the native reader makes of the document is what it makes of its bytes
         size_t n = 0;
         auto   x2 = upgr::account(natv, w->w.last.out, n);
         auto y = with_oom([&] { return upgr::account_json(natv, text); });
         if (!y.ok || y.out != x2.out) return bad("native-version:json", what + ": the document " + show(text, 300) + " is " + World::show_r(y) + ", its bytes are " + World::show_r(x2));
         net->run.add("probe.native_abi");
      }
      return true;
   }
};
void run_c10(const Plan& p, Run& r) {
   W10      w(r);
   net::Net net(r);
   Shop10   src;
   src.net = &net; src.id = 0; src.w = &w;
   net.nodes.push_back(&src);
   std::vector<std::unique_ptr<Shop10>> nodes;
   note_phase("upgrades");
   for (auto& o : p.ops) {
      if (o.name == "ver") {
         AbiDef d;
         auto   a = std::make_shared<model::Abi>();
         if (model::parse_abi_bin(o.str("data"), d) != model::ok || a->build(d) != model::ok) continue;
         std::set<std::string> g;
         if (!w.ver.empty())
            for (auto& s : d.structs) for (auto& q : w.ver.back().structs) if (s.name == q.name && s.fields.size() > q.fields.size()) g.insert(s.name);
         w.ver.push_back(d); w.abi.push_back(a); w.grown.push_back(g);
      } else if (o.name == "node" && nodes.size() < 6) {
         nodes.push_back(std::make_unique<Shop10>());
         auto& c = *nodes.back();
         c.net = &net; c.id = int(nodes.size()); c.w = &w;
         c.up_id = int(std::min<uint64_t>(o.unum("up"), nodes.size() - 1));
         c.fmt = o.str("fmt"); c.cxx = o.num("cxx"); c.hex = o.num("hex"); c.ord = o.num("ord"); c.oom = o.unum("oom");
         c.every = unsigned(std::max<uint64_t>(1, o.unum("every"))); c.window = unsigned(std::max<uint64_t>(1, o.unum("window")));
         net.nodes.push_back(&c);
      }
   }
   if (nodes.empty() || w.ver.empty()) return;
   for (auto& c : nodes) (c->up_id ? nodes[c->up_id - 1].get() : &src)->down.push_back(c->id);
   for (size_t v = 0; v < w.ver.size(); ++v) // the writers
      if (!w.w.exec(Op("xload").i("c", 2000 + int(v)).s("fmt", "bin").s("data", model::abi_to_bin(w.ver[v])))) return;
   for (auto& o : p.ops) {
      if (o.name == "up") {
         if (o.unum("n") >= 1 && o.unum("n") <= nodes.size()) { auto& u = nodes[o.unum("n") - 1]->ups; u.push_back({ o.unum("t"), int(std::min<uint64_t>(o.unum("v"), w.ver.size() - 1)) }); std::stable_sort(u.begin(), u.end(), [](auto& a, auto& b) { return a.first < b.first; }); net.quiet_at = std::max(net.quiet_at, o.unum("t")); }
      } else if (o.name == "rec") {
         int v = int(o.num("v"));
         if (v < 0 || size_t(v) >= w.ver.size()) continue;
         auto* t = w.abi[v]->find(o.str("type"), 0);
         if (!t) continue;
         auto m = model::recode(t, o.str("data"));
         if (m.t != model::ok || m.heavy) continue;
         auto j = model::bin_to_json(t, o.str("data"));
         if (j.zero_width || j.t != model::ok) continue;
         if (!w.w.exec(Op("xb2j").i("c", 2000 + v).s("type", o.str("type")).s("data", o.str("data")))) return;
         if (!w.w.last.ok) { r.fail("refused-valid:xb2j", "the writer's own data is refused"); return; }
         std::string json = w.w.last.out;
         if (!w.w.exec(Op("xj2b").i("c", 2000 + v).s("type", o.str("type")).s("data", json))) return;
         if (!w.w.last.ok || w.w.last.out != o.str("data")) continue; // not canonical
         src.out.push_back("D" + Peer::num(v) + put_field(o.str("type")) + put_field(o.str("data")) + put_field(json));
      } else if (o.name == "nat") src.out.push_back("N" + Peer::num(o.unum("v") & 3) + put_field(o.str("kind")) + put_field(o.str("data")) + put_field(""));
      else net.take(o);
   }
   if (src.out.empty()) return;
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& c : nodes) if (!c->up || c->log.size() != src.out.size() || c->cur != int(w.ver.size()) - 1) return false;
      return true;
   };
   bool fin = net.go(net.quiet_at + 20000 + 2000 * src.out.size() * nodes.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:upgrade", "records or versions have not arrived everywhere " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (auto& c : nodes) for (auto& l : c->log) if (!c->read(l)) return; // all of them read all there is
   for (auto& c : nodes) r.state("logs", mix(c->cur, fnv(c->log.back())));
   net.finish();
   w.w.close();
}
} // namespace
extern const Scenario sc_c10;
const Scenario sc_c10{ "C10", gen_c10, run_c10, nullptr };
