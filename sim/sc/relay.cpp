// C08, C09: values handed on between programs which each convert them with a context of their own.
#include "../net.hpp"
#include "../repl.hpp"
#include "../world.hpp"

namespace {
std::string put_field(const std::string& s) { return net::Peer::num(s.size()) + s; }
std::string get_field(const std::string& s, size_t& p) { uint64_t n = net::Peer::num(s, p); auto r = s.substr(std::min(p, s.size()), n); p += n; return r; }
// ------------------------------------------------------------------------------------------ C08 round trips
// Record 0.. of the source: ABIs (A) and values in binary (B) or JSON (J). Every relay turns B into J and J into B.
Plan gen_c08(Rng& r, const Tier& tier) {
   Plan p;
   int  n = int(r.range(1, tier.thorough ? 5 : 4));
   static const char* fm[] = { "json", "bin", "hex" };
   for (int i = 0; i < n; ++i) {
      Op o("node");
      o.i("up", i == 0 || r.chance(75) ? i : int64_t(r.below(i + 1))).s("fmt", fm[r.below(3)]).i("ord", r.coin()).i("hex", r.coin()).i("cxx", r.chance(30));
      o.i("spell", r.chance(40)).u("every", r.range(1, 5)).u("window", r.range(1, 5)).u("noise", r.chance(40) ? r.range(1, 4) : 0).u("oom", r.chance(35) ? r.range(1, 5) : 0);
      p.ops.push_back(o);
   }
   std::vector<uint64_t> cons;
   for (int i = 0, k = int(r.range(1, 2)); i < k; ++i) cons.push_back(gen::some_account(r));
   std::map<uint64_t, Book> books;
   int m = int(r.range(3, tier.thorough ? 24 : 12));
   for (int i = 0; i < m; ++i) {
      uint64_t con = r.pick(cons);
      if (!books.count(con) || r.chance(12)) {
         books[con] = wgen::book(r, true);
         p.ops.push_back(Op("abi").u("con", con).s("data", model::abi_to_bin(books[con].def)));
      }
      auto&              b    = books[con];
      std::string        type = r.pick(b.types);
      const model::Type* t    = b.abi->find(type, 0);
      if (!t) continue;
      gen::ValOpt vo;
      vo.depth = r.chance(10) ? 20 : 4;
      vo.array = r.chance(10) ? 20 : 4;
      vo.text  = r.chance(10) ? 1500 : 24;
      vo.wide  = true;
      model::JV   j;
      std::string bin, text;
      gen::value(r, t, j, bin, vo);
      if (bin.size() > 60000) continue;
      Op o("rec");
      o.u("con", con).s("type", type).s("data", bin);
      if (r.chance(40)) { if (r.coin()) gen::shuffle_keys(r, j, true); gen::write_json(text, j, r, gen::style(r)); o.s("json", text); }
      p.ops.push_back(o);
   }
   auto mx = net::some_mix(r);
   if (r.chance(25)) mx.flip = unsigned(r.below(10));
   if (r.chance(15)) mx.cut = unsigned(r.below(8));
   net::faults(r, p, mx, 30 + 8 * m * n, n + 1, 1500 + 100 * m);
   return p;
}
struct Truth { char kind; uint64_t con; std::string type, bin, json; bool have_json = false; };
struct W8 {
   Run&               run;
   World              w;
   std::vector<Truth> truth;
   std::vector<uint64_t> cons;
   explicit W8(Run& r) : run(r), w(r) {}
   int slot(int node, uint64_t con) { for (size_t i = 0; i < cons.size(); ++i) if (cons[i] == con) return node * 100 + int(i); cons.push_back(con); return node * 100 + int(cons.size()) - 1; }
};
struct Relay8 : net::Peer {
   W8*         w = nullptr;
   std::string fmt = "bin";
   bool        ord = false, hex = false, cxx = false, spell = false;
   uint64_t    noise = 0, oom = 0, calls = 0;
   void start() override {
      if (up_id >= 0) { if (!w->w.exec(Op("new").i("c", id))) return; }
      net::Peer::start();
   }
   void forget() override {
      w->w.exec(Op("del").i("c", id));
      std::vector<int> gone;
      for (auto& [s, _] : w->w.slots) if (s / 100 == id) gone.push_back(s);
      for (int s : gone) w->w.exec(Op("xdel").i("c", s));
   }
   bool call(Op o) { // with memory short now and then; then again
      if (oom && ++calls % (oom + 1) == 0) {
         Op f = o;
         f.u("fa", mix(calls, id) % 60).u("fr", calls % 3 ? 1 : 1000000);
         if (!w->w.exec(f)) return false;
         if (!w->w.last_fired || w->w.last.ok) return true;
         net->run.add("probe.retried");
      }
      return w->w.exec(o);
   }
   bool process(uint64_t i, const std::string& in, std::string& o) override {
      size_t p = 1;
      auto   bad = [&](const std::string& cls, const std::string& msg) { net->run.fail(cls, "record " + std::to_string(i) + " at node " + std::to_string(id) + ": " + msg); return false; };
      if (in.empty() || i >= w->truth.size()) return bad("harness", "no such record");
      auto& t = w->truth[i];
      if (in[0] == 'A') {
         uint64_t    con = net::Peer::num(in, p);
         std::string d   = get_field(in, p), data = d;
         o               = in;
         if (cxx) {
            if (!call(Op("xload").i("c", w->slot(id, con)).s("fmt", "bin").s("data", d))) return false;
         }
         if (fmt == "hex") data = tohex(d, i & 1);
         if (fmt == "json") { model::AbiDef def; if (model::parse_abi_bin(d, def) == model::ok) data = model::abi_to_json(def); }
         if (!call(Op("load").i("c", id).u("con", con).s("fmt", fmt).s("data", data))) return false;
         if (!w->w.last.ok) return bad("refused-valid:load", "a valid abi is refused: " + w->w.last.err);
         return true;
      }
      uint64_t    con  = net::Peer::num(in, p);
      std::string type = get_field(in, p), data = get_field(in, p);
      if (noise && i % noise == 0) { // other calls which have nothing to do with it
         if (!w->w.exec(Op("b2j").i("c", id).u("con", con).s("type", type).s("data", data.substr(0, data.size() / 2)))) return false;
         if (!w->w.exec(Op("j2b").i("c", id).u("con", con).s("type", "nosuch").s("data", "{"))) return false;
      }
      bool tojson = in[0] == 'B';
      Op   c;
      if (cxx) c = Op(tojson ? "xb2j" : "xj2b").i("c", w->slot(id, con)).s("data", data);
      else if (!tojson) c = Op("j2b").i("c", id).s("data", data);
      else if (hex) c = Op("h2j").i("c", id).s("data", tohex(data, i & 1));
      else c = Op("b2j").i("c", id).s("data", data);
      c.u("con", con).s("type", type).i("ord", ord || up_id == 0);
      if (!call(c)) return false;
      auto& l = w->w.last;
      if (!l.ok) return bad("lost-value:" + c.name, "refused " + show(data, 300) + " as " + show(type) + ": " + show(l.err));
      std::string out = l.out;
      if (tojson) {
         if (!t.have_json) { t.have_json = true; t.json = out; }
         else if (t.json != out) return bad("unstable-text:" + c.name, show(type) + " was " + show(t.json, 300) + " and is now " + show(out, 300));
         if (spell) { Rng r(mix(i, id)); out = wgen::spell(r, out); }
         net->run.add("probe.to_json");
      } else {
         if (out != t.bin) return bad("round-trip:" + c.name, show(type) + " was " + show(t.bin, 300) + " and is now " + show(out, 300) + ", made from " + show(data, 300));
         net->run.add("probe.to_binary");
      }
      o = std::string(tojson ? "J" : "B") + net::Peer::num(con) + put_field(type) + put_field(out);
      return true;
   }
};
void run_c08(const Plan& p, Run& r) {
   W8       w(r);
   net::Net net(r);
   Relay8   src;
   src.net = &net; src.id = 0; src.w = &w;
   net.nodes.push_back(&src);
   std::vector<std::unique_ptr<Relay8>> rel;
   note_phase("relays");
   for (auto& o : p.ops) {
      if (o.name != "node" || rel.size() > 6) continue;
      rel.push_back(std::make_unique<Relay8>());
      auto& c = *rel.back();
      c.net = &net; c.id = int(rel.size()); c.w = &w;
      c.up_id = int(std::min<uint64_t>(o.unum("up"), rel.size() - 1));
      c.fmt = o.str("fmt"); c.ord = o.num("ord"); c.hex = o.num("hex"); c.cxx = o.num("cxx"); c.spell = o.num("spell");
      c.every = unsigned(std::max<uint64_t>(1, o.unum("every"))); c.window = unsigned(std::max<uint64_t>(1, o.unum("window"))); c.noise = o.unum("noise"); c.oom = o.unum("oom");
      net.nodes.push_back(&c);
   }
   for (auto& c : rel) (c->up_id ? rel[c->up_id - 1].get() : &src)->down.push_back(c->id);
   // what the source has: only what a receiver can be expected to take
   std::map<uint64_t, std::shared_ptr<model::Abi>> abis;
   for (auto& o : p.ops) {
      if (o.name == "abi") {
         model::AbiDef d;
         auto          a = std::make_shared<model::Abi>();
         if (model::parse_abi_bin(o.str("data"), d) != model::ok || a->build(d) != model::ok) continue;
         abis[o.unum("con")] = a;
         w.truth.push_back({ 'A', o.unum("con"), "", o.str("data"), "" });
         src.out.push_back("A" + net::Peer::num(o.unum("con")) + put_field(o.str("data")));
      } else if (o.name == "rec") {
         auto it = abis.find(o.unum("con"));
         if (it == abis.end()) continue;
         auto* t = it->second->find(o.str("type"), 0);
         if (!t) continue;
         auto m = model::recode(t, o.str("data"));
         if (m.t != model::ok || m.bin != o.str("data") || m.heavy) continue;
         auto j = model::bin_to_json(t, o.str("data"));
         if (j.zero_width || j.t == model::bad) continue;
         std::string head = net::Peer::num(o.unum("con")) + put_field(o.str("type"));
         if (o.has("json")) {
            auto k = model::json_to_bin(t, o.str("json"), true);
            if (k.t != model::ok) continue;
            w.truth.push_back({ 'J', o.unum("con"), o.str("type"), k.bin, "" });
            src.out.push_back("J" + head + put_field(o.str("json")));
         } else {
            w.truth.push_back({ 'B', o.unum("con"), o.str("type"), o.str("data"), "" });
            src.out.push_back("B" + head + put_field(o.str("data")));
         }
      } else net.take(o);
   }
   if (rel.empty() || src.out.empty()) return;
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& c : rel) if (!c->up || c->log.size() != src.out.size()) return false;
      return true;
   };
   bool fin = net.go(net.quiet_at + 20000 + 2000 * src.out.size() * rel.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:relay", "records have not arrived everywhere " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (auto& c : rel) r.state("records", mix(c->id, fnv(c->out.back())));
   net.finish();
   w.w.close();
}

// ------------------------------------------------------------------------------------------ C09 fields in any order
// Documents travel as single fields, out of order, some twice, some with an older value first, some unknown to the type.
struct Up { uint64_t doc, ver; std::string path, text, canon; };
void flatten(Rng& r, const model::JV& j, const std::string& path, uint64_t doc, std::vector<Op>& out, bool root) {
   using namespace model;
   std::set<std::string> names;
   bool                  uniq = true;
   for (auto& f : j.o) uniq &= names.insert(f.first).second;
   if (j.kind == JV::obj && uniq && !j.o.empty() && (root || r.chance(65))) {
      if (!root && r.chance(30)) { // all of it at once, before; nothing of that may fill what is missing later
         std::string all;
         gen::write_json(all, j, r, gen::TextStyle{});
         out.push_back(Op("upd").u("doc", doc).u("ver", 0).s("path", path).s("text", all));
      }
      for (auto& f : j.o) flatten(r, f.second, path + "\x1f" + f.first, doc, out, false);
      if (r.chance(20)) {
         std::string nm = "zz_unknown" + std::to_string(r.below(3));
         out.push_back(Op("upd").u("doc", doc).u("ver", 1).s("path", path + "\x1f" + nm).s("text", r.coin() ? "{\"a\":[1,null,{}]}" : r.coin() ? "null" : "\"x\""));
      }
      return;
   }
   std::string canon, text;
   JV          k = j;
   gen::write_json(canon, j, r, gen::TextStyle{});
   if (r.chance(40)) gen::shuffle_keys(r, k, true);
   gen::write_json(text, k, r, gen::style(r));
   if (r.chance(20)) {
      static const char* old[] = { "null", "0", "\"x\"", "[]", "{}", "true", "[[1]]", "\"\"", "{\"q\":{\"q\":[]}}" };
      out.push_back(Op("upd").u("doc", doc).u("ver", 0).s("path", path).s("text", r.chance(30) ? canon : old[r.below(9)]));
   }
   if (j.kind == JV::obj && uniq && !j.o.empty() && r.chance(6)) { // the last value lacks what an earlier one had
      k = j;
      for (JV* x = &k;;) {
         auto i = x->o.begin() + r.below(x->o.size());
         if (i->second.kind == JV::obj && !i->second.o.empty() && r.coin()) { x = &i->second; continue; }
         x->o.erase(i);
         break;
      }
      text.clear();
      gen::write_json(text, k, r, gen::style(r));
      out.push_back(Op("upd").u("doc", doc).u("ver", 0).s("path", path).s("text", canon));
      canon.clear();
   }
   out.push_back(Op("upd").u("doc", doc).u("ver", 1).s("path", path).s("text", text).s("canon", canon));
}
Plan gen_c09(Rng& r, const Tier& tier) {
   Plan p;
   Book b;
   for (;;) { b = wgen::book(r, true); if (b.def.structs.size() > 1) break; }
   int n = int(r.range(1, 2));
   static const char* fm[] = { "json", "bin", "hex" };
   for (int i = 0; i < n; ++i) p.ops.push_back(Op("node").s("fmt", fm[r.below(3)]).i("cxx", r.chance(40)).u("every", r.range(1, 6)).u("probe", r.range(1, 3)).u("oom", r.chance(25) ? r.range(2, 6) : 0));
   p.ops.push_back(Op("abi").u("con", gen::some_account(r)).s("data", model::abi_to_bin(b.def)));
   std::vector<Op> ups;
   int docs = int(r.range(1, tier.thorough ? 5 : 3));
   for (int d = 0; d < docs; ++d) {
      auto&              s = b.def.structs[r.below(b.def.structs.size())];
      const model::Type* t = b.abi->find(s.name, 0);
      if (!t) continue;
      std::string type = s.name + (r.chance(10) ? "?" : r.chance(5) ? "$" : "");
      gen::ValOpt vo;
      model::JV   j;
      std::string bin;
      gen::value(r, t, j, bin, vo);
      if (bin.size() > 8000) continue;
      p.ops.push_back(Op("doc").u("doc", d).s("type", type));
      flatten(r, j, "", d, ups, true);
   }
   for (size_t i = ups.size(); i > 1; --i) if (r.chance(70)) std::swap(ups[i - 1], ups[r.below(i)]);
   for (auto& u : ups) p.ops.push_back(u);
   auto mx = net::some_mix(r);
   mx.late = unsigned(r.below(60));
   net::faults(r, p, mx, 20 + 4 * ups.size() * n, n + 1, 1200);
   return p;
}
struct W9 {
   Run&            run;
   World           w;
   std::vector<Up> ups;
   std::map<uint64_t, std::string> types;
   uint64_t        con = 0;
   std::string     abi;
   std::shared_ptr<model::Abi> mod;
   explicit W9(Run& r) : run(r), w(r) {}
};
struct Tree { // a document under construction, in order of arrival; or in order of the type
   std::vector<std::pair<std::string, Tree>> kids;
   std::string text, canon;
   bool leaf = false;
};
struct Receiver9 : net::Node {
   W9*                   w = nullptr;
   std::string           fmt = "bin";
   bool                  cxx = false;
   uint64_t              every = 3, probe = 1, oom = 0, calls = 0;
   std::vector<uint64_t> log; // updates as they arrived
   uint64_t              saved = 0, snaps = 0;
   std::vector<std::string> unsynced;
   void start() override {
      if (!w->w.exec(Op("new").i("c", id))) return;
      std::string data = w->abi;
      if (fmt == "hex") data = tohex(data);
      if (fmt == "json") { model::AbiDef d; if (model::parse_abi_bin(w->abi, d) == model::ok) data = model::abi_to_json(d); }
      if (!w->w.exec(Op("load").i("c", id).u("con", w->con).s("fmt", fmt).s("data", data))) return;
      if (cxx && !w->w.exec(Op("xload").i("c", id).s("fmt", fmt == "json" ? "json" : "bin").s("data", fmt == "json" ? data : w->abi))) return;
      for (auto f : { "a", "b" }) {
         auto*       d = net->read(id, f);
         std::string s;
         if (!d) continue;
         if (!net::unsealed(*d, s)) { net->run.add("probe.bad_snapshot"); continue; }
         size_t                p = 0;
         std::vector<uint64_t> v;
         uint64_t              n = net::Peer::num(s, p);
         for (uint64_t i = 0; i < n; ++i) v.push_back(net::Peer::num(s, p));
         if (v.size() > log.size()) { log = v; net->run.add("probe.recovered_from_disk"); }
      }
      saved = log.size();
      net->at(id, 20, 1);
   }
   void stop() override { log.clear(); unsynced.clear(); saved = 0; w->w.exec(Op("del").i("c", id)); w->w.exec(Op("xdel").i("c", id)); }
   static bool within(const std::string& p, const std::string& q) { return p == q || (p.size() > q.size() && p[q.size()] == '\x1f' && !p.compare(0, q.size(), q)); }
   bool has(uint64_t u) const { return std::find(log.begin(), log.end(), u) != log.end(); }
   void timer(int) override {
      for (auto& f : unsynced) net->sync(id, f);
      unsynced.clear();
      if (log.size() >= saved + every) {
         std::string s = net::Peer::num(log.size()), f = (snaps++ & 1) ? "a" : "b";
         for (auto u : log) s += net::Peer::num(u);
         if (net->write(id, f, net::sealed(s))) { unsynced.push_back(f); saved = log.size(); }
      }
      std::string m; // what is missing
      for (size_t u = 0; u < w->ups.size(); ++u) if (!has(u)) m += net::Peer::num(u);
      if (!m.empty()) net->send(id, 0, net::sealed(m));
      net->at(id, 120, 1);
   }
   void message(int, const std::string& f) override {
      std::string s;
      if (!net::unsealed(f, s)) { net->run.add("probe.bad_frame"); return; }
      size_t   p = 0;
      uint64_t u = net::Peer::num(s, p);
      if (u >= w->ups.size()) return;
      auto& x = w->ups[u];
      for (auto k : log) if (w->ups[k].doc == x.doc && within(w->ups[k].path, x.path) && (w->ups[k].ver > x.ver || w->ups[k].path != x.path)) { log.insert(log.begin(), u); net->run.add("probe.stale_update"); return; } // older than what is there: it goes before it
      if (has(u)) net->run.add("probe.field_twice");
      log.push_back(u);
      if (log.size() > 4 * w->ups.size() + 20) return;
      if (log.size() % probe == 0) convert(x.doc);
   }
   void put(Tree& t, const Up& x) {
      Tree*  n = &t;
      size_t p = 0;
      while (p < x.path.size()) {
         size_t e = x.path.find('\x1f', p + 1);
         if (e == x.path.npos) e = x.path.size();
         std::string nm = x.path.substr(p + 1, e - p - 1);
         p = e;
         if (p == x.path.size()) { n->kids.push_back({ nm, {} }); n = &n->kids.back().second; n->leaf = true; n->text = x.text; n->canon = x.canon; return; }
         Tree* k = nullptr;
         for (auto& c : n->kids) if (c.first == nm) k = c.second.leaf ? nullptr : &c.second;
         if (!k) { n->kids.push_back({ nm, {} }); k = &n->kids.back().second; }
         n = k;
      }
      n->leaf = true; n->text = x.text; n->canon = x.canon;
   }
   static void arrived(const Tree& t, std::string& o) {
      if (t.leaf) { o += t.text; return; }
      o += '{';
      bool first = true;
      for (auto& k : t.kids) { if (!first) o += ','; first = false; o += model::json_quote(k.first) + ":"; arrived(k.second, o); }
      o += '}';
   }
   static bool ordered(const Tree& t, const model::Type* ty, std::string& o) { // false: not all values are the final ones
      while (ty && (ty->kind == model::Type::opt || ty->kind == model::Type::ext)) ty = ty->sub;
      if (t.leaf) { if (t.canon.empty()) return false; o += t.canon; return true; }
      if (!ty || ty->kind != model::Type::st) return false;
      o += '{';
      bool first = true;
      for (auto& f : ty->f) {
         const Tree* last = nullptr;
         for (auto& k : t.kids) if (k.first == f.name) last = &k.second;
         if (!last) continue;
         if (!first) o += ',';
         first = false;
         o += model::json_quote(f.name) + ":";
         if (!ordered(*last, f.t, o)) return false;
      }
      o += '}';
      return true;
   }
   bool convert(uint64_t doc, std::string* bin = nullptr) {
      Tree t;
      for (auto u : log) if (w->ups[u].doc == doc) put(t, w->ups[u]);
      std::string a, c, type = w->types[doc];
      arrived(t, a);
      Op o(cxx ? "xj2b" : "j2b");
      o.i("c", id).u("con", w->con).s("type", type).s("data", a).i("ord", 1);
      if (oom && ++calls % oom == 0) { Op f = o; f.u("fa", mix(calls, id) % 80).u("fr", 1); if (!w->w.exec(f)) return false; }
      if (!w->w.exec(o)) return false;
      auto g = w->w.last;
      net->run.add(g.ok ? "probe.documents_converted" : "probe.documents_incomplete");
      if (bin && g.ok) *bin = g.out;
      if (!ordered(t, w->mod->find(type, 0), c)) return true;
      Op q = o;
      q.s("data", c).i("ord", 0);
      if (!w->w.exec(q)) return false;
      auto h = w->w.last;
      if (h.ok && (!g.ok || g.out != h.out)) { net->run.fail("order-matters:" + o.name, "fields in order of arrival, " + show(a, 400) + ", give " + World::show_r(g) + "; in order of the type, " + show(c, 400) + ", they give " + World::show_r(h)); return false; }
      // the same in order, taken as if in any order
      q.i("ord", 1);
      if (!w->w.exec(q)) return false;
      auto k = w->w.last;
      if (h.ok && (!k.ok || k.out != h.out)) { net->run.fail("order-matters:" + o.name, show(c, 400) + " gives " + World::show_r(k) + " with reordering and " + World::show_r(h) + " without"); return false; }
      if (k.ok != g.ok || (k.ok && k.out != g.out)) { net->run.fail("order-matters:" + o.name, "with reordering, " + show(a, 400) + " gives " + World::show_r(g) + " and " + show(c, 400) + " gives " + World::show_r(k)); return false; }
      return true;
   }
};
struct Sender9 : net::Node {
   W9* w = nullptr;
   int n = 0;
   void start() override { net->at(id, 10, 1); }
   void stop() override {}
   void timer(int) override { for (int i = 1; i <= n; ++i) for (size_t u = 0; u < w->ups.size(); ++u) net->send(id, i, net::sealed(net::Peer::num(u))); }
   void message(int from, const std::string& f) override {
      std::string s;
      if (!net::unsealed(f, s)) { net->run.add("probe.bad_frame"); return; }
      for (size_t p = 0; p < s.size();) { uint64_t u = net::Peer::num(s, p); if (u < w->ups.size()) net->send(id, from, net::sealed(net::Peer::num(u))); }
   }
};
void run_c09(const Plan& p, Run& r) {
   W9       w(r);
   net::Net net(r);
   Sender9  src;
   src.net = &net; src.id = 0; src.w = &w;
   net.nodes.push_back(&src);
   std::vector<std::unique_ptr<Receiver9>> rec;
   note_phase("fields");
   for (auto& o : p.ops) {
      if (o.name == "node" && rec.size() < 4) {
         rec.push_back(std::make_unique<Receiver9>());
         auto& c = *rec.back();
         c.net = &net; c.id = int(rec.size()); c.w = &w; c.fmt = o.str("fmt"); c.cxx = o.num("cxx"); c.every = std::max<uint64_t>(1, o.unum("every")); c.probe = std::max<uint64_t>(1, o.unum("probe")); c.oom = o.unum("oom");
         net.nodes.push_back(&c);
      } else if (o.name == "abi") {
         model::AbiDef d;
         auto          a = std::make_shared<model::Abi>();
         if (model::parse_abi_bin(o.str("data"), d) != model::ok || a->build(d) != model::ok) return;
         w.con = o.unum("con"); w.abi = o.str("data"); w.mod = a;
      } else if (o.name == "doc") w.types[o.unum("doc")] = o.str("type");
      else if (o.name == "upd") w.ups.push_back({ o.unum("doc"), o.unum("ver"), o.str("path"), o.str("text"), o.str("canon") });
   }
   if (!w.mod || rec.empty()) return;
   std::vector<Up> keep;
   for (auto& u : w.ups) if (w.types.count(u.doc) && w.mod->find(w.types[u.doc], 0)) keep.push_back(u);
   w.ups = keep;
   for (auto& o : p.ops) net.take(o);
   src.n = int(rec.size());
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& c : rec) {
         if (!c->up) return false;
         for (size_t u = 0; u < w.ups.size(); ++u) if (!c->has(u)) return false;
      }
      return true;
   };
   bool fin = net.go(net.quiet_at + 30000, done, 100000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:fields", "fields have not arrived " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (auto& [doc, type] : w.types) {
      std::string first;
      for (auto& c : rec) {
         std::string bin;
         if (!c->convert(doc, &bin)) return;
         if (c->id == 1) first = bin;
         else if (first != bin) { r.fail("order-matters:replicas", "document " + std::to_string(doc) + " of type " + show(type) + " became " + show(first, 300) + " at one node and " + show(bin, 300) + " at another"); return; }
         r.state("documents", mix(fnv(bin), fnv(type)));
      }
   }
   net.finish();
   w.w.close();
}
} // namespace
extern const Scenario sc_c08, sc_c09;
const Scenario sc_c08{ "C08", gen_c08, run_c08, nullptr };
const Scenario sc_c09{ "C09", gen_c09, run_c09, nullptr };
