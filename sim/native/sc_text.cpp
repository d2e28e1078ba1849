// C15: documents uploaded in pieces to a server which puts together whatever arrives, in the order it arrives.
#include "../net.hpp"
#include "../repl.hpp"
#include "../spoil.hpp"
#include "lab.hpp"

namespace {
using model::AbiDef;
using net::Peer;
std::string put_field(const std::string& s) { return Peer::num(s.size()) + s; }
std::string get_field(const std::string& s, size_t& p) { uint64_t n = Peer::num(s, p); auto r = s.substr(std::min(p, s.size()), n); p += n; return r; }

bool plain_type(const model::Type* t, int depth = 0) { // native types whose JSON is read as the model reads it
   if (depth > 8 || t->shape != model::Type::plain || t->kind == model::Type::st) return false;
   if (t->sub && !plain_type(t->sub, depth + 1)) return false;
   for (auto& f : t->f) if (!plain_type(f.t, depth + 1)) return false;
   return true;
}
Plan gen_c15(Rng& r, const Tier& tier) {
   Plan p;
   int  clients = int(r.range(1, 3));
   std::vector<uint64_t>                    cons;
   std::vector<std::shared_ptr<model::Abi>> abis;
   std::vector<std::vector<std::string>>    types;
   p.ops.push_back(Op("server").i("clients", clients).i("eager", r.chance(50)).u("oom", r.chance(20) ? r.range(2, 6) : 0));
   for (int i = 0, k = int(r.range(1, 2)); i < k; ++i) {
      auto o = gen::abi_style(r);
      o.zero_width = o.weird_names = false;
      o.unique_fields = r.chance(70);
      std::shared_ptr<model::Abi> a;
      auto d = gen::good_abi(r, o, &a);
      static const char* nm[] = { "alice", "bob" };
      cons.push_back(model::name_loose(nm[i]));
      abis.push_back(a);
      types.push_back(gen::type_names(d, r));
      p.ops.push_back(Op("abi").u("con", cons[i]).s("data", model::abi_to_bin(d)));
   }
   int m = int(r.range(5, tier.thorough ? 60 : 28)), frames = 0;
   std::vector<const nat::Entry*> plain;
   for (auto& e : nat::entries()) if (e.parse && plain_type(nat::type(e))) plain.push_back(&e);
   for (int i = 0; i < m; ++i) {
      size_t c    = r.below(cons.size());
      auto   type = r.chance(25) ? r.pick(gen::builtin_names()) : r.pick(types[c]);
      const model::Type* t = abis[c]->find(type, 0);
      Op     o("doc");
      const nat::Entry* e = r.chance(30) ? r.pick(plain) : nullptr;
      if (e) { t = nat::type(*e); type = e->name; }
      if (!t) continue;
      gen::ValOpt vo;
      vo.text = r.chance(15) ? 300 : 16;
      vo.longs = 1;
      model::JV   j;
      std::string bin, text;
      gen::value(r, t, j, bin, vo);
      int slips = r.chance(55) ? 1 : r.chance(20) ? 2 : 0;
      for (int k = 0; k < slips; ++k) gen::spoil(r, t, j);
      gen::write_json(text, j, r, gen::style(r));
      if (r.chance(12)) text = gen::damage_text(r, text);
      if (r.chance(4)) text += r.coin() ? "," : r.coin() ? "]" : "{}";
      if (r.chance(3)) text += std::string("\0", 1) + (r.coin() ? "" : r.coin() ? "garbage" : text.substr(0, text.size() / 2));
      if (text.size() > 3000) continue;
      size_t cs = r.chance(30) ? 1000 : std::max<size_t>(r.range(1, 40), text.size() / 12);
      frames += int(text.size() / cs) + 3;
      static const char* how[] = { "c", "cxx" };
      o.u("cl", r.range(1, clients)).u("con", cons[c]).s("type", type).s("how", e ? "nat" : how[r.coin()]).i("ord", !e && r.chance(45)).u("cs", cs).s("data", text);
      p.ops.push_back(o);
   }
   auto mx = net::some_mix(r);
   mx.disks = 0;
   mx.loss /= 3; mx.dup /= 3; mx.late /= 2;
   if (r.chance(60)) mx.flip = unsigned(r.below(12));
   if (r.chance(40)) mx.cut = unsigned(r.below(10));
   net::faults(r, p, mx, frames * 2, clients + 1, 2500);
   return p;
}
struct Doc { uint64_t con; std::string type, how, text; bool ord; uint64_t cs; int cl; };
struct W15 {
   Run&  run;
   World w;
   std::vector<std::pair<uint64_t, std::string>> abis;
   std::map<uint64_t, std::shared_ptr<model::Abi>> models;
   std::vector<Doc> docs;
   explicit W15(Run& r) : run(r), w(r) {}
   // closed documents: what is missing a piece at the end is not a document
   static bool closed(const std::string& s, char& last) {
      size_t e = s.find_last_not_of(" \t\r\n");
      if (e == s.npos) return false;
      last = s[e];
      return last == '}' || last == ']' || last == '"';
   }
   bool fail(const char* cls, const Doc& d, const std::string& text, const std::string& msg) {
      run.fail(std::string(cls) + ":" + d.how, d.type + (d.how == "nat" ? " (native)" : "") + " from " + show(text, 300) + ": " + msg);
      return false;
   }
   bool convert(const Doc& d, const std::string& text, int ctx, api::R& g, uint64_t fa = ~0ull) {
      g = {};
      if (d.how == "nat") {
         auto* e = nat::find(d.type);
         if (!e || !e->parse) return true;
         note_phase("parse " + d.type);
         bool faulty = fa != ~0ull;
         if (faulty) rt::arm(fa, 1);
         auto o = e->parse(text, g);
         uint64_t fired = rt::ts.fired;
         if (faulty) { rt::disarm(); run.add("fault.allocation_failure", fired); }
         if (g.ok) g.out = o->emit(nat::BIN, nat::CONVERT, 0).bytes;
         run.ev("nat " + std::to_string(g.ok) + g.err + std::to_string(fnv(g.out)));
         if (!g.ok) run.add("fault.rejected_call");
         if (faulty && fired && !g.ok) return true;
         if (!plain_type(nat::type(*e))) return true;
         auto m = model::json_to_bin(nat::type(*e), text.substr(0, text.find('\0')), false);
         if (m.t == model::bad && g.ok) return fail("accepted-invalid", d, text, "accepted as " + show(g.out));
         if (m.t == model::ok && !g.ok) return fail("refused-valid", d, text, "refused: " + g.err);
         if ((m.t == model::ok || m.maybe) && g.ok && g.out != m.bin) return fail("wrong-result", d, text, "taken for " + show(g.out) + ", expected " + show(m.bin));
         return true;
      }
      Op o(d.how == "c" ? "j2b" : "xj2b");
      o.i("c", d.how == "c" ? ctx : int(d.con % 1000)).u("con", d.con).s("type", d.type).s("data", text).i("ord", d.ord);
      if (fa != ~0ull) o.u("fa", fa);
      bool good = w.exec(o);
      g = w.last;
      return good;
   }
};
struct Server : net::Node {
   W15*     w = nullptr;
   bool     eager = false;
   uint64_t oom = 0, calls = 0;
   std::map<int, std::pair<uint64_t, std::string>> parts; // by client: number of the upload, what has arrived
   void start() override {
      if (!w->w.exec(Op("new").i("c", id))) return;
      for (auto& [con, data] : w->abis) {
         if (!w->w.exec(Op("load").i("c", id).u("con", con).s("fmt", "bin").s("data", data))) return;
         if (!w->w.exec(Op("xload").i("c", int(con % 1000)).s("fmt", "bin").s("data", data))) return;
      }
   }
   void stop() override {
      parts.clear();
      w->w.exec(Op("del").i("c", id));
      for (auto& [con, _] : w->abis) w->w.exec(Op("xdel").i("c", int(con % 1000)));
   }
   void timer(int) override {}
   void message(int from, const std::string& f) override {
      size_t p = 1;
      if (f.size() < 4 || (f[0] != 'P' && f[0] != 'E')) { net->run.add("probe.bad_frame"); return; }
      uint64_t u = Peer::num(f, p), k = Peer::num(f, p);
      if (k >= w->docs.size() || p > f.size()) { net->run.add("probe.bad_frame"); return; }
      auto& d = w->docs[k];
      auto& x = parts[from];
      if (x.first != u) x = { u, "" };
      char last = 0;
      if (f[0] == 'P') {
         x.second += f.substr(p);
         if (x.second.size() > 20000) x.second.clear();
         // an impatient server: what has come so far is a document already?
         if (eager && x.second.size() < d.text.size() && d.text.substr(0, x.second.size()) == x.second) {
            api::R g;
            if (!w->convert(d, x.second, id, g)) return;
            net->run.add("fault.incomplete_document");
            if (g.ok && W15::closed(d.text, last) && x.second.size() <= d.text.find_last_of(last) && d.text.find('\0') == d.text.npos && well_formed(d)) { w->fail("accepted-prefix", d, x.second, "the beginning of a document of " + std::to_string(d.text.size()) + " bytes is accepted as " + show(g.out)); return; }
         }
         return;
      }
      api::R g;
      if (oom && ++calls % (oom + 1) == 0) { if (!w->convert(d, x.second, id, g, mix(calls, u) % 30)) return; }
      if (!w->convert(d, x.second, id, g)) return;
      if (x.second != d.text) { net->run.add("fault.document_damaged_on_the_way"); net->run.add(g.ok ? "probe.damaged_but_a_value" : "probe.damage_refused"); }
      net->run.state("documents", mix(fnv(d.type), mix(fnv(x.second), g.ok)));
      net->send(id, from, net::sealed(Peer::num(u) + Peer::num(fnv(x.second)) + (g.ok ? "+" : "-") + std::to_string(fnv(g.out))));
      parts.erase(from);
   }
   static bool well_formed(const Doc& d) { model::JV v; int nest = 0; return model::parse_json(d.text, v, &nest) == model::ok; }
};
struct Client : net::Node {
   W15*                  w = nullptr;
   std::vector<uint64_t> mine;
   size_t                pos = 0;
   uint64_t              tries = 0;
   std::map<uint64_t, uint64_t> got;
   void start() override { net->at(id, 10, 1); }
   void stop() override {}
   void timer(int) override { send(); net->at(id, 400, 1); }
   void send() {
      if (pos >= mine.size()) return;
      auto&       d = w->docs[mine[pos]];
      uint64_t    u = uint64_t(id) * 1000000 + ++tries;
      std::string h = Peer::num(u) + Peer::num(mine[pos]);
      for (size_t i = 0; i < d.text.size(); i += d.cs) net->send(id, 0, "P" + h + d.text.substr(i, d.cs));
      net->send(id, 0, "E" + h);
   }
   void message(int, const std::string& f) override {
      std::string s;
      if (!net::unsealed(f, s) || pos >= mine.size()) return;
      size_t   p = 0;
      uint64_t u = Peer::num(s, p), h = Peer::num(s, p);
      if (u / 1000000 != uint64_t(id)) return;
      auto& d = w->docs[mine[pos]];
      if (h != fnv(d.text)) { if (u == uint64_t(id) * 1000000 + tries) send(); return; } // it has something else
      uint64_t answer = fnv(s.substr(p));
      auto     it     = got.find(h);
      if (it != got.end() && it->second != answer && u % 1000000 < tries) return; // about another document with the same text
      ++pos;
      send();
   }
};
void run_c15(const Plan& p, Run& r) {
   W15      w(r);
   net::Net net(r);
   Server   sv;
   sv.net = &net; sv.id = 0; sv.w = &w;
   net.nodes.push_back(&sv);
   std::vector<std::unique_ptr<Client>> cl;
   note_phase("server");
   for (auto& o : p.ops) {
      if (o.name == "server") {
         sv.eager = o.num("eager"); sv.oom = o.unum("oom");
         for (uint64_t i = 0; i < std::min<uint64_t>(4, o.unum("clients")); ++i) { cl.push_back(std::make_unique<Client>()); cl.back()->net = &net; cl.back()->id = int(cl.size()); cl.back()->w = &w; net.nodes.push_back(cl.back().get()); }
      } else if (o.name == "abi") w.abis.push_back({ o.unum("con"), o.str("data") });
      else if (o.name == "doc" && !cl.empty()) {
         cl[(std::max<uint64_t>(1, o.unum("cl")) - 1) % cl.size()]->mine.push_back(w.docs.size());
         w.docs.push_back({ o.unum("con"), o.str("type"), o.str("how"), o.str("data"), o.num("ord") != 0, std::max<uint64_t>(1, o.unum("cs")), 0 });
      }
   }
   if (cl.empty() || w.docs.empty()) return;
   for (auto& o : p.ops) net.take(o);
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& c : cl) if (!c->up || c->pos < c->mine.size()) return false;
      return sv.up;
   };
   bool fin = net.go(net.quiet_at + 20000 + 4000 * w.docs.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:upload", "documents are not taken " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   net.finish();
   w.w.close();
}
} // namespace
extern const Scenario sc_c15;
const Scenario sc_c15{ "C15", gen_c15, run_c15, nullptr };
