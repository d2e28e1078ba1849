// C12: clients following the history of a chain through the state history protocol, over connections which break.
#include "../net.hpp"
#include "../repl.hpp"
#include "lab.hpp"
#include "ship_api.hpp"

namespace {
using namespace nat;
using model::put_le;
using model::put_varuint;
using ship::Pos;
using ship::Req;
using ship::Res;
const char* row_types[] = { "account", "account_metadata", "code", "contract_table", "contract_row", "contract_index64", "contract_index128", "contract_index256", "contract_index_double",
                            "contract_index_long_double", "key_value", "global_property", "generated_transaction", "permission", "permission_link", "resource_limits", "resource_usage",
                            "resource_limits_state", "resource_limits_config", "protocol_state" };
const model::Type* gold(const std::string& n) { return golden().find(n, 0); }
std::string put_pos(const Pos& p) { std::string s; put_le(s, p.num, 4); return s + p.id; }
std::string put_bytes(const std::string& b) { std::string s; put_varuint(s, b.size()); return s + b; }
std::string compose(const Res& q) { // the message as the protocol describes it
   std::string s;
   put_varuint(s, q.kind);
   s += put_pos(q.head) + put_pos(q.lib);
   if (q.kind == 0) {
      put_le(s, q.trace_begin, 4); put_le(s, q.trace_end, 4); put_le(s, q.state_begin, 4); put_le(s, q.state_end, 4);
      return s + q.chain;
   }
   auto opt = [&](bool has, const std::string& v) { s += char(has); if (has) s += v; };
   opt(q.at.has_value(), q.at ? put_pos(*q.at) : "");
   opt(q.prev.has_value(), q.prev ? put_pos(*q.prev) : "");
   if (q.kind == 1) for (auto* p : { &q.block, &q.traces, &q.deltas }) opt(p->has_value(), *p ? put_bytes(**p) : "");
   else { opt(q.block.has_value(), q.block ? *q.block : ""); s += put_bytes(*q.traces) + put_bytes(*q.deltas); }
   return s;
}
std::string compose(const Req& q) {
   std::string s;
   put_varuint(s, q.kind);
   if (q.kind == 1) {
      put_le(s, q.start, 4); put_le(s, q.end, 4); put_le(s, q.window, 4);
      put_varuint(s, q.have.size());
      for (auto& p : q.have) s += put_pos(p);
      for (bool b : { q.irr, q.block, q.traces, q.deltas }) s += char(b);
   } else if (q.kind == 2) put_le(s, q.acks, 4);
   return s;
}
std::string describe(const Res& q) {
   std::string s = "kind " + std::to_string(q.kind) + " head " + std::to_string(q.head.num) + " lib " + std::to_string(q.lib.num);
   if (q.at) s += " block " + std::to_string(q.at->num) + " " + show(q.at->id.substr(0, 4));
   if (q.prev) s += " after " + std::to_string(q.prev->num);
   auto p = [&](const char* n, auto& o) { if (o) s += std::string(" ") + n + " " + show(*o, 40); };
   p("block", q.block); p("traces", q.traces); p("deltas", q.deltas);
   return s;
}
bool same(const Res& a, const Res& b) {
   return a.kind == b.kind && a.head == b.head && a.lib == b.lib && a.at == b.at && a.prev == b.prev && a.trace_begin == b.trace_begin && a.trace_end == b.trace_end &&
          a.state_begin == b.state_begin && a.state_end == b.state_end && a.chain == b.chain && a.block == b.block && a.traces == b.traces && a.deltas == b.deltas;
}
bool same(const Req& a, const Req& b) {
   return a.kind == b.kind && a.start == b.start && a.end == b.end && a.window == b.window && a.acks == b.acks && a.have == b.have && a.irr == b.irr && a.block == b.block &&
          a.traces == b.traces && a.deltas == b.deltas;
}
// ---------------------------------------------------------------------------------------------------- plans
std::string value_of(Rng& r, const char* type, int depth, int array, int text = 10) {
   gen::ValOpt o;
   o.depth = depth; o.array = array; o.text = text;
   model::JV   j;
   std::string b;
   gen::value(r, gold(type), j, b, o);
   return b;
}
std::string deltas_of(Rng& r) {
   std::string s;
   size_t      n = r.below(4);
   put_varuint(s, n);
   for (size_t i = 0; i < n; ++i) {
      put_varuint(s, 0);
      std::string t = row_types[r.below(std::size(row_types))];
      model::put_str(s, t);
      size_t m = r.below(4);
      put_varuint(s, m);
      for (size_t k = 0; k < m; ++k) { s += char(r.chance(80)); s += put_bytes(value_of(r, t.c_str(), 2, 2)); }
   }
   return s;
}
std::string traces_of(Rng& r) {
   std::string s;
   size_t      n = r.below(3);
   put_varuint(s, n);
   for (size_t i = 0; i < n; ++i) s += value_of(r, "transaction_trace", r.chance(20) ? 3 : int(r.range(1, 2)), r.chance(80) ? 2 : 3);
   return s;
}
Plan gen_c12(Rng& r, const Tier& tier) {
   Plan p;
   int  clients = r.chance(70) ? 1 : 2;
   auto engine  = [&] { return r.coin() ? "native" : "abi"; };
   p.ops.push_back(Op("server").s("engine", engine()));
   for (int c = 0; c < clients; ++c) {
      Op o("client");
      o.s("engine", engine()).u("window", r.range(1, 4)).u("every", r.range(1, 4)).u("how", r.below(3)).i("fb", r.chance(75)).i("ft", r.chance(85)).i("fd", r.chance(85));
      p.ops.push_back(o);
   }
   if (r.chance(35)) { // an ABI made from native types, and values to put through it
      std::vector<std::string> names;
      for (int k = 0, n = int(r.range(1, 8)); k < n; ++k) names.push_back(r.pick(ship::natives()).name);
      std::string s;
      for (auto& n : names) s += n + ",";
      p.ops.push_back(Op("made").s("names", s));
      for (int k = 0, n = int(r.range(1, 4)); k < n; ++k) {
         auto&       nm = r.pick(names);
         const char* d  = nullptr;
         for (auto& x : ship::natives()) if (nm == x.name) d = x.desc;
         gen::ValOpt vo;
         vo.depth = 3; vo.array = 3;
         model::JV   j;
         std::string b;
         gen::value(r, desc(d), j, b, vo);
         p.ops.push_back(Op("use").s("name", nm).s("data", r.chance(20) ? gen::damage_marks(r, desc(d), b) : b));
      }
   }
   int      n = int(r.range(2, tier.thorough ? 20 : 8));
   uint64_t t = r.below(200);
   for (int i = 0; i < n; ++i) {
      Op o("block");
      bool v1 = r.coin();
      o.u("t", t).u("v", v1 ? 2 : 1).u("salt", r.next() & 0xffff).u("back", i && r.chance(18) ? r.range(1, 3) : 0);
      if (r.chance(75)) o.s("block", value_of(r, v1 ? "signed_block_variant" : "signed_block_v0", 2, 2));
      o.s("traces", traces_of(r)).s("deltas", deltas_of(r));
      p.ops.push_back(o);
      t += r.chance(50) ? r.below(150) : r.below(700);
   }
   auto m = net::some_mix(r);
   m.loss = std::min(m.loss, 12u);
   if (r.chance(20)) m.flip = unsigned(r.below(8));
   if (r.chance(15)) m.cut = unsigned(r.below(6));
   net::faults(r, p, m, 40 + 6 * n, clients + 1, t + 1500);
   return p;
}
// ---------------------------------------------------------------------------------------------------- the system
struct Block { Res res; }; // all that could be fetched
struct W12 {
   Run&                      run;
   Lab                       lab;
   World                     dyn; // slot 0: the protocol's ABI
   std::map<std::string, Block> by_id; // of all forks
   std::string               chain_id = std::string(32, 'c');
   explicit W12(Run& r) : run(r), lab(r), dyn(r) {}
   bool bad(const std::string& cls, const std::string& msg) { run.fail(cls, msg); return false; }
   bool json_of(const std::string& type, const std::string& bin, std::string& json) {
      if (!dyn.exec(Op("xb2j").i("c", 0).s("type", type).s("data", bin))) return false;
      if (!dyn.last.ok) return bad("refused-valid:" + type, "the protocol's ABI refuses " + show(bin) + " as " + type + ": " + dyn.last.err);
      json = dyn.last.out;
      return true;
   }
   bool bin_of(const std::string& type, const std::string& json, bool ord, std::string& bin) {
      if (!dyn.exec(Op("xj2b").i("c", 0).s("type", type).s("data", json).i("ord", ord))) return false;
      if (!dyn.last.ok) return bad("refused-valid:" + type, "the protocol's ABI refuses " + show(json) + " as " + type + ": " + dyn.last.err);
      bin = dyn.last.out;
      return true;
   }
   // a message, written by one of the engines
   template <typename M>
   bool encode(const std::string& engine, const M& m, std::string& out) {
      const char* type = std::is_same_v<M, Req> ? "request" : "result";
      auto        want = compose(m);
      if (engine == "abi") {
         std::string text;
         if (!json_of(type, want, text)) return false;
         if (!bin_of(type, text, want.size() & 1, out)) return false;
      } else {
         auto r = ship::write(m);
         if (!r.ok) return bad(std::string("encode-failed:") + type, "writing a " + std::string(type) + " failed: " + r.err);
         out = r.out;
      }
      run.ev(std::string(type) + " " + std::to_string(fnv(out)));
      if (out != want) return bad(std::string("wrong-message:") + type, engine + " wrote " + show(out, 400) + ", expected " + show(want, 400));
      return true;
   }
   template <typename M>
   bool decode(const std::string& engine, const std::string& payload, M& m) {
      const char* type = std::is_same_v<M, Req> ? "request" : "result";
      auto        r    = ship::read(payload, m);
      if (!r.ok) return bad(std::string("refused-valid:") + type, "a " + std::string(type) + " is refused: " + show(payload, 400) + ": " + r.err);
      if (compose(m) != payload) return bad(std::string("wrong-message:") + type, "read " + show(compose(m), 400) + " from " + show(payload, 400));
      if (engine == "abi") {
         std::string j, b;
         if (!json_of(type, payload, j) || !bin_of(type, j, payload.size() & 1, b)) return false;
         if (b != payload) return bad(std::string("round-trip:") + type, show(payload, 300) + " became " + show(b, 300) + " by way of " + show(j, 300));
      }
      Lab::Got g;
      std::string en = std::string("ship.") + type;
      return lab.decode(*find(en), payload, g);
   }
   bool fields(const Res& got, const Res& want) {
      if (same(got, want)) return true;
      return bad("wrong-content:result", "received " + describe(got) + ", the chain has " + describe(want));
   }
   // traces or deltas inside of a result
   bool parts(const std::string& payload, const std::string& content, bool deltas, int how, const std::string& engine) {
      const char*              type = deltas ? "table_delta" : "transaction_trace";
      auto*                    t    = gold(type);
      size_t                   p = 0, n = 0;
      std::vector<std::string> want;
      { int sh = 0; for (;;) { unsigned char c = content[p++]; n |= size_t(c & 127) << sh; sh += 7; if (!(c & 128)) break; } }
      for (size_t i = 0; i < n; ++i) { auto m = model::recode(t, std::string_view(content).substr(p)); want.push_back(content.substr(p, m.consumed)); p += m.consumed; }
      auto check = [&](const std::vector<ship::Item>& got, size_t k) {
         if (got.size() != k) return bad(std::string("opaque-count:") + type, std::to_string(got.size()) + " elements unpacked, there are " + std::to_string(k));
         for (size_t i = 0; i < k; ++i) {
            if (got[i].bin != want[i]) return bad(std::string("opaque-value:") + type, "element " + std::to_string(i) + " of " + std::to_string(n) + " unpacked as " + show(got[i].bin, 300) + ", expected " + show(want[i], 300));
            auto w = model::bin_to_json(t, want[i]);
            if (w.t == model::ok && !w.e.match(got[i].json)) return bad(std::string("opaque-value:") + type, "element " + std::to_string(i) + " prints as " + show(got[i].json, 400) + ", expected " + show(w.e.text(), 400));
         }
         return true;
      };
      std::vector<ship::Item> got;
      auto                    r = ship::items(payload, deltas, how, got);
      run.ev(std::string(type) + " " + std::to_string(got.size()) + r.err);
      if (!r.ok) return bad(std::string("refused-valid:") + type, "unpacking " + show(content, 300) + " failed: " + r.err);
      if (!check(got, n)) return false;
      run.add("probe.unpacked", n);
      if (n > 1) {
         size_t k = 1 + fnv(content) % (n - 1);
         r        = ship::first_items(payload, deltas, k, got);
         if (!r.ok) return bad(std::string("refused-valid:") + type, "unpacking the first " + std::to_string(k) + " of " + show(content, 300) + " failed: " + r.err);
         if (!check(got, k)) return false;
      }
      if (engine == "abi") {
         std::string j, b, at = std::string(type) + "[]";
         if (!json_of(at, content, j) || !bin_of(at, j, content.size() & 1, b)) return false;
         if (b != content) return bad("round-trip:" + at, show(content, 300) + " became " + show(b, 300));
      }
      if (deltas) for (auto& w : want) { // the rows inside
         size_t q = 1;
         auto   len = [&] { size_t v = 0; int sh = 0; for (;;) { unsigned char c = w[q++]; v |= size_t(c & 127) << sh; sh += 7; if (!(c & 128)) return v; } };
         size_t k = len();
         std::string name = w.substr(q, k);
         q += k;
         size_t rows = len();
         auto*  e = find("ship." + name);
         for (size_t i = 0; i < rows; ++i) {
            ++q;
            k = len();
            std::string data = w.substr(q, k);
            q += k;
            Lab::Got g;
            if (e && !lab.decode(*e, data, g)) return false;
            if (engine == "abi") { std::string j, b; if (!json_of(name, data, j) || !bin_of(name, j, k & 1, b)) return false; if (b != data) return bad("round-trip:" + name, show(data) + " became " + show(b)); }
            run.add("probe.rows");
         }
      }
      return true;
   }
   // a message cut off by a broken connection
   bool torn(const std::string& payload) {
      for (uint64_t k = 0; k < 3; ++k) {
         auto cut = payload.substr(0, mix(fnv(payload), k) % payload.size());
         Res  q;
         auto r = ship::read(cut, q);
         run.add("fault.torn_message");
         if (r.ok) return bad("accepted-torn:result", "the first " + std::to_string(cut.size()) + " of " + std::to_string(payload.size()) + " bytes of a result are taken for one: " + show(cut));
         if (r.err.empty()) return bad("no-reason:result", "a torn result is refused without a reason");
      }
      return true;
   }
};
struct Server : net::Node {
   W12*        w = nullptr;
   std::string engine;
   struct Ev { uint64_t t; std::string id; uint32_t num; };
   std::vector<Ev>          plan;  // blocks by time of arrival
   size_t                   arrived = 0;
   std::vector<std::string> chain; // ids; number i+1
   struct S { uint64_t sid = 0; uint64_t in = 0, out = 0; bool streaming = false; uint32_t next = 1, credit = 0; Req req; };
   std::map<int, S> sessions;
   void start() override { net->at(id, 15, 1); }
   void stop() override { sessions.clear(); }
   Pos pos(size_t n) const { return { uint32_t(n), chain[n - 1] }; }
   Pos head() const { return chain.empty() ? Pos{ 0, std::string(32, '\0') } : pos(chain.size()); }
   Pos lib() const { return chain.size() <= 4 ? Pos{ 0, std::string(32, '\0') } : pos(chain.size() - 4); }
   void advance() {
      while (arrived < plan.size() && plan[arrived].t <= net->now) {
         auto& e = plan[arrived++];
         bool  fork = chain.size() >= e.num;
         chain.resize(e.num - 1);
         chain.push_back(e.id);
         if (fork) { net->run.add("fault.chain_reorganised"); for (auto& [_, s] : sessions) s.next = std::min(s.next, e.num); }
      }
   }
   bool reply(int to, S& s, const Res& q) {
      std::string m;
      if (!w->encode(engine, q, m)) return false;
      net->send(id, to, net::sealed("s" + net::Peer::num(s.sid) + net::Peer::num(s.out++) + m));
      return true;
   }
   void pump(int to, S& s) {
      while (s.streaming && s.credit && s.next <= chain.size()) {
         Res q = w->by_id[chain[s.next - 1]].res;
         q.head = head(); q.lib = lib();
         if (s.next > 1) q.prev = pos(s.next - 1);
         if (!s.req.block) q.block.reset();
         if (!s.req.traces) { if (q.kind == 2) q.traces = ""; else q.traces.reset(); }
         if (!s.req.deltas) { if (q.kind == 2) q.deltas = ""; else q.deltas.reset(); }
         --s.credit;
         ++s.next;
         if (!reply(to, s, q)) return;
      }
   }
   void timer(int) override {
      advance();
      for (auto& [to, s] : sessions) { pump(to, s); if (net->run.failed) return; }
      net->at(id, 60, 1);
   }
   void message(int from, const std::string& f) override {
      std::string m;
      if (!net::unsealed(f, m) || m.empty() || m[0] != 'c') { net->run.add("probe.bad_frame"); return; }
      advance();
      size_t   p   = 1;
      uint64_t sid = net::Peer::num(m, p), seq = net::Peer::num(m, p);
      auto&    s   = sessions[from];
      if (sid < s.sid) return;
      if (sid > s.sid) { if (seq) return; s = S{}; s.sid = sid; }
      if (seq != s.in) { net->run.add("probe.broken_connections"); if (seq > s.in) s.in = ~0ull; return; } // the client will notice the silence
      ++s.in;
      Req q;
      if (!w->decode(engine, m.substr(p), q)) return;
      if (q.kind == 0) {
         Res r;
         r.head = head(); r.lib = lib(); r.trace_begin = 1; r.trace_end = uint32_t(chain.size() + 1); r.state_begin = 1; r.state_end = r.trace_end; r.chain = w->chain_id;
         if (!reply(from, s, r)) return;
      } else if (q.kind == 1) {
         s.req = q; s.streaming = true; s.next = q.start; s.credit = q.window;
         for (auto& h : q.have) if (h.num && (h.num > chain.size() || chain[h.num - 1] != h.id)) s.next = std::min(s.next, h.num);
         s.next = std::max(1u, s.next);
      } else s.credit += q.acks;
      pump(from, s);
   }
};
struct Client : net::Node {
   W12*        w = nullptr;
   std::string engine;
   uint32_t    window = 1, every = 1;
   int         how = 0;
   bool        fb = true, ft = true, fd = true;
   struct B { Pos at; uint64_t hash; };
   std::vector<B> log;
   uint64_t       sid = 0, in = 0, out = 0, heard = 0, changes = 0, saved = 0, snaps = 0;
   bool           asked = false;
   std::vector<std::string> unsynced;
   static uint64_t hash(const Res& q) { uint64_t h = 7; for (auto* p : { &q.block, &q.traces, &q.deltas }) h = mix(h, *p ? fnv(**p) : 1); return h; }
   void start() override {
      restore();
      connect();
      net->at(id, 20, 1);
   }
   void stop() override { log.clear(); unsynced.clear(); asked = false; changes = saved = 0; }
   void save() {
      std::string s = net::Peer::num(changes) + net::Peer::num(log.size());
      for (auto& b : log) s += net::Peer::num(b.at.num) + b.at.id + net::Peer::num(b.hash);
      std::string f = (snaps++ & 1) ? "a" : "b";
      if (!net->write(id, f, net::sealed(s))) return;
      unsynced.push_back(f);
      saved = changes;
   }
   void restore() {
      uint64_t best = 0;
      for (auto f : { "a", "b" }) {
         auto*       d = net->read(id, f);
         std::string s;
         if (!d) continue;
         if (!net::unsealed(*d, s)) { net->run.add("probe.bad_snapshot"); continue; }
         size_t         p = 0;
         uint64_t       c = net::Peer::num(s, p), n = net::Peer::num(s, p);
         std::vector<B> v;
         for (uint64_t i = 0; i < n; ++i) { B b; b.at.num = uint32_t(net::Peer::num(s, p)); b.at.id = s.substr(p, 32); p += 32; b.hash = net::Peer::num(s, p); v.push_back(b); }
         if (c >= best) { best = c; log = v; net->run.add("probe.recovered_from_disk"); }
      }
      changes = saved = best;
   }
   bool ask(const Req& q) {
      std::string m;
      if (!w->encode(engine, q, m)) return false;
      net->send(id, 0, net::sealed("c" + net::Peer::num(sid) + net::Peer::num(out++) + m));
      return true;
   }
   void connect() {
      if (sid) net->run.add("probe.reconnects");
      sid = net->now * 8 + id + 1; in = out = 0; asked = false; heard = net->now;
      Req q;
      ask(q);
   }
   void timer(int) override {
      for (auto& f : unsynced) net->sync(id, f);
      unsynced.clear();
      if (changes >= saved + every) save();
      if (net->now > heard + 500) connect();
      else { Req q; if (!ask(q)) return; } // keeps the connection alive
      net->at(id, 150, 1);
   }
   void message(int from, const std::string& f) override {
      std::string m;
      if (!net::unsealed(f, m) || m.empty() || m[0] != 's') { net->run.add("probe.bad_frame"); return; }
      size_t   p = 1;
      uint64_t s = net::Peer::num(m, p), seq = net::Peer::num(m, p);
      if (s != sid || seq < in) { net->run.add("probe.stale_frames"); return; }
      if (seq > in) { net->run.add("probe.broken_connections"); connect(); return; }
      ++in;
      heard = net->now;
      std::string payload = m.substr(p);
      Res         q;
      if (!w->decode(engine, payload, q)) return;
      if (!w->torn(payload)) return;
      if (q.kind == 0) {
         if (q.chain != w->chain_id) { w->bad("wrong-content:result", "another chain's id in a status"); return; }
         if (!asked) {
            asked = true;
            Req r;
            r.kind = 1; r.start = uint32_t(log.size() + 1); r.end = ~0u; r.window = window; r.block = fb; r.traces = ft; r.deltas = fd;
            for (size_t i = log.size() > 5 ? log.size() - 5 : 0; i < log.size(); ++i) r.have.push_back(log[i].at);
            ask(r);
         }
         return;
      }
      if (!q.at || !w->by_id.count(q.at->id)) { w->bad("wrong-content:result", "a block the chain never had: " + describe(q)); return; }
      Res want = w->by_id[q.at->id].res;
      want.head = q.head; want.lib = q.lib; want.prev = q.prev;
      if (!fb) want.block.reset();
      if (!ft) { if (want.kind == 2) want.traces = ""; else want.traces.reset(); }
      if (!fd) { if (want.kind == 2) want.deltas = ""; else want.deltas.reset(); }
      if (!w->fields(q, want)) return;
      if (q.at->num > log.size() + 1 || !q.at->num) { w->bad("hole", "block " + std::to_string(q.at->num) + " follows block " + std::to_string(log.size())); return; }
      if (q.at->num <= log.size()) { log.resize(q.at->num - 1); net->run.add("probe.rolled_back"); }
      if (q.prev && log.size() && !(log.back().at == *q.prev)) { // a reorganisation that happened while we were away is healed by asking again
         log.pop_back();
         ++changes;
         connect();
         return;
      }
      log.push_back({ *q.at, hash(q) });
      ++changes;
      net->run.add("probe.blocks");
      if (q.traces && !q.traces->empty() && !w->parts(payload, *q.traces, false, how, engine)) return;
      if (q.deltas && !q.deltas->empty() && !w->parts(payload, *q.deltas, true, how, engine)) return;
      if (q.block) {
         Lab::Got g;
         const char* t = q.kind == 2 ? "signed_block_variant" : "signed_block_v0";
         if (!w->lab.decode(*find(std::string("ship.") + t), *q.block, g)) return;
         if (engine == "abi") { std::string j; if (!w->json_of(t, *q.block, j)) return; }
      }
      Req a;
      a.kind = 2; a.acks = 1;
      ask(a);
   }
};
void made(const Op& o, const std::vector<const Op*>& uses, W12& w, Run& r) {
   std::vector<std::string> names, called;
   std::string              s = o.str("names");
   for (size_t p = 0; p < s.size();) { size_t e = s.find(',', p); if (e == s.npos) e = s.size(); names.push_back(s.substr(p, e - p)); p = e + 1; }
   std::vector<std::string> known;
   for (auto& n : names) for (auto& x : ship::natives()) if (n == x.name) known.push_back(n);
   api::AbiPtr a, b;
   auto        x = ship::abi_native(known, a, called);
   if (!x.ok) { w.bad("made-abi", "adding native types " + s + " failed: " + x.err); return; }
   auto d = api::abi_export(*a);
   r.ev("export " + std::to_string(fnv(d.out)) + d.err);
   if (!d.ok) { w.bad("made-abi", "exporting an abi made of " + s + " failed: " + d.err); return; }
   auto l = api::abi_load_bin(d.out, b);
   if (!l.ok) { w.bad("made-abi", "the exported abi of " + s + " does not load: " + l.err + "; " + show(d.out, 600)); return; }
   r.add("probe.made_abis");
   for (size_t i = 0; i < known.size() && i < called.size(); ++i)
      for (auto& n : ship::natives()) if (known[i] == n.name && called[i] != n.called) { w.bad("made-abi", "the type is called " + called[i] + ", expected " + n.called); return; }
   for (auto* u : uses) {
      const ship::Native* n = nullptr;
      for (auto& k : known) if (k == u->str("name")) for (auto& y : ship::natives()) if (k == y.name) n = &y;
      if (!n) continue;
      auto& data = u->str("data");
      auto  want = model::bin_to_json(desc(n->desc), data, false);
      if (want.zero_width || want.t == model::unk) continue;
      for (auto* abi : { &a, &b }) {
         size_t consumed = 0;
         auto   g = api::cb_bin_to_json(**abi, n->called, data, consumed, nullptr);
         std::string where = abi == &a ? "an abi made of native types" : "the exported and loaded abi";
         r.ev("use " + std::to_string(fnv(g.out)) + g.err);
         if (g.ok != (want.t == model::ok)) { w.bad("made-abi:" + std::string(n->name), where + " gives " + show_r(g) + " for " + show(data) + " as " + n->called); return; }
         if (!g.ok) continue;
         if (!want.e.match(g.out) || consumed != want.consumed) { w.bad("made-abi:" + std::string(n->name), where + " gives " + show(g.out, 400) + ", expected " + show(want.e.text(), 400)); return; }
         auto rec = model::recode(desc(n->desc), data);
         for (int ord = 0; ord < 2; ++ord) {
            auto k = api::cb_json_to_bin(**abi, n->called, g.out, ord, nullptr);
            auto m = model::json_to_bin(desc(n->desc), g.out, ord);
            if (m.t == model::unk) continue;
            if (k.ok != (m.t == model::ok) || (k.ok && k.out != m.bin)) { w.bad("made-abi:" + std::string(n->name), where + " turns " + show(g.out, 300) + " into " + show_r(k) + ", expected " + show(m.bin, 300)); return; }
         }
      }
   }
}
void run_c12(const Plan& p, Run& r) {
   W12      w(r);
   net::Net net(r);
   Server   sv;
   std::vector<std::unique_ptr<Client>> cl;
   sv.net = &net; sv.id = 0; sv.w = &w; sv.engine = "native";
   net.nodes.push_back(&sv);
   bool     any_abi = false;
   uint32_t top = 0;
   std::vector<std::string> chain;
   const Op* mk = nullptr;
   std::vector<const Op*> uses;
   for (auto& o : p.ops) {
      if (o.name == "server") { sv.engine = o.str("engine"); any_abi |= sv.engine == "abi"; }
      if (o.name == "client" && cl.size() < 4) {
         cl.push_back(std::make_unique<Client>());
         auto& c = *cl.back();
         c.net = &net; c.id = int(cl.size()); c.w = &w; c.engine = o.str("engine"); c.window = uint32_t(std::max<uint64_t>(1, o.unum("window"))); c.every = uint32_t(o.unum("every"));
         c.how = int(o.num("how")); c.fb = o.num("fb"); c.ft = o.num("ft"); c.fd = o.num("fd");
         any_abi |= c.engine == "abi";
         net.nodes.push_back(&c);
      }
      if (o.name == "made") mk = &o;
      if (o.name == "use") uses.push_back(&o);
   }
   note_phase("state history");
   if (mk) made(*mk, uses, w, r);
   if (r.failed || cl.empty()) return;
   uint64_t last = 0;
   for (auto& o : p.ops) {
      if (o.name != "block") { net.take(o); continue; }
      Block b;
      auto& q = b.res;
      q.kind  = o.unum("v") == 2 ? 2 : 1;
      top     = uint32_t(std::max<int64_t>(1, int64_t(top) + 1 - o.num("back")));
      std::string id;
      put_le(id, top, 4);
      put_le(id, o.unum("salt"), 8);
      put_le(id, sv.plan.size(), 8);
      id.resize(32, '\x5a');
      q.at = Pos{ top, id };
      // only content which is valid
      auto valid = [&](const char* t, const std::string& s) { auto m = model::recode(golden().find(t, 0), s); return m.t == model::ok && m.bin == s && !m.heavy && model::bin_to_json(golden().find(t, 0), s).t == model::ok; };
      if (o.has("block") && valid(q.kind == 2 ? "signed_block_variant" : "signed_block_v0", o.str("block"))) q.block = o.str("block");
      q.traces = valid("transaction_trace[]", o.str("traces")) ? o.str("traces") : std::string(1, '\0');
      q.deltas = valid("table_delta[]", o.str("deltas")) ? o.str("deltas") : std::string(1, '\0');
      w.by_id[id] = b;
      last = std::max(last, o.unum("t"));
      sv.plan.push_back({ last, id, top });
   }
   if (any_abi) {
      if (!w.dyn.exec(Op("xload").i("c", 0).s("fmt", "bin").s("data", model::abi_to_bin(golden_def())))) return;
      if (!w.dyn.last.ok) { w.bad("refused-valid:protocol", "the protocol's ABI is refused: " + w.dyn.last.err); return; }
   }
   for (auto& e : sv.plan) { chain.resize(e.num - 1); chain.push_back(e.id); }
   net.quiet_at = std::max(net.quiet_at, last);
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at || !sv.up || sv.chain.size() != chain.size() || sv.arrived != sv.plan.size()) return false;
      for (auto& c : cl) if (!c->up || c->log.size() != chain.size() || (chain.size() && c->log.back().at.id != chain.back())) return false;
      return true;
   };
   bool fin = net.go(net.quiet_at + 60000 + 2000 * sv.plan.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:ship", "clients have not caught up " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (auto& c : cl) {
      for (size_t i = 0; i < chain.size(); ++i) {
         Res want = w.by_id[chain[i]].res;
         if (!c->fb) want.block.reset();
         if (!c->ft) { if (want.kind == 2) want.traces = ""; else want.traces.reset(); }
         if (!c->fd) { if (want.kind == 2) want.deltas = ""; else want.deltas.reset(); }
         if (c->log[i].at.id != chain[i] || c->log[i].hash != Client::hash(want)) { w.bad("history", "block " + std::to_string(i + 1) + " of a client differs from the chain's"); return; }
      }
   }
   r.state("histories", mix(chain.size(), chain.empty() ? 0 : fnv(chain.back())));
   net.finish();
}
} // namespace
extern const Scenario sc_c12;
const Scenario sc_c12{ "C12", gen_c12, run_c12, nullptr };
