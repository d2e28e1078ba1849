// C18: ordered indexes keyed by to_key, replicated over an unreliable network.
#include "../repl.hpp"
#include "lab.hpp"

namespace {
using namespace nat;
bool nan_in(const Entry& e, const std::string& b) { bool u = false; model::compare(type(e), b, b, &u); return u; }
std::string canon(const Entry& e, const std::string& b) { // a set or map holds its elements in order, once
   auto m = model::recode(type(e), b);
   return m.t == model::ok && m.consumed == b.size() ? m.bin : b;
}
std::string near(Rng& r, const Entry& e, const std::string& b) { // a value that differs little
   for (int i = 0; i < 8; ++i) {
      std::string d = r.chance(40) ? gen::damage_marks(r, type(e), b) : b;
      if (!d.empty() && r.chance(70)) { size_t p = r.below(d.size()); switch (r.below(4)) { case 0: d[p] ^= char(1 << r.below(8)); break; case 1: d[p] = 0; break; case 2: d[p] = char(r.coin() ? 1 : 0xff); break; default: d[p] = char(d[p] + 1); } }
      if (r.chance(12)) for (size_t w : { r.coin() ? 4 : 8 }) if (d.size() >= w) { // a zero, possibly a negative one
         size_t p = r.chance(50) ? 0 : r.below(d.size() - w + 1);
         for (size_t k = 0; k < w; ++k) d[p + k] = 0;
         if (r.coin()) d[p + w - 1] = char(0x80);
      }
      auto m = model::recode(type(e), d);
      if (m.t == model::ok && m.consumed == d.size()) return m.bin;
   }
   return b;
}
Plan gen_c18(Rng& r, const Tier& tier) {
   Plan p;
   int  cols = r.chance(60) ? 1 : 2, replicas = int(r.range(1, 3));
   std::vector<const Entry*> e;
   for (int c = 0; c < cols; ++c) e.push_back(&some_entry(r, cK));
   Op t("table");
   t.i("replicas", replicas).u("every", r.range(1, 6));
   for (int c = 0; c < cols; ++c) t.s("e" + std::to_string(c), e[c]->name);
   p.ops.push_back(t);
   int n = int(r.range(3, tier.thorough ? 60 : 24));
   std::vector<std::vector<std::string>> pool(cols);
   for (int i = 0; i < n; ++i) {
      Op o("put");
      for (int c = 0; c < cols; ++c) {
         std::string b;
         if (!pool[c].empty() && r.chance(65)) { b = r.pick(pool[c]); if (r.chance(75)) b = near(r, *e[c], b); }
         else { gen::ValOpt vo; vo.depth = int(r.range(1, 3)); vo.array = int(r.chance(12) ? r.range(5, 12) : r.range(1, 4)); vo.text = 6; model::JV j; gen::value(r, type(*e[c]), j, b, vo); b = canon(*e[c], b); }
         if (nan_in(*e[c], b)) { --i; b.clear(); o.name = ""; break; }
         pool[c].push_back(b);
         o.s("v" + std::to_string(c), b);
      }
      if (o.name.empty()) { if (r.chance(5)) ++i; continue; }
      if (r.chance(15)) o.name = "del";
      p.ops.push_back(o);
   }
   auto m = net::some_mix(r);
   if (r.chance(20)) m.flip = unsigned(r.below(15));
   net::faults(r, p, m, 30 + n, replicas + 1, 2500);
   return p;
}
struct World18;
struct Index : net::Peer {
   World18*                              w = nullptr;
   std::map<std::string, std::vector<std::string>> rows; // by key, as the store orders them
   bool process(uint64_t i, const std::string& in, std::string& out) override;
   void forget() override { rows.clear(); }
};
struct World18 {
   Run&                      run;
   Lab                       lab;
   std::vector<const Entry*> cols;
   explicit World18(Run& r) : run(r), lab(r) {}
   std::string row_text(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += show(x, 60) + " "; return s; }
   std::string label() { std::string s; for (auto* e : cols) s += std::string(s.empty() ? "" : "+") + e->name; return s; }
   int compare(const std::vector<std::string>& a, const std::vector<std::string>& b) {
      for (size_t i = 0; i < cols.size(); ++i) if (int c = model::compare(type(*cols[i]), a[i], b[i])) return c;
      return 0;
   }
   // 0: the key; 1: a value that does not decode here; 2: violation
   int key(const std::vector<std::string>& row, std::string& k) {
      k.clear();
      for (size_t i = 0; i < cols.size(); ++i) {
         Lab::Got g;
         if (!lab.decode(*cols[i], row[i], g, false)) return 2;
         if (!g.obj) return 1;
         auto f = g.obj->emit(KEY, CONVERT, 0);
         if (!f.ok) { lab.fail("no-key", *cols[i], show(row[i]) + ": " + f.err); return 2; }
         k += f.bytes;
      }
      return 0;
   }
   bool bad(const std::string& cls, const std::string& msg) { run.fail(cls + ":" + label(), label() + ": " + msg); return false; }
   bool ordered(const Index& x) { // what a range scan returns
      const std::string*              pk = nullptr;
      const std::vector<std::string>* pv = nullptr;
      for (auto& [k, v] : x.rows) {
         if (pk) {
            int c = compare(*pv, v);
            if (c > 0) return bad("order", "the values " + row_text(*pv) + "> " + row_text(v) + "have keys " + show(*pk) + " < " + show(k));
            if (c == 0) return bad("two-keys", "the equal values " + row_text(*pv) + "and " + row_text(v) + "have keys " + show(*pk) + " and " + show(k));
            if (k.compare(0, pk->size(), *pk) == 0) return bad("prefix", "the key " + show(*pk) + " of " + row_text(*pv) + "is the beginning of the key " + show(k) + " of " + row_text(v));
         }
         pk = &k;
         pv = &v;
      }
      return true;
   }
};
bool Index::process(uint64_t, const std::string& in, std::string& out) {
   out = in;
   std::vector<std::string> row;
   size_t                   p = 1;
   for (size_t i = 0; i < w->cols.size(); ++i) { uint64_t n = num(in, p); row.push_back(in.substr(p, n)); p += n; }
   std::string k;
   int         s = w->key(row, k);
   if (s == 2) return false;
   if (s == 1) return true;
   auto it = rows.find(k);
   net->run.ev("k " + std::to_string(fnv(k)));
   if (in[0] == 'd') { if (it != rows.end()) rows.erase(it); return true; }
   if (it != rows.end() && w->compare(it->second, row)) return w->bad("one-key", "the different values " + w->row_text(it->second) + "and " + w->row_text(row) + "have the same key " + show(k));
   rows[k] = row;
   net->run.add("probe.rows");
   return w->ordered(*this);
}
void run_c18(const Plan& p, Run& r) {
   World18  w(r);
   net::Net net(r);
   std::vector<std::unique_ptr<Index>> peers;
   std::vector<std::string>            recs;
   for (auto& o : p.ops) {
      if (o.name == "table" && peers.empty()) {
         for (int c = 0; o.has("e" + std::to_string(c)); ++c) if (auto* e = find(o.str("e" + std::to_string(c)))) if (e->caps & cK) w.cols.push_back(e);
         for (int i = 0; i <= std::min<int64_t>(6, o.num("replicas")); ++i) {
            peers.push_back(std::make_unique<Index>());
            auto& x = *peers.back();
            x.net = &net; x.id = i; x.w = &w; x.every = unsigned(o.unum("every", 3));
            if (!x.every) x.every = 1;
            x.up_id = i ? 0 : -1;
            if (i) peers[0]->down.push_back(i);
            net.nodes.push_back(&x);
         }
      }
   }
   if (w.cols.empty() || peers.empty()) return;
   for (auto& o : p.ops) {
      if (net.take(o)) continue;
      if (o.name != "put" && o.name != "del") continue;
      std::string s = o.name.substr(0, 1);
      bool        have = true;
      for (size_t c = 0; c < w.cols.size(); ++c) {
         auto  v = canon(*w.cols[c], o.str("v" + std::to_string(c)));
         auto  m = model::recode(type(*w.cols[c]), v);
         if (m.t != model::ok || m.consumed != v.size() || nan_in(*w.cols[c], v)) have = false;
         s += net::Peer::num(v.size()) + v;
      }
      if (have) recs.push_back(s);
   }
   note_phase("index of " + w.label());
   peers[0]->out = recs;
   net.begin();
   auto done = [&] {
      for (size_t i = 1; i < peers.size(); ++i) if (!peers[i]->up || peers[i]->log.size() < recs.size()) return false;
      return net.now > net.quiet_at;
   };
   bool fin = net.go(net.quiet_at + 60000 + 1000 * recs.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:index", "replicas have not got everything " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   // the reference: what the operations leave, ordered by value
   std::vector<std::vector<std::string>> ref;
   for (auto& in : recs) {
      std::vector<std::string> row;
      size_t                   q = 1;
      for (size_t i = 0; i < w.cols.size(); ++i) { uint64_t n = net::Peer::num(in, q); row.push_back(in.substr(q, n)); q += n; }
      size_t at = 0;
      while (at < ref.size() && w.compare(ref[at], row) < 0) ++at;
      bool same = at < ref.size() && w.compare(ref[at], row) == 0;
      if (in[0] == 'd') { if (same) ref.erase(ref.begin() + at); }
      else if (same) ref[at] = row;
      else ref.insert(ref.begin() + at, row);
   }
   for (size_t i = 1; i < peers.size(); ++i) {
      auto& rows = peers[i]->rows;
      if (!w.ordered(*peers[i])) return;
      size_t q = 0;
      bool   same = rows.size() == ref.size();
      if (same) for (auto& [k, v] : rows) if (v != ref[q++]) same = false;
      if (!same) { w.bad("content", "replica " + std::to_string(i) + " holds " + std::to_string(rows.size()) + " rows, not the " + std::to_string(ref.size()) + " expected ones"); return; }
   }
   r.state("index_states", mix(fnv(w.label()), ref.size()));
   net.finish();
}
} // namespace
extern const Scenario sc_c18;
const Scenario sc_c18{ "C18", gen_c18, run_c18, nullptr };
