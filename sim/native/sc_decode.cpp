// C07: a decoder on the receiving end of an unreliable byte stream.
#include "lab.hpp"

namespace {
using namespace nat;
Plan gen_c07(Rng& r, const Tier& tier) {
   Plan p;
   auto cuts = [&](Op& o, size_t n) {
      if (n < 40 || r.chance(20)) o.u("from", 0).u("step", 1).u("sweep", 400);
      else { uint64_t s = r.range(1, n / 20 + 1); o.u("from", r.below(s + 1)).u("step", s).u("sweep", 40); }
   };
   int n = int(r.range(2, tier.thorough ? 14 : 7));
   for (int i = 0; i < n; ++i) {
      switch (r.below(4)) {
         case 0: { // types of an ABI
            Book b = wgen::book(r);
            bool json = r.coin();
            p.ops.push_back(Op("xload").i("c", i).s("fmt", json ? "json" : "bin").s("data", json ? model::abi_to_json(b.def) : model::abi_to_bin(b.def)));
            for (int k = 0; k < 4; ++k) {
               auto        type = r.pick(b.types);
               auto*       t    = b.abi->find(type, 0);
               if (!t) continue;
               model::JV   j;
               std::string bin;
               gen::ValOpt vo;
               gen::value(r, t, j, bin, vo);
               Op o("xb2j");
               o.i("c", i).s("type", type);
               if (r.chance(50)) bin = r.coin() ? gen::damage(r, bin) : gen::damage_marks(r, t, bin);
               if (r.chance(30)) bin += gen::raw_bytes(r, r.range(1, 6));
               cuts(o, bin.size());
               o.s("data", bin);
               p.ops.push_back(o);
            }
            break;
         }
         case 1: case 2: {
            auto& e = some_entry(r);
            auto  b = some_value(r, e, nullptr, 3000);
            Op    o("nat");
            if (r.chance(50)) b = r.coin() ? gen::damage(r, b) : gen::damage_marks(r, type(e), b);
            if (r.chance(30)) b += gen::raw_bytes(r, r.range(1, 6));
            cuts(o, b.size());
            o.s("e", e.name).s("data", b);
            if (r.chance(40)) o.u("reuse", 1);
            if (r.chance(30)) o.u("fa", r.coin() ? 0 : r.below(10)).u("fr", r.coin() ? 1 : 1000000);
            p.ops.push_back(o);
            break;
         }
         default: {
            int    m = int(r.range(1, 8));
            size_t total = 0;
            for (int k = 0; k < m; ++k) {
               auto& e = some_entry(r);
               auto  b = some_value(r, e, nullptr, 800);
               if (r.chance(8)) { auto d = gen::damage_marks(r, type(e), b); auto m2 = model::recode(type(e), d); if (m2.t == model::ok && m2.consumed == d.size()) b = d; }
               total += b.size();
               p.ops.push_back(Op("msg").s("e", e.name).s("data", b));
            }
            bool   reuse = r.coin();
            bool resets = r.coin(), flips = r.chance(40);
            size_t mean = r.coin() ? 3 : total / 6 + 1;
            for (size_t got = 0; got < total;) {
               size_t k = r.range(1, mean * 2);
               got += k;
               p.ops.push_back(Op("recv").u("n", k).u("reuse", reuse));
               if (resets && r.chance(10)) p.ops.push_back(Op("reset"));
               if (flips && r.chance(8)) p.ops.push_back(Op("flip").u("at", r.below(30)).u("bit", r.below(8)));
               if (p.ops.size() > 300) break;
            }
            p.ops.push_back(Op("close"));
         }
      }
   }
   return p;
}
struct Stream {
   Lab& lab;
   std::vector<std::pair<const Entry*, std::string>> msgs;
   size_t      acked = 0, sent_pos = 0; // the sender: message, and position behind it
   std::string wire;                    // everything not yet delivered, from the first unacknowledged message on
   std::string buf;                     // received, not yet decoded
   uint64_t    decoded = 0;
   bool        corrupted = false;
   void connect() {
      buf.clear();
      wire.clear();
      for (size_t i = acked; i < msgs.size(); ++i) wire += msgs[i].second;
      corrupted = false;
   }
   bool recv(size_t n) {
      n = std::min(n, wire.size());
      buf += wire.substr(0, n);
      wire.erase(0, n);
      lab.run.add("fault.fragmentation");
      while (acked < msgs.size()) {
         auto&    e = *msgs[acked].first;
         Lab::Got g;
         if (!lab.decode(e, buf, g)) return false;
         if (g.m.heavy || !g.r.ok) break;
         if (!corrupted && g.m.bin != model::recode(type(e), msgs[acked].second).bin) return lab.fail("stream", e, "message " + std::to_string(acked) + " arrived as another value");
         if (g.consumed > buf.size()) return lab.fail("consumed", e, "more than there is");
         buf.erase(0, g.consumed);
         ++acked;
         ++decoded;
      }
      if (corrupted && wire.empty()) { lab.run.add("probe.resync"); connect(); }
      return true;
   }
};
void run_c07(const Plan& p, Run& r) {
   World w(r);
   Lab   lab(r);
   Stream s{ lab };
   bool   open = false;
   for (auto& o : p.ops) {
      if (r.failed) return;
      auto& n = o.name;
      lab.reuse = o.unum("reuse");
      uint64_t from = o.unum("from"), step = std::max<uint64_t>(1, o.unum("step")), sweep = o.unum("sweep");
      if (n == "xload") { if (!w.exec(o)) return; continue; }
      if (n == "xb2j") {
         if (!w.exec(o)) return;
         for (uint64_t k = 0; k < sweep && from + k * step < o.str("data").size(); ++k) {
            Op c = o;
            c.s("data", o.str("data").substr(0, from + k * step));
            r.add("fault.truncation");
            r.state("cut_points", mix(fnv(o.str("type")), from + k * step));
            if (!w.exec(c)) return;
         }
         continue;
      }
      if (n == "nat" || n == "msg") {
         auto* e = find(o.str("e"));
         if (!e) continue;
         note_phase(n + " " + World::brief(o));
         if (n == "msg") { if (open) { s.msgs.clear(); s.acked = 0; open = false; } s.msgs.push_back({ e, o.str("data") }); continue; }
         Lab::Got g;
         if (!lab.decode(*e, o.str("data"), g)) return;
         if (g.m.heavy) continue;
         for (uint64_t k = 0; k < sweep && from + k * step < o.str("data").size(); ++k) {
            Lab::Got c;
            r.add("fault.truncation");
            r.state("cut_points", mix(fnv(e->name), from + k * step));
            if (!lab.decode(*e, std::string_view(o.str("data")).substr(0, from + k * step), c)) return;
         }
         if (o.has("fa") && g.r.ok) { // memory runs out while decoding
            for (uint64_t k = 0; k < 30; ++k) {
               api::R x; size_t used = 0;
               rt::arm(o.unum("fa") + k, o.unum("fr", 1));
               auto q = e->decode(o.str("data"), x, used);
               bool hit = rt::ts.fired;
               rt::disarm();
               if (!hit) break;
               r.add("fault.allocation_failure");
               r.ev("oom " + x.err);
               if (q) { if (!lab.same_value(*e, *q, g.m)) return; }
               else if (x.err.empty()) { lab.fail("error-without-reason", *e, "allocation failure"); return; }
            }
            Lab::Got again;
            if (!lab.decode(*e, o.str("data"), again)) return;
         }
         continue;
      }
      if (!open) { s.connect(); open = true; }
      if (n == "recv" && !s.recv(o.unum("n"))) return;
      if (n == "reset") { r.add("fault.connection_reset"); s.connect(); }
      if (n == "flip" && !s.wire.empty()) { r.add("fault.bit_flip"); s.wire[o.unum("at") % s.wire.size()] ^= char(1 << (o.unum("bit") & 7)); s.corrupted = true; }
      if (n == "close") {
         for (int i = 0; i < 3 && s.acked < s.msgs.size(); ++i) { s.connect(); if (!s.recv(~size_t(0) >> 1)) return; }
         bool heavy = false;
         for (auto& m : s.msgs) if (model::recode(type(*m.first), m.second).t != model::ok) heavy = true;
         if (!heavy && s.acked < s.msgs.size()) { lab.fail("stream", *s.msgs[s.acked].first, "never decoded from an intact connection"); return; }
         r.add("probe.stream_messages", s.decoded);
         s.msgs.clear();
         s.acked = 0;
         open = false;
      }
   }
   w.close();
}
} // namespace
extern const Scenario sc_c07;
const Scenario sc_c07{ "C07", gen_c07, run_c07, nullptr };
