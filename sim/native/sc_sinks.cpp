// C11: encoders writing into sinks which fill up, fail, or run out of memory.
#include "lab.hpp"

namespace {
using namespace nat;
const char* what_name[] = { "bin", "json", "pretty", "key" };
Plan gen_c11(Rng& r, const Tier& tier) {
   Plan p;
   int  n = int(r.range(2, tier.thorough ? 12 : 6));
   for (int i = 0; i < n; ++i) {
      if (r.chance(25)) { // a log of records in segments of bounded size, torn by crashes
         p.ops.push_back(Op("open").u("cap", r.chance(50) ? r.range(1, 80) : r.range(80, 2000)));
         for (int k = 0, m = int(r.range(1, 14)); k < m; ++k) {
            auto& e = some_entry(r);
            Op    o("rec");
            o.s("e", e.name).s("data", some_value(r, e, nullptr, 700));
            p.ops.push_back(o);
            if (r.chance(15)) p.ops.push_back(Op("crash").u("keep", r.below(400)));
         }
         p.ops.push_back(Op("read"));
         continue;
      }
      auto& e = some_entry(r);
      auto  b = some_value(r, e, nullptr, 1500);
      Op    o("emit");
      o.s("e", e.name).s("data", b);
      if (b.size() < 25 || r.chance(25)) o.u("from", 0).u("step", 1).u("sweep", 120);
      else { uint64_t s = r.range(1, b.size() / 12 + 1); o.u("from", r.below(2 * s)).u("step", s).u("sweep", 30); }
      if (r.chance(40)) o.u("fa", r.coin() ? 0 : r.below(20)).u("fr", r.coin() ? 1 : 1000000);
      p.ops.push_back(o);
   }
   return p;
}
// the layout of pretty printing, from the compact form
std::string pretty(const std::string& c) {
   std::string o;
   int         ind = 0;
   auto        nl  = [&] { o += '\n'; o.append(size_t(ind) * 4, ' '); };
   for (size_t i = 0; i < c.size(); ++i) {
      char ch = c[i];
      if (ch == '"') {
         o += ch;
         for (++i; i < c.size(); ++i) {
            o += c[i];
            if (c[i] == '\\' && i + 1 < c.size()) o += c[++i];
            else if (c[i] == '"') break;
         }
      } else if (ch == '[' || ch == '{') {
         o += ch;
         if (i + 1 < c.size() && (c[i + 1] == ']' || c[i + 1] == '}')) { o += c[++i]; continue; }
         ++ind;
         nl();
      } else if (ch == ']' || ch == '}') { --ind; nl(); o += ch; }
      else if (ch == ',') { o += ch; nl(); }
      else if (ch == ':') o += ": ";
      else o += ch;
   }
   return o;
}
bool emit(Lab& lab, const Op& o, Run& r) {
   auto* e = find(o.str("e"));
   if (!e) return true;
   Lab::Got g;
   if (!lab.decode(*e, o.str("data"), g)) return false;
   if (!g.obj || g.m.heavy || g.m.t != model::ok) return true;
   auto&    x    = *g.obj;
   uint64_t from = o.unum("from"), step = std::max<uint64_t>(1, o.unum("step")), sweep = o.unum("sweep");
   bool     lite = e->caps & cLite;
   for (int wi = 0; wi < 4; ++wi) {
      What w = What(wi);
      if ((w == JSON || w == PRETTY) && !(e->caps & cJ)) continue;
      if (w == KEY && !(e->caps & cK)) continue;
      auto ref  = x.emit(w, CONVERT, 0);
      auto fail = [&](const std::string& cls, const std::string& m) { return lab.fail(cls + "-" + what_name[wi], *e, std::string(what_name[wi]) + " of " + show(o.str("data")) + ": " + m); };
      r.ev(std::string(what_name[wi]) + " " + std::to_string(fnv(ref.bytes)) + ref.err);
      if (w == JSON && !ref.ok) { // a value without a JSON form
         if (ref.err.empty()) return fail("no-reason", "failed without a reason");
         continue;
      }
      if (w == PRETTY && !ref.ok) { if (x.emit(JSON, CONVERT, 0).ok) return fail("sink-differs", "failed: " + ref.err); continue; }
      if (!ref.ok) return fail("encode-failed", ref.err);
      auto& full = ref.bytes;
      if (w == PRETTY) { auto c = pretty(x.emit(JSON, CONVERT, 0).bytes); if (c != full) return fail("layout", "formatted as " + show(full, 500) + ", expected " + show(c, 500)); }
      auto size = x.emit(w, SIZE, 0);
      if (!size.ok || size.size != full.size()) return fail("size-differs", "the size of the output is " + std::to_string(full.size()) + ", the size sink counted " + std::to_string(size.size) + " " + size.err);
      if (!lite || w == BIN) {
         auto v = x.emit(w, VECTOR, 0);
         if (!v.ok || !v.clean || v.bytes != full) return fail("sink-differs", "a vector sink got " + show(v.bytes) + " " + v.err + ", otherwise " + show(full));
      }
      auto bounded = [&](Sink k, uint64_t limit) {
         auto        f    = x.emit(w, k, limit);
         const char* kind = k == FIXED ? "a sink of " : "a caller's sink of ";
         r.state("full_sinks", mix(mix(fnv(e->name), wi * 2 + (k == OWN)), limit));
         r.ev(std::to_string(limit) + f.err + std::to_string(fnv(f.bytes)));
         if (!f.clean) return fail("wrote-outside", kind + std::to_string(limit) + " bytes: memory outside of it was written");
         if (limit >= full.size()) {
            if (!f.ok || f.bytes != full) return fail("sink-differs", kind + std::to_string(limit) + " bytes got " + show(f.bytes) + " " + f.err + ", otherwise " + show(full));
            return true;
         }
         r.add(k == FIXED ? "fault.sink_full" : "fault.sink_refused");
         if (f.ok) return fail("overrun-ignored", kind + std::to_string(limit) + " bytes took " + std::to_string(full.size()));
         if (k == OWN ? f.err != "the sink is full" : f.err != "Stream overrun") return fail("overrun-reason", kind + std::to_string(limit) + " bytes: " + show(f.err));
         if (f.bytes != full.substr(0, f.bytes.size())) return fail("overrun-content", kind + std::to_string(limit) + " bytes holds " + show(f.bytes) + ", which does not begin " + show(full));
         return true;
      };
      bool own = !(lite && w == PRETTY);
      for (uint64_t q = 0; q < sweep; ++q) {
         uint64_t l = from + q * step;
         if (l > full.size() + 1) break;
         if (!bounded(FIXED, l)) return false;
         if (own && q < 40 && !bounded(OWN, l)) return false;
      }
      if (!bounded(FIXED, full.size()) || (full.size() && !bounded(FIXED, full.size() - 1)) || (own && !bounded(OWN, full.size()))) return false;
      if (o.has("fa")) for (uint64_t k = 0; k < 12; ++k) {
         Sink kind = k & 1 && (!lite || w == BIN) ? VECTOR : CONVERT;
         rt::arm(o.unum("fa") + k / 2, o.unum("fr", 1));
         auto f   = x.emit(w, kind, 0);
         bool hit = rt::ts.fired;
         rt::disarm();
         if (!hit) { if (k & 1) break; else continue; }
         r.add("fault.allocation_failure");
         r.ev("oom " + f.err);
         if (f.ok ? f.bytes != full : f.err.empty()) return fail("oom", "with a failing allocation: " + (f.ok ? show(f.bytes) + " instead of " + show(full) : "no reason"));
         auto again = x.emit(w, CONVERT, 0);
         if (again.bytes != full) return fail("oom", "after a failed allocation " + show(again.bytes) + ", before " + show(full));
      }
   }
   return true;
}
struct Log { // segments of bounded size, each a fixed sink
   uint64_t                                          cap = 0;
   std::vector<std::string>                          seg{ "" };
   std::vector<std::pair<const Entry*, std::string>> recs; // as they should be in the log
   std::vector<size_t>                               in;   // segment of each
};
void run_c11(const Plan& p, Run& r) {
   Lab lab(r);
   Log log;
   for (auto& o : p.ops) {
      if (r.failed) return;
      note_phase(o.name + " " + World::brief(o));
      if (o.name == "emit" && !emit(lab, o, r)) return;
      if (o.name == "open") { log = Log{}; log.cap = o.unum("cap"); }
      if (o.name == "rec") {
         auto* e = find(o.str("e"));
         if (!e) continue;
         Lab::Got g;
         if (!lab.decode(*e, o.str("data"), g)) return;
         if (!g.obj || g.m.t != model::ok) continue;
         for (int tries = 0;; ++tries) {
            auto& s = log.seg.back();
            auto  f = g.obj->emit(BIN, FIXED, log.cap - s.size());
            r.ev("rec " + f.err + std::to_string(f.size));
            if (!f.clean) { lab.fail("wrote-outside", *e, "writing into the rest of a segment"); return; }
            if (f.ok) { s += f.bytes; log.recs.push_back({ e, g.m.bin }); log.in.push_back(log.seg.size()); break; }
            r.add("fault.sink_full");
            if (g.m.bin.size() <= log.cap - s.size()) { lab.fail("refused-valid", *e, std::to_string(g.m.bin.size()) + " bytes into " + std::to_string(log.cap - s.size()) + ": " + f.err); return; }
            if (s.empty()) break; // larger than a segment
            log.seg.push_back("");
            if (tries > 2) break;
         }
      }
      if (o.name == "crash" || o.name == "read") {
         if (o.name == "crash") { // the end of the last segment did not reach the disk
            auto& s = log.seg.back();
            s.resize(std::min<size_t>(s.size(), o.unum("keep")));
            r.add("fault.torn_log");
         }
         // recovery reads as many records as are complete
         std::vector<std::pair<const Entry*, std::string>> got;
         std::vector<size_t>                               in;
         for (size_t s = 0, k = 0; s < log.seg.size(); ++s) {
            std::string_view d = log.seg[s];
            size_t           at = 0;
            while (k < log.recs.size() && log.in[k] == s + 1) {
               Lab::Got g;
               if (!lab.decode(*log.recs[k].first, d.substr(at), g)) return;
               if (g.m.t == model::unk) break;
               if (!g.r.ok) {
                  if (s + 1 != log.seg.size() || o.name == "read") { lab.fail("log", *log.recs[k].first, "record " + std::to_string(k) + " is not readable: " + g.r.err); return; }
                  break;
               }
               if (g.m.bin != log.recs[k].second) { lab.fail("log", *log.recs[k].first, "record " + std::to_string(k) + " reads " + show(g.m.bin) + ", written was " + show(log.recs[k].second)); return; }
               got.push_back(log.recs[k]);
               in.push_back(log.in[k]);
               at += g.consumed;
               ++k;
            }
            if (s + 1 == log.seg.size()) log.seg[s].resize(at);
         }
         r.add("probe.records_recovered", got.size());
         log.recs = got;
         log.in   = in;
      }
   }
}
} // namespace
extern const Scenario sc_c11;
const Scenario sc_c11{ "C11", gen_c11, run_c11, nullptr };
