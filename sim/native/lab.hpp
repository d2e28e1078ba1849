// Native values next to the model: what decoding, encoding and printing of a catalogued type must give.
#pragma once
#include "../world.hpp"
#include "types.hpp"

namespace nat {
inline std::string show_r(const api::R& r) { return r.ok ? "success " + show(r.out) : "error " + show(r.err); }
struct Lab {
   Run& run;
   bool reuse = false; // every type also has one object that all of its values are decoded into, one after another
   std::map<const Entry*, ObjPtr> kept;
   explicit Lab(Run& r) : run(r) {}
   bool fail(const std::string& cls, const Entry& e, const std::string& msg) {
      run.fail(cls + ":" + e.name, std::string(e.name) + ": " + msg);
      return false;
   }
   struct Got {
      ObjPtr        obj;
      api::R        r;
      size_t        consumed = 0;
      model::Recode m{ model::unk, {}, 0, true };
   };
   // one decoding, judged by the model. false: the run has failed. A heavy one is not tried.
   bool decode(const Entry& e, std::string_view data, Got& g, bool deep = true) {
      auto* t = type(e);
      g.m     = model::recode(t, data);
      if (g.m.heavy) { run.add("probe.heavy_skipped"); return true; }
      uint64_t live = rt::live_count;
      for (int rep = 0; rep < 6; ++rep) {
         g.obj = e.decode(data, g.r, g.consumed);
         if (g.obj) break;
         if (rt::live_count <= live) break;
         if (rep == 5) return fail("leak-on-failure", e, "every refused decoding leaves more memory allocated, data " + show(data));
         live = rt::live_count;
      }
      run.ev(std::string("d ") + e.name + (g.r.ok ? " ok " : " err ") + std::to_string(g.consumed) + " " + g.r.err);
      if (!g.r.ok) run.add("fault.rejected_data");
      if (!g.r.ok && g.r.err.empty()) return fail("error-without-reason", e, "refused " + show(data) + " without a reason");
      if (g.r.err == "(position outside of the data)") return fail("read-outside", e, "the position after decoding " + show(data) + " is outside of the data");
      if (g.m.t == model::bad && g.r.ok) return fail("accepted-invalid", e, "decoded " + show(data) + " (" + std::to_string(data.size()) + " bytes), which holds no complete value");
      if (g.m.t == model::ok && !g.r.ok) return fail("refused-valid", e, "refused " + show(data) + ": " + g.r.err);
      if (g.m.t == model::ok && g.consumed != g.m.consumed) return fail("consumed", e, "took " + std::to_string(g.consumed) + " bytes of " + show(data) + ", the value has " + std::to_string(g.m.consumed));
      if (reuse && !into_kept(e, data, g)) return false;
      if (!g.r.ok || !deep) return true;
      return same_value(e, *g.obj, g.m);
   }
   bool into_kept(const Entry& e, std::string_view data, const Got& g) {
      auto&  k = kept[&e];
      size_t used = 0;
      if (!k) {
         api::R r;
         k = e.decode(data, r, used);
         return true;
      }
      auto r = k->again(data, used);
      run.add("probe.reused_objects");
      if (r.ok != g.r.ok || r.err != g.r.err || (r.ok && used != g.consumed))
         return fail("used-object", e, "decoding " + show(data) + " into an object that held another value: " + show_r(r) + ", into a fresh one: " + show_r(g.r));
      if (!r.ok) return true;
      auto a = k->emit(BIN, CONVERT, 0), b = g.obj->emit(BIN, CONVERT, 0);
      if (a.bytes != b.bytes) return fail("used-object", e, "decoding " + show(data) + " into an object that held another value gives " + show(a.bytes) + ", into a fresh one " + show(b.bytes));
      return true;
   }
   // the value encodes and prints as the model's
   bool same_value(const Entry& e, const Obj& o, const model::Recode& m) {
      auto b = o.emit(BIN, CONVERT, 0);
      run.ev("b " + std::to_string(fnv(b.bytes)));
      if (!b.ok) return fail("encode-failed", e, "a decoded value does not encode: " + b.err);
      if (m.t == model::ok && b.bytes != m.bin) return fail("wrong-value", e, "decoded to a value which encodes to " + show(b.bytes) + ", expected " + show(m.bin));
      if (!(e.caps & cJ) || m.t != model::ok) return true;
      auto w = model::bin_to_json(type(e), m.bin);
      if (w.t == model::unk) return true;
      auto j = o.emit(JSON, CONVERT, 0);
      run.ev("j " + std::to_string(fnv(j.bytes)) + j.err);
      if (w.t == model::bad) {
         if (j.ok) return fail("accepted-invalid", e, "printed " + show(j.bytes) + " for a value without a JSON form");
         return true;
      }
      if (!j.ok) return fail("encode-failed", e, "a decoded value does not print: " + j.err);
      if (!w.e.match(j.bytes)) return fail("wrong-value", e, "prints as " + show(j.bytes, 400) + ", expected " + show(w.e.text(), 400));
      return true;
   }
};
// ---- generation
inline const Entry& some_entry(Rng& r, unsigned need = 0) {
   auto& v = entries();
   for (;;) {
      auto& e    = v[r.below(v.size())];
      bool  ship = !strncmp(e.name, "ship.", 5);
      if (ship && r.chance(45)) continue; // there are many of them
      if ((e.caps & need) == need) return e;
   }
}
inline gen::ValOpt some_opt(Rng& r) {
   gen::ValOpt o;
   o.depth = int(r.range(1, 4));
   o.array = int(r.range(1, 5));
   if (r.chance(10)) o.text = 200;
   return o;
}
inline std::string some_value(Rng& r, const Entry& e, model::JV* out = nullptr, size_t max = 6000) {
   std::string best;
   for (int i = 0; i < 6; ++i) {
      auto        o = some_opt(r);
      model::JV   j;
      std::string b;
      gen::value(r, type(e), j, b, o);
      if (out) *out = j;
      if (b.size() <= max) return b;
      best = b;
   }
   return best;
}
} // namespace nat
