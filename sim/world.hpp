// Executes plan operations on real contexts next to a reference model of what they must contain, and checks after
// every step. A plan line carries all of its data, so that a run is a function of its plan.
#pragma once
#include "api.hpp"
#include "gen.hpp"
#include "rt.hpp"
#include "sim.hpp"

void note_phase(const std::string&);

struct World {
   struct Con {
      std::string                 fmt, data;
      std::shared_ptr<model::Abi> abi; // null: loaded, but the model has no opinion about its content
      std::vector<std::pair<const char*, std::string>> kept; // type names handed out, owned by the contract
   };
   struct C {
      api::Ctx*               c = nullptr;
      std::map<uint64_t, Con> con;
      std::string             bin;
      const char*             held = nullptr; // last string handed out, owned by the context
      std::string             held_text;
   };
   struct Want {
      model::Tri    t = model::unk;
      bool          has_out = false;
      std::string   out;
      bool          has_e = false;
      model::Expect e;
      std::string   err; // exact text, when not empty
      bool          skip = false; // known finding: arrays of elements without content
   };
   struct X { // an ABI used through the C++ interface
      api::AbiPtr                 a;
      std::shared_ptr<model::Abi> abi;
   };
   Run&             run;
   std::map<int, C> ctx;
   std::map<int, X> slots;
   bool             model_results = true; // judge results with the model (off: only crash, twin and state checks)
   bool             allow_twin    = true;
   uint64_t         nops          = 0;
   explicit World(Run& r) : run(r) {}
   ~World() { close(); }
   World(const World&) = delete;

   void close() {
      for (auto& [_, c] : ctx) if (c.c) api::destroy(c.c);
      ctx.clear();
      slots.clear();
   }
   bool fail(const std::string& cls, const Op& o, const std::string& msg) {
      run.fail(cls + ":" + o.name, o.name + " " + brief(o) + ": " + msg);
      return false;
   }
   static std::string brief(const Op& o) {
      std::string s;
      for (auto& [k, v] : o.a) {
         if (k == "con" || (k == "n")) s += k + "=" + model::name_text(strtoull(v.c_str(), nullptr, 10)) + " ";
         else s += k + "=" + (v.size() < 12 && v.find_first_not_of("0123456789-") == v.npos ? v : show(v, 120)) + " ";
      }
      return s;
   }
   static std::string show_r(const api::R& r) { return r.ok ? "success " + show(r.out) : "error " + show(r.err); }

   C* get(int id) {
      auto it = ctx.find(id);
      return it == ctx.end() || !it->second.c ? nullptr : &it->second;
   }

   // ------------------------------------------------------------------------------------------ what must hold always
   bool audit(C& c, const Op& o) {
      const char* p;
      std::string b = api::bin_data(c.c, &p);
      if (b != c.bin) return fail("binary-result-changed", o, "the generated binary was " + show(c.bin) + " and is now " + show(b));
      if (api::bin_size(c.c) != int(c.bin.size())) return fail("binary-result-changed", o, "size of generated binary");
      for (auto& [n, k] : c.con)
         for (auto& [q, t] : k.kept)
            if (t != q) return fail("kept-type-changed", o, "type name handed out for contract " + model::name_text(n) + " was " + show(t) + " and is now " + show(q));
      return true;
   }
   bool check_held(C& c, const Op& o) {
      if (c.held && c.held_text != c.held) return fail("held-result-changed", o, "before this call on its context, a result was changed from " + show(c.held_text) + " to " + show(c.held));
      c.held = nullptr;
      return true;
   }
   void hold(C& c, const api::R& r, bool text) {
      if (r.ok ? text : true) { c.held = r.p; c.held_text = r.ok ? r.out : r.err; }
      else c.held = nullptr;
   }

   // ------------------------------------------------------------------------------------------ model answers
   static model::Tri unhex(const std::string& t, std::string& out) {
      std::string s = t.substr(0, t.find('\0'));
      for (char ch : s) if (!isxdigit((unsigned char)ch)) return s.size() & 1 ? model::bad : model::bad;
      if (s.size() & 1) return model::bad;
      for (size_t i = 0; i < s.size(); i += 2) out += char(strtol(s.substr(i, 2).c_str(), nullptr, 16));
      return model::ok;
   }
   static Want want_load(const std::string& fmt, const std::string& data, bool null, std::shared_ptr<model::Abi>& abi) {
      using namespace model;
      Want   w;
      AbiDef d;
      if (fmt == "json") w.t = null ? bad : parse_abi_json(data, d);
      else if (fmt != "hex") {
         if (null || data.empty()) { w.t = bad; w.err = "no data"; }
         else w.t = parse_abi_bin(data, d);
      } else {
         std::string raw;
         w.t = null ? bad : unhex(data, raw);
         if (!null && w.t == bad) w.err = "expected hex string";
         else if (null || raw.empty()) { w.t = bad; w.err = "no data"; }
         else w.t = parse_abi_bin(raw, d);
      }
      if (w.t != ok) return w;
      auto a = std::make_shared<Abi>();
      w.t    = a->build(d);
      if (w.t == ok) abi = a;
      return w;
   }
   // is the type known in this ABI? null with ok: no opinion
   static model::Tri find_type(Con& k, const std::string& type, const model::Type*& t) {
      t = nullptr;
      if (!k.abi) return model::unk;
      std::string s = type.substr(0, type.find('\0'));
      int suffixes = 0;
      for (char ch : s) if (ch == '?' || ch == '$' || ch == ']') ++suffixes;
      k.abi->deep = false;
      t = k.abi->find(s, 0);
      if (k.abi->deep || suffixes > 20) { t = nullptr; return model::unk; }
      return t ? model::ok : model::bad;
   }
   Want want(C* c, const Op& o) {
      using namespace model;
      Want        w;
      uint64_t    con  = o.unum("con");
      bool        null = o.num("null");
      const auto &nm = o.name;
      if (!c) { w.t = bad; w.err = "context is null"; return w; }
      if (nm == "hex") { w.t = ok; w.has_out = true; w.out = tohex(c->bin); return w; }
      if (nm == "n2s") { w.t = ok; w.has_out = true; w.out = name_text(o.unum("n")); return w; }
      auto not_loaded = [&] { w.t = bad; w.err = "contract \"" + name_text(con) + "\" is not loaded"; };
      auto it = c->con.find(con);
      std::string data = o.str("data");
      if (nm == "h2j") {
         std::string raw;
         Tri         t = null ? ok : unhex(data, raw);
         if (t != ok) { w.t = t; if (t == bad) w.err = "expected hex string"; return w; }
         data = raw;
      }
      if (it == c->con.end()) { not_loaded(); return w; }
      Con& k = it->second;
      if (nm == "act" || nm == "tab") {
         if (!k.abi || k.abi->names_unknown) return w;
         auto& m = nm == "act" ? k.abi->actions : k.abi->tables;
         auto  f = m.find(o.unum("n"));
         if (f == m.end()) {
            w.t   = bad;
            w.err = "contract \"" + name_text(con) + "\" does not have " + (nm == "act" ? "action" : "table") + " \"" + name_text(o.unum("n")) + "\"";
         } else { w.t = ok; w.has_out = true; w.out = f->second.substr(0, f->second.find('\0')); } // handed out as a C string
         return w;
      }
      const Type* t;
      Tri         f = find_type(k, null && nm == "j2b" ? std::string() : o.str("type"), t);
      if (f != ok) { w.t = f; return w; }
      if (nm == "j2b") {
         if (null) data.clear();
         auto j = json_to_bin(t, data, o.num("ord"));
         w.t    = j.t;
         if (j.t == ok || j.maybe) { w.has_out = true; w.out = j.bin; }
      } else {
         if (null) data.clear();
         auto j = bin_to_json(t, data);
         w.t    = j.t;
         w.skip = j.zero_width;
         if (j.t == ok) { w.has_e = true; w.e = j.e; }
      }
      return w;
   }
   static bool load_op(const std::string& n) { return n == "load"; }
   api::R call(api::Ctx* c, const Op& o, const char** keep = nullptr) {
      uint64_t con  = o.unum("con");
      bool     null = o.num("null");
      auto&    n    = o.name;
      if (n == "load") {
         auto& f = o.str("fmt");
         return f == "json" ? api::set_abi(c, con, o.str("data"), null) : f == "hex" ? api::set_abi_hex(c, con, o.str("data"), null) : api::set_abi_bin(c, con, o.str("data"), null);
      }
      if (n == "j2b") return api::json_to_bin(c, con, o.str("type"), o.str("data"), o.num("ord"), null);
      if (n == "b2j") return api::bin_to_json(c, con, o.str("type"), o.str("data"), null);
      if (n == "h2j") return api::hex_to_json(c, con, o.str("type"), o.str("data"), null);
      if (n == "act") return api::type_for_action(c, con, o.unum("n"), keep);
      if (n == "tab") return api::type_for_table(c, con, o.unum("n"), keep);
      if (n == "n2s") return api::name_to_string(c, o.unum("n"));
      return api::bin_hex(c);
   }

   // ------------------------------------------------------------------------------------------ one step
   api::R last;
   uint64_t last_fired = 0;
   bool exec(const Op& o) {
      if (run.failed) return false;
      ++nops;
      auto& n  = o.name;
      int   id = int(o.num("c"));
      last       = {};
      last_fired = 0;
      note_phase(n + " " + brief(o));
      bool faulty = o.has("fa");
      auto arm    = [&] { if (faulty) rt::arm(o.unum("fa"), o.has("fr") ? o.unum("fr") : 1); };
      auto disarm = [&] {
         if (!faulty) return;
         last_fired = rt::ts.fired;
         rt::disarm();
         run.add("fault.allocation_failure", last_fired);
      };
      if (n == "new") {
         if (id < 0 || get(id)) return true;
         arm();
         auto* c = api::create();
         disarm();
         if (!c && !last_fired) return fail("create-failed", o, "no context");
         run.ev(std::string("new ") + (c ? "ok" : "null"));
         if (c) ctx[id].c = c;
         return true;
      }
      if (n == "del") {
         C* c = get(id);
         if (!c) return true;
         if (!check_held(*c, o)) return false;
         api::destroy(c->c);
         ctx.erase(id);
         run.ev("del");
         return true;
      }
      if (n == "s2n") {
         C* c = get(id);
         if (id >= 0 && !c) return true;
         uint64_t v = api::string_to_name(c ? c->c : nullptr, o.str("data"), o.num("null"));
         uint64_t w = model::name_loose(o.num("null") ? std::string() : o.str("data").substr(0, o.str("data").find('\0')));
         run.ev("s2n " + std::to_string(v));
         if (v != w) return fail("wrong-name", o, "got " + std::to_string(v) + ", expected " + std::to_string(w));
         return true;
      }
      if (n[0] == 'x') return exec_cxx(o);
      C* c = nullptr;
      if (id < 0) run.add("fault.null_context");
      else if (!(c = get(id))) return true; // context does not exist in this (possibly minimised) plan
      if (o.num("null")) run.add("fault.null_argument");

      std::shared_ptr<model::Abi> abi;
      Want w = c && load_op(n) ? want_load(o.str("fmt"), o.str("data"), o.num("null"), abi) : want(c, o);
      if (w.skip) { run.add("probe.known_zone_skipped"); return true; }
      if (c && !check_held(*c, o)) return false;
      const char* keep = nullptr;
      arm();
      api::R g = call(c ? c->c : nullptr, o, &keep);
      disarm();
      last = g;
      run.ev(n + (g.ok ? " ok " : " err ") + std::to_string(fnv(g.out)) + " " + g.err);
      if (!g.ok && g.err.empty()) return fail("error-without-reason", o, "failed but left no error text");
      if (!c) {
         if (g.ok) return fail("null-context-accepted", o, show_r(g));
         if (g.err != "context is null") return fail("wrong-error", o, "null context reported as " + show(g.err));
         return true;
      }
      bool hit = last_fired > 0;
      // state first: what a failed call may have changed
      if (n == "load") {
         if (g.ok) {
            Con& k = c->con[o.unum("con")];
            k      = Con{ o.str("fmt"), o.str("data"), w.t == model::ok ? abi : nullptr, {} };
            if (w.t == model::unk) run.add("probe.load_unspecified");
            run.add("probe.load_ok");
         } else run.add(hit ? "probe.load_oom" : "fault.rejected_abi");
      }
      if (n == "j2b") {
         if (g.ok) c->bin = g.out;
         else {
            std::string b = api::bin_data(c->c);
            if (b != c->bin && !b.empty()) return fail("binary-result-changed", o, "a failed conversion left " + show(b) + ", previous result " + show(c->bin));
            c->bin = b;
         }
      }
      if ((n == "act" || n == "tab") && g.ok && keep) { auto& kp = c->con[o.unum("con")].kept; if (kp.size() < 8) kp.push_back({ keep, g.out }); }
      hold(*c, g, n == "b2j" || n == "h2j" || n == "n2s" || n == "hex");
      // result
      if (!(hit && !g.ok)) {
         if (!judge(o, g, w)) return false;
      } else run.add("probe.call_oom");
      if (allow_twin && o.num("tw") && !hit && !twin(*c, o, g)) return false;
      return audit(*c, o);
   }
   // the C++ interface: xload, xdel, xj2b, xb2j
   bool exec_cxx(const Op& o) {
      using namespace model;
      auto& n  = o.name;
      int   id = int(o.num("c"));
      bool faulty = o.has("fa");
      auto arm    = [&] { if (faulty) rt::arm(o.unum("fa"), o.has("fr") ? o.unum("fr") : 1); };
      auto disarm = [&] {
         if (!faulty) return;
         last_fired = rt::ts.fired;
         rt::disarm();
         run.add("fault.allocation_failure", last_fired);
      };
      if (n == "xdel") { slots.erase(id); run.ev(n); return true; }
      api::R g;
      Want   w;
      if (n == "xload") {
         std::shared_ptr<Abi> m;
         bool json = o.str("fmt") == "json";
         w = want_load(json ? "json" : "bin", o.str("data"), false, m);
         w.err.clear();
         api::AbiPtr a;
         arm();
         g = json ? api::abi_load_json(o.str("data"), a) : api::abi_load_bin(o.str("data"), a);
         disarm();
         if (g.ok) { auto& x = slots[id]; x.a = std::move(a); x.abi = w.t == ok ? m : nullptr; }
      } else {
         auto it = slots.find(id);
         if (it == slots.end()) return true;
         const Type* t = nullptr;
         Con k;
         k.abi = it->second.abi;
         Tri f = find_type(k, o.str("type"), t);
         size_t consumed = ~size_t(0), want_consumed = ~size_t(0);
         if (f != ok) w.t = f;
         else if (n == "xj2b") {
            auto j = json_to_bin(t, o.str("data"), o.num("ord"));
            w.t = j.t;
            if (j.t == ok || j.maybe) { w.has_out = true; w.out = j.bin; }
         } else {
            auto j = bin_to_json(t, o.str("data"), false);
            if (j.zero_width) { run.add("probe.known_zone_skipped"); return true; }
            w.t = j.t;
            if (j.t == ok) { w.has_e = true; w.e = j.e; want_consumed = j.consumed; }
         }
         arm();
         if (n == "xj2b") g = api::cb_json_to_bin(*it->second.a, o.str("type"), o.str("data"), o.num("ord"), nullptr);
         else g = api::cb_bin_to_json(*it->second.a, o.str("type"), o.str("data"), consumed, nullptr);
         disarm();
         if (g.ok && w.t == ok && want_consumed != ~size_t(0) && consumed != want_consumed)
            return fail("wrong-result", o, "consumed " + std::to_string(consumed) + " bytes of " + std::to_string(o.str("data").size()) + ", the value has " + std::to_string(want_consumed));
      }
      last = g;
      run.ev(n + (g.ok ? " ok " : " err ") + std::to_string(fnv(g.out)) + " " + g.err);
      if (!g.ok && g.err.empty()) return fail("error-without-reason", o, "failed but left no error text");
      if (last_fired && !g.ok) { run.add("probe.call_oom"); return true; }
      return judge(o, g, w);
   }
   bool judge(const Op& o, const api::R& g, const Want& w) {
      auto& n = o.name;
      if (n != "load" && n != "xload" && !g.ok) run.add("fault.rejected_call");
      if (n != "load" && n != "xload" && g.ok) run.add("probe.call_ok");
      if (w.t == model::unk) run.add("probe.unspecified");
      if (model_results && w.t == model::unk && g.ok && w.has_out) { // nobody relies on it, but if so then it is this
         run.add("probe.tolerated");
         if (g.out != w.out) return fail("wrong-result", o, "got " + show(g.out) + ", expected " + show(w.out) + " or a refusal");
      }
      if (model_results && w.t != model::unk) {
         if (g.ok && w.t == model::bad) return fail("accepted-invalid", o, "accepted, must be refused; got " + show_r(g));
         if (!g.ok && w.t == model::ok) return fail("refused-valid", o, "refused a valid call: " + show(g.err) + (w.has_out ? ", expected " + show(w.out) : w.has_e ? ", expected " + show(w.e.text()) : ""));
         if (g.ok && w.has_out && g.out != w.out) return fail("wrong-result", o, "got " + show(g.out) + ", expected " + show(w.out));
         if (g.ok && w.has_e && !w.e.match(g.out)) return fail("wrong-result", o, "got " + show(g.out, 400) + ", expected " + show(w.e.text(), 400));
         if (!g.ok && !w.err.empty() && g.err != w.err) return fail("wrong-error", o, "reported " + show(g.err) + ", expected " + show(w.err));
      }
      return true;
   }
   // the same call in a context without any history
   bool twin(C& c, const Op& o, const api::R& g) {
      if (o.name == "hex") return true;
      api::Ctx* t = api::create();
      auto it = c.con.find(o.unum("con"));
      bool need = o.name != "load" && o.name != "n2s";
      bool good = true;
      if (need && it != c.con.end()) {
         Op l("load");
         l.u("con", o.unum("con")).s("fmt", it->second.fmt).s("data", it->second.data);
         auto r = call(t, l);
         if (!r.ok) good = fail("history-dependent-load", o, "the loaded abi is refused by a new context: " + show(r.err));
      }
      if (good) {
         auto r = call(t, o);
         run.add("probe.twin");
         if (!(r == g)) good = fail("history-dependent-result", o, "got " + show_r(g) + "; a context without history gives " + show_r(r));
      }
      api::destroy(t);
      return good;
   }
   uint64_t state() const {
      uint64_t h = 1;
      for (auto& [id, c] : ctx) {
         h = mix(h, id);
         for (auto& [n, k] : c.con) h = mix(mix(h, n), fnv(k.data));
         h = mix(h, fnv(c.bin));
         h = mix(h, fnv(c.held ? c.held_text : std::string()));
      }
      return h;
   }
};

// ---------------------------------------------------------------------------------------------- plan building blocks
struct Book { // what the generator knows about a contract it loads
   model::AbiDef               def;
   std::shared_ptr<model::Abi> abi;
   std::vector<std::string>    types;
};
namespace wgen {
inline Book book(Rng& r, bool unique_fields = false) {
   Book b;
   auto o  = gen::abi_style(r);
   o.unique_fields = unique_fields;
   b.def   = gen::good_abi(r, o, &b.abi);
   b.types = gen::type_names(b.def, r);
   return b;
}
inline std::string spell(Rng& r, const std::string& json) { // same JSON, other white space
   if (r.chance(60)) return json;
   model::JV v;
   if (model::parse_json(json, v) != model::ok) return json;
   std::string o;
   gen::TextStyle st;
   st.ws = true; st.escapes = r.coin();
   gen::write_json(o, v, r, st);
   return o;
}
inline Op load(Rng& r, int c, uint64_t con, const model::AbiDef& d, bool hurt = false) {
   Op          o("load");
   auto        f = r.below(3);
   std::string data;
   if (f == 0) { data = spell(r, model::abi_to_json(d)); if (hurt) data = gen::damage_text(r, data); }
   else {
      data = model::abi_to_bin(d, !d.variants.empty() || r.coin());
      if (hurt) data = gen::damage(r, data);
      if (f == 2) { data = tohex(data, r.coin()); if (hurt && r.chance(25)) data = gen::damage_text(r, data); }
   }
   o.i("c", c).u("con", con).s("fmt", f == 0 ? "json" : f == 1 ? "bin" : "hex").s("data", data);
   return o;
}
inline Op convert(Rng& r, int c, uint64_t con, Book& b, unsigned hurt_pct) {
   std::string type = r.pick(b.types);
   if (r.chance(3)) type = r.coin() ? "nosuch" : r.coin() ? "" : type + "[]?";
   const model::Type* t = b.abi->find(type, 0);
   gen::ValOpt vo;
   model::JV   j;
   std::string bin;
   if (t) gen::value(r, t, j, bin, vo);
   Op   o;
   bool hurt = r.chance(hurt_pct);
   auto harm = [&](const std::string& x) { return t && r.chance(40) ? gen::damage_marks(r, t, x) : gen::damage(r, x); };
   switch (r.below(3)) {
      case 0: {
         bool ord = r.coin();
         o = Op("j2b");
         if (ord && r.coin()) gen::shuffle_keys(r, j, r.coin());
         std::string text;
         gen::write_json(text, j, r, gen::style(r));
         if (hurt) text = gen::damage_text(r, text);
         o.i("ord", ord).s("data", text);
         break;
      }
      case 1: o = Op("b2j"); if (hurt) bin = harm(bin); o.s("data", bin); break;
      default: o = Op("h2j"); if (hurt) bin = harm(bin); bin = tohex(bin, r.coin()); if (hurt && r.chance(20)) bin = gen::damage_text(r, bin); o.s("data", bin);
   }
   o.i("c", c).u("con", con).s("type", type);
   return o;
}
inline Op lookup(Rng& r, int c, uint64_t con, const Book& b) {
   bool act = r.coin();
   auto& v  = act ? b.def.actions : b.def.tables;
   Op   o(act ? "act" : "tab");
   o.i("c", c).u("con", con).u("n", !v.empty() && r.chance(80) ? v[r.below(v.size())].first : gen::some_account(r));
   return o;
}
inline void null_something(Rng& r, Op& o) {
   auto& n = o.name;
   if (r.chance(40)) o.i("c", -1);
   else if (n != "act" && n != "tab" && n != "hex" && n != "n2s") o.i("null", 1);
}
inline Op small(Rng& r, int c) {
   switch (r.below(3)) {
      case 0: return Op("n2s").i("c", c).u("n", r.coin() ? gen::some_account(r) : r.next());
      case 1: return Op("s2n").i("c", c).s("data", r.coin() ? model::name_text(r.next()) : gen::utf8_text(r, 16));
      default: return Op("hex").i("c", c);
   }
}
} // namespace wgen
