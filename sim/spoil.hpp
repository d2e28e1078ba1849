// Documents which almost mean something: one place of a good one replaced by what programs and people get wrong.
#pragma once
#include "gen.hpp"

namespace gen {
struct Spot { const Type* t; JV* j; };
inline void spots(const Type* t, JV& j, std::vector<Spot>& out, int depth = 0) {
   if (depth > 60 || out.size() > 400) return;
   switch (t->kind) {
      case Type::opt: if (j.kind == JV::null) { out.push_back({ t, &j }); return; } spots(t->sub, j, out, depth); return;
      case Type::ext: spots(t->sub, j, out, depth); return;
      case Type::arr: out.push_back({ t, &j }); for (auto& x : j.a) spots(t->sub, x, out, depth + 1); return;
      case Type::var:
         out.push_back({ t, &j });
         if (j.a.size() == 2) for (auto& f : t->f) if (f.name == j.a[0].s) { spots(f.t, j.a[1], out, depth + 1); break; }
         return;
      case Type::st:
         out.push_back({ t, &j });
         for (size_t i = 0; i < j.o.size() && i < t->f.size(); ++i) spots(t->f[i].t, j.o[i].second, out, depth + 1);
         return;
      default: out.push_back({ t, &j }); return;
   }
}
inline JV jnull() { return JV{}; }
inline JV jarr(std::vector<JV> v = {}) { JV j; j.kind = JV::arr; j.a = std::move(v); return j; }
inline JV jobj() { JV j; j.kind = JV::obj; return j; }
inline std::string near_int(Rng& r, int bytes, bool sgn) {
   auto up = [](std::string s) { // one more, for decimals without sign
      size_t i = s.size();
      while (i && s[i - 1] == '9') s[--i] = '0';
      if (i) ++s[i - 1]; else s = "1" + s;
      return s;
   };
   unsigned __int128 m = ~(unsigned __int128)0;
   if (bytes < 16) m = ((unsigned __int128)1 << 8 * bytes) - 1;
   std::string top = dec128(sgn ? m >> 1 : m, false), bot = sgn ? up(dec128(m >> 1, false)) : "0", wrap = up(dec128(m, false));
   switch (r.below(16)) {
      case 0: return top;
      case 1: return up(top);
      case 2: return sgn ? "-" + bot : "-1";
      case 3: return "-" + up(bot);
      case 4: return wrap;
      case 5: return up(wrap);
      case 6: return top + std::to_string(r.below(10));
      case 7: return std::string(r.range(1, 30), '0') + top;
      case 8: return "-0";
      case 9: return "+1";
      case 10: return r.coin() ? "1.0" : "1e2";
      case 11: return r.coin() ? "" : "-";
      case 12: return r.coin() ? " 1" : "1 ";
      case 13: return r.coin() ? "0x10" : "1_0";
      case 14: { auto s = top; s[0] = char(s[0] + 1 + r.below(3)); return s[0] > '9' ? "9" + s.substr(1) : s; }
      default: { std::string s = r.chance(30) ? "-" : ""; for (int i = 0, n = int(r.range(1, 45)); i < n; ++i) s += char('0' + r.below(10)); return s; }
   }
}
inline std::string tweak(Rng& r, std::string s, const char* cs) { // one slip of the pen
   switch (r.below(5)) {
      case 0: s.resize(r.below(s.size() + 1)); break;
      case 1: if (!s.empty()) s[r.below(s.size())] = cs[r.below(strlen(cs))]; break;
      case 2: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
      case 3: s.insert(r.below(s.size() + 1), 1, cs[r.below(strlen(cs))]); break;
      case 4: if (s.size() > 1) { size_t i = r.below(s.size() - 1); std::swap(s[i], s[i + 1]); } break;
   }
   return s;
}
inline std::string near_time(Rng& r, const std::string& good) {
   static const char* odd[] = { "2000-13-01T00:00:00.000", "2000-00-10T00:00:00.000", "2001-02-29T00:00:00.000", "2000-02-29T23:59:59.999", "2000-02-30T00:00:00.000", "2100-02-29T00:00:00.000",
                                "2010-04-31T00:00:00.000", "2010-12-32T00:00:00.000", "2010-12-00T00:00:00.000", "2010-01-01T24:00:00.000", "2010-01-01T23:60:00.000", "2016-12-31T23:59:60.000",
                                "1969-12-31T23:59:59.999", "1970-01-01T00:00:00.000", "1999-12-31T23:59:59.500", "2106-02-07T06:28:15.999", "2106-02-07T06:28:16.000", "2242-03-16T12:56:32.000",
                                "9999-12-31T23:59:59.999", "0000-01-01T00:00:00.000", "2068-01-19T03:14:07.500", "2068-01-19T03:14:08.000", "2068-01-19T03:14:07.999", "2010-1-1T00:00:00", "2010-01-01 00:00:00.000",
                                "2010-01-01T00:00:00", "2010-01-01T00:00:00.", "2010-01-01T00:00:00.1", "2010-01-01T00:00:00.123456", "2010-01-01T00:00:00.1234567", "2010-01-01T00:00:00Z", "2010-01-01T00:00:00+02:00",
                                "2010-01-01", "T00:00:00", "20100101T000000", "-2010-01-01T00:00:00.000" };
   if (r.chance(60)) return odd[r.below(sizeof(odd) / sizeof(*odd))];
   return tweak(r, good, "0123456789-:T. Z");
}
inline std::string near_asset(Rng& r, const std::string& good) {
   static const char* odd[] = { "9223372036854775807 EOS", "9223372036854775808 EOS", "-9223372036854775808 EOS", "-9223372036854775809 EOS", "18446744073709551616 EOS", "18446744073709551617 EOS",
                                "922337203685477.5807 EOS", "922337203685477.5808 EOS", "1844674407370955.1616 EOS", "1000000000000000000000 EOS", "1 EOSEOSEO", "1 EOSEOSEOS", "1.0.0 EOS", "1,0 EOS", "- 1 EOS",
                                "-EOS", " EOS", "EOS", "- EOS", ". EOS", "-.5 EOS", ".5 EOS", "1. EOS", "1EOS", "1  EOS", " 1 EOS", "1 EOS ", "1 eos", "1 ", "1", "1.0", "", "+1 EOS", "0x1 EOS", "1e3 EOS", "--1 EOS", "1 E0S", "EOS 1", "1 EOS 2" };
   if (r.chance(55)) return odd[r.below(sizeof(odd) / sizeof(*odd))];
   if (r.chance(10)) return "0." + std::string(r.range(250, 262), '0') + " A";
   if (r.chance(10)) return std::string(r.range(15, 25), char('0' + r.below(10))) + "." + std::string(r.below(6), '5') + " SYS";
   return tweak(r, good, "0123456789-. AZaz@[/:");
}
inline void spoil(Rng& r, const Type* t, JV& root) {
   std::vector<Spot> v;
   spots(t, root, v);
   if (v.empty()) return;
   // the last ones are as likely as the outer ones
   auto&  s = v[r.coin() ? r.below(v.size()) : v.size() - 1 - r.below(std::min<size_t>(v.size(), 4))];
   JV&    j = *s.j;
   auto   text = [&](std::string x) { j = r.chance(20) && !x.empty() && x.find_first_not_of("0123456789") == x.npos && (x[0] != '0' || x == "0") ? jnum(x) : jstr(x); };
   auto   other = [&] { // something of another kind
      switch (r.below(8)) {
         case 0: j = jnull(); break;
         case 1: j = jbool(r.coin()); break;
         case 2: j = jarr(); break;
         case 3: j = jobj(); break;
         case 4: j = jstr(""); break;
         case 5: j = jnum("0"); break;
         case 6: { JV k = j; j = jarr({ k }); break; }
         case 7: { JV k = j; j = jobj(); j.o.push_back({ "value", k }); break; }
      }
   };
   if (r.chance(12)) { other(); return; }
   switch (s.t->kind) {
      case Type::builtin:
         switch (s.t->b) {
            case B::boolean: { static const char* o[] = { "true", "false", "1", "0", "True", "yes" }; if (r.coin()) j = jnum(r.coin() ? "1" : "0"); else j = jstr(o[r.below(6)]); break; }
            case B::i8: text(near_int(r, 1, true)); break;
            case B::u8: text(near_int(r, 1, false)); break;
            case B::i16: text(near_int(r, 2, true)); break;
            case B::u16: text(near_int(r, 2, false)); break;
            case B::i32: case B::vari32: text(near_int(r, 4, true)); break;
            case B::u32: case B::varu32: text(near_int(r, 4, false)); break;
            case B::i64: text(near_int(r, 8, true)); break;
            case B::u64: text(near_int(r, 8, false)); break;
            case B::i128: text(near_int(r, 16, true)); break;
            case B::u128: text(near_int(r, 16, false)); break;
            case B::f32: case B::f64: {
               static const char* o[] = { "1e400", "-1e400", "3.4028235e38", "3.4028236e38", "1e39", "1.7976931348623157e308", "1.8e308", "1e-400", "1e-45", "5e-324", "0x1p3", "inf", "nan", "-inf", " 1", "1 ", "1,5", "1.5f", "--1", ".5", "5.", "1e", "1e+", "+1", "1.5.5", "", "-", "1 2", "infinite", "1e5e5", "0.1e-5x" };
               j = jstr(r.chance(80) ? o[r.below(sizeof(o) / sizeof(*o))] : tweak(r, j.s, "0123456789-+.eE x"));
               break;
            }
            case B::name: { static const char* o[] = { "Alice", "alice6", "alice.bob.eosio", "aaaaaaaaaaaaz", "aaaaaaaaaaaaj", "aaaaaaaaaaaaaa", "alice ", " alice", "a..", "a_b", "0", ".....", "eosio.token.x" }; text(r.coin() ? o[r.below(13)] : tweak(r, j.s, "abjz15.06AZ _`{/")); break; }
            case B::asset: j = jstr(near_asset(r, j.s)); break;
            case B::symbol: { static const char* o[] = { "255,EOS", "256,EOS", "260,EOS", "4EOS", "4,", ",EOS", "4,eos", "4, EOS", "4,EOSEOSE", "4,EOSEOSEO", "0000004,EOS", "-1,EOS", "4294967300,EOS", "4,EOS ", "4;EOS", " 4,EOS", "" }; j = jstr(r.chance(70) ? o[r.below(17)] : tweak(r, j.s, "0123456789,AZaz @[/:")); break; }
            case B::symbol_code: { static const char* o[] = { "", "eos", "EOSEOSE", "EOSEOSEO", "EO S", " EOS", "EOS ", "EO1", "4,EOS" }; j = jstr(r.coin() ? o[r.below(9)] : tweak(r, j.s, "AZaz09 ,@[`")); break; }
            case B::time_point: case B::time_point_sec: case B::block_timestamp: j = jstr(near_time(r, j.s)); break;
            case B::bytes: case B::f128: case B::c160: case B::c256: case B::c512:
               switch (r.below(6)) {
                  case 0: j.s += "0"; break;
                  case 1: j.s += "00"; break;
                  case 2: if (j.s.size() > 1) j.s.resize(j.s.size() - r.range(1, 2)); break;
                  case 3: j.s = "0x" + j.s; break;
                  case 4: j.s = tweak(r, j.s, "gG xz/:@`"); break;
                  case 5: j.s = tweak(r, j.s, "0123456789abcdefABCDEF"); break;
               }
               break;
            case B::public_key: case B::private_key: case B::signature: {
               static const char* pre[] = { "EOS", "PUB_K1_", "PUB_R1_", "PUB_WA_", "PVT_K1_", "PVT_R1_", "SIG_K1_", "SIG_R1_", "SIG_WA_", "", "5", "pub_k1_" };
               size_t cut = j.s.substr(0, 3) == "EOS" ? 3 : j.s.size() > 7 && j.s[6] == '_' ? 7 : 0;
               switch (r.below(7)) {
                  default: { // another length, but with the right checksum
                     std::string w;
                     bool        eos = cut == 3;
                     if (!cut || !from58(j.s.substr(cut), w) || w.size() < 8) { other(); break; }
                     w.resize(w.size() - 4);
                     if (r.coin()) w += raw_bytes(r, r.range(1, 3));
                     else w.resize(w.size() - r.range(1, 3));
                     j.s = j.s.substr(0, cut) + key58(w, eos ? std::string() : j.s.substr(4, 2));
                     break;
                  }
                  case 0: j.s = pre[r.below(12)] + j.s.substr(cut); break;
                  case 1: if (cut) j.s = j.s.substr(0, cut) + tweak(r, j.s.substr(cut), "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"); break;
                  case 2: if (cut) j.s = j.s.substr(0, cut) + tweak(r, j.s.substr(cut), "0OIl+/ _"); break;
                  case 3: if (cut) j.s = j.s.substr(0, cut) + std::string(r.range(1, 3), '1') + j.s.substr(cut); break;
                  case 4: j.s = j.s.substr(0, r.below(j.s.size() + 1)); if (!cut) other(); break;
               }
               break;
            }
            case B::string: other(); break;
         }
         break;
      case Type::opt: other(); break;
      case Type::arr:
         if (j.a.empty() || r.coin()) other();
         else if (r.coin()) { j.a.push_back(jnull()); }
         else { j.kind = JV::obj; for (auto& x : j.a) j.o.push_back({ std::to_string(j.o.size()), x }); j.a.clear(); }
         break;
      case Type::var:
         if (j.a.size() != 2) { other(); break; }
         switch (r.below(8)) {
            case 0: j.a.pop_back(); break;
            case 1: j.a.push_back(j.a[1]); break;
            case 2: j.a.push_back(jnull()); break;
            case 3: j.a[0] = jnum(std::to_string(r.below(s.t->f.size() + 1))); break;
            case 4: j.a[0].s = "nosuch"; break;
            case 5: j.a[0].s = s.t->f[r.below(s.t->f.size())].name; break;
            case 6: { JV k = j; j = jobj(); j.o.push_back({ k.a[0].s, k.a[1] }); break; }
            case 7: std::swap(j.a[0], j.a[1]); break;
         }
         break;
      case Type::st:
         switch (r.below(8)) {
            case 0: if (!j.o.empty()) j.o.pop_back(); break;
            case 1: if (!j.o.empty()) j.o.erase(j.o.begin() + long(r.below(j.o.size()))); break;
            case 2: if (j.o.size() > 1) { size_t i = r.below(j.o.size() - 1); std::swap(j.o[i], j.o[i + 1]); } break;
            case 3: j.o.insert(j.o.begin() + long(r.below(j.o.size() + 1)), { "nosuch", jnum("1") }); break;
            case 4: if (!j.o.empty()) { auto x = j.o[r.below(j.o.size())]; j.o.insert(j.o.begin() + long(r.below(j.o.size() + 1)), x); } break;
            case 5: if (!j.o.empty()) { auto& k = j.o[r.below(j.o.size())].first; k = r.coin() ? k + "x" : k.substr(0, k.size() / 2); } break;
            case 6: { JV a = jarr(); for (auto& [k, x] : j.o) a.a.push_back(x); j = a; break; }
            case 7: other(); break;
         }
         break;
      default: break;
   }
}
} // namespace gen
