// Workload generation: ABIs, values of ABI types, JSON spellings, damage. Every choice comes from the Rng passed in.
#pragma once
#include "model.hpp"

namespace gen {
using namespace model;

// ---------------------------------------------------------------------------------------------------- text
inline std::string utf8_text(Rng& r, int max) {
   std::string s;
   int         n = int(r.below(max + 1));
   for (int i = 0; i < n; ++i) {
      switch (r.below(12)) {
         case 0: JsonParser::put_utf8(s, uint32_t(r.range(0x80, 0x7ff))); break;
         case 1: JsonParser::put_utf8(s, uint32_t(r.range(0x800, 0xd7ff))); break;
         case 2: JsonParser::put_utf8(s, uint32_t(r.range(0x10000, 0x10ffff))); break;
         case 3: s += "\"\\/\n\t{}[],:%"[r.below(12)]; break;
         case 4: s += char(r.range(1, 31)); break;
         default: s += char(r.range(32, 126));
      }
   }
   return s;
}
inline std::string raw_bytes(Rng& r, size_t n) {
   std::string s;
   for (size_t i = 0; i < n; ++i) s += char(r.next());
   return s;
}

struct TextStyle {
   bool ws = false, escapes = false, quote_numbers = false;
};
inline void write_string(std::string& o, const std::string& s, Rng& r, const TextStyle& st) {
   o += '"';
   size_t p = 0;
   while (p < s.size()) {
      size_t n = JsonParser::utf8len(s, p);
      if (!n) n = 1;
      unsigned char c = s[p];
      char          b[32];
      if (n == 1 && (c < 0x20 || c == '"' || c == '\\' || (st.escapes && r.chance(10)))) {
         const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '/' ? "\\/" : nullptr;
         if (sh && !(st.escapes && r.coin())) o += sh;
         else { snprintf(b, 32, r.coin() ? "\\u%04x" : "\\u%04X", c); o += b; }
      } else if (n > 1 && st.escapes && r.chance(30)) {
         uint32_t cp = n == 2 ? (c & 31) : n == 3 ? (c & 15) : (c & 7);
         for (size_t i = 1; i < n; ++i) cp = cp << 6 | (s[p + i] & 63);
         if (cp < 0x10000) snprintf(b, 32, "\\u%04X", cp);
         else snprintf(b, 32, "\\u%04X\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
         o += b;
      } else o.append(s, p, n);
      p += n;
   }
   o += '"';
}
inline void write_json(std::string& o, const JV& v, Rng& r, const TextStyle& st) {
   auto ws = [&] { if (st.ws) while (r.chance(25)) o += " \n\t\r"[r.below(4)]; };
   ws();
   switch (v.kind) {
      case JV::null: o += "null"; break;
      case JV::boolean: o += v.b ? "true" : "false"; break;
      case JV::str:
         if (v.number && !(st.quote_numbers && r.coin())) o += v.s;
         else write_string(o, v.s, r, st);
         break;
      case JV::arr:
         o += '[';
         for (size_t i = 0; i < v.a.size(); ++i) { if (i) o += ','; write_json(o, v.a[i], r, st); }
         ws();
         o += ']';
         break;
      case JV::obj:
         o += '{';
         for (size_t i = 0; i < v.o.size(); ++i) {
            if (i) o += ',';
            ws();
            write_string(o, v.o[i].first, r, st);
            ws();
            o += ':';
            write_json(o, v.o[i].second, r, st);
         }
         ws();
         o += '}';
         break;
   }
   ws();
}
inline JV jstr(std::string s) { JV v; v.kind = JV::str; v.s = std::move(s); return v; }
inline JV jnum(std::string s) { JV v = jstr(std::move(s)); v.number = true; return v; }
inline JV jbool(bool b) { JV v; v.kind = JV::boolean; v.b = b; return v; }

// ---------------------------------------------------------------------------------------------------- ABIs
struct AbiOpt {
   int  types = 0, structs = 3, variants = 1;
   bool ext = true, recursive = true, weird_names = true, zero_width = true, unique_fields = false;
};
inline std::string some_name(Rng& r, const AbiOpt& o, const std::string& prefix, int i) {
   std::string n = prefix + std::to_string(i);
   if (o.weird_names && r.chance(8)) n += r.pick(*std::vector<std::vector<std::string>>(1, { " x", "\"q", "\xc3\xa9", ".z", "-", "\\", "\n" }).data());
   return n;
}
inline const std::vector<std::string>& builtin_names() {
   static std::vector<std::string> v;
   if (v.empty()) for (auto& b : builtins) v.push_back(b.name);
   return v;
}
inline uint64_t some_account(Rng& r) {
   static const char* n[] = { "eosio", "eosio.token", "alice", "bob", "c", "zzzzzzzzzzzzj", "", "1", "a.b.c", "tester" };
   return name_loose(n[r.below(10)]);
}
inline AbiDef abi(Rng& r, const AbiOpt& o) {
   AbiDef d;
   d.version = r.chance(70) ? "eosio::abi/1.1" : r.coin() ? "eosio::abi/1.0" : "eosio::abi/1.";
   std::vector<std::string> snames, tnames, vnames;
   for (int i = 0; i < o.structs; ++i) snames.push_back(some_name(r, o, "s", i));
   for (int i = 0; i < o.types; ++i) tnames.push_back(some_name(r, o, "t", i));
   for (int i = 0; i < o.variants; ++i) vnames.push_back(some_name(r, o, "v", i));
   std::vector<char> alias_plain(o.types, 1); // alias may take a suffix
   auto base_type = [&](int sbelow, int tbelow, int vbelow) -> std::pair<std::string, bool> {
      switch (r.below(8)) {
         case 0: case 1: if (sbelow > 0) return { snames[r.below(sbelow)], true }; break;
         case 2: if (tbelow > 0) { int k = int(r.below(tbelow)); return { tnames[k], alias_plain[k] != 0 }; } break;
         case 3: if (vbelow > 0) return { vnames[r.below(vbelow)], true }; break;
         case 4: if (r.chance(15)) return { "extended_asset", true }; break;
      }
      return { builtin_names()[r.below(builtin_names().size())], true };
   };
   auto suffixed = [&](std::pair<std::string, bool> b) {
      if (!b.second) return b.first;
      switch (r.below(5)) {
         case 0: return b.first + "?";
         case 1: return b.first + "[]";
         default: return b.first;
      }
   };
   // Order of definition: aliases and variants may name earlier structs; structs earlier things. No cycles except
   // through optional/array/variant, which is what real ABIs do.
   for (int i = 0; i < o.types; ++i) {
      auto b = base_type(o.structs ? 1 : 0, i, 0);
      std::string t = b.first;
      if (b.second && r.chance(30)) { t += r.coin() ? "?" : "[]"; alias_plain[i] = 0; }
      else alias_plain[i] = b.second;
      d.types.push_back({ tnames[i], t });
   }
   for (int i = 0; i < o.structs; ++i) {
      AbiDef::Struct s;
      s.name = snames[i];
      if (i > 0 && r.chance(25)) s.base = snames[r.below(i)];
      int nf = int(r.below(i == 0 ? 4 : 6));
      if (!o.zero_width && nf == 0 && s.base.empty()) nf = 1;
      bool ext = false;
      for (int f = 0; f < nf; ++f) {
         auto        t = suffixed(base_type(i, i == 0 ? 0 : o.types, i == 0 ? 0 : int(r.below(o.variants + 1))));
         std::string fn = std::string(1, char('a' + f)) + (r.chance(50) || o.unique_fields ? std::to_string(i) : "");
         if (o.weird_names && r.chance(4)) fn += "\"\\\n";
         if (o.recursive && r.chance(6)) t = snames[i] + (r.coin() ? "?" : "[]");
         if (o.ext && (ext || (f + 1 >= nf - 1 && r.chance(15)))) { t += "$"; ext = true; }
         s.fields.push_back({ fn, t });
      }
      d.structs.push_back(s);
   }
   for (int i = 0; i < o.variants; ++i) {
      AbiDef::Variant v;
      v.name = vnames[i];
      int n  = int(r.range(1, 5));
      for (int k = 0; k < n; ++k) {
         std::string t = k == 0 ? builtin_names()[r.below(builtin_names().size())] : suffixed(base_type(o.structs, o.types, i));
         if (k && o.recursive && r.chance(8)) t = v.name + "[]";
         v.types.push_back(t);
      }
      d.variants.push_back(v);
   }
   if (!d.variants.empty() && r.chance(3)) { // an index of two bytes
      auto& v = d.variants[r.below(d.variants.size())];
      for (size_t k = v.types.size(), n = r.range(126, 140); k < n; ++k) {
         d.types.push_back({ "w" + std::to_string(k), builtin_names()[r.below(builtin_names().size())] });
         v.types.push_back(d.types.back().first);
      }
   }
   // a base that ends in an extension makes every following field follow an extension: keep ABIs sane
   std::set<std::string> ends_ext;
   for (auto& s : d.structs) {
      if (!s.base.empty() && ends_ext.count(s.base)) s.base.clear();
      for (auto& f : s.fields) if (f.second.back() == '$') ends_ext.insert(s.name);
   }
   int na = int(r.below(5));
   auto any_type = [&] {
      if (r.chance(60) && !snames.empty()) return r.pick(snames);
      return builtin_names()[r.below(builtin_names().size())];
   };
   for (int i = 0; i < na; ++i) d.actions.push_back({ some_account(r), any_type() });
   na = int(r.below(4));
   for (int i = 0; i < na; ++i) d.tables.push_back({ some_account(r), any_type() });
   return d;
}
inline AbiDef good_abi(Rng& r, const AbiOpt& o, std::shared_ptr<Abi>* out = nullptr) {
   for (;;) {
      AbiDef d = abi(r, o);
      auto   m = std::make_shared<Abi>();
      if (m->build(d) == ok) {
         if (out) { *out = m; }
         return d;
      }
   }
}
inline AbiOpt abi_style(Rng& r) {
   AbiOpt o;
   o.types       = int(r.below(4));
   o.structs     = int(r.range(1, 5));
   o.variants    = int(r.below(3));
   o.ext         = r.chance(60);
   o.recursive   = r.chance(50);
   o.weird_names = r.chance(30);
   return o;
}
// Root types one can name in this ABI
inline std::vector<std::string> type_names(const AbiDef& d, Rng& r, bool suffixes = true) {
   std::vector<std::string> v;
   for (auto& s : d.structs) v.push_back(s.name);
   for (auto& s : d.variants) v.push_back(s.name);
   for (auto& s : d.types) v.push_back(s.first);
   size_t n = v.size();
   if (suffixes)
      for (size_t i = 0; i < n; ++i)
         if (r.chance(40)) v.push_back(v[i] + (r.coin() ? "[]" : r.coin() ? "?" : "$"));
   for (int i = 0; i < 4; ++i) v.push_back(r.pick(const_cast<std::vector<std::string>&>(builtin_names())) + (r.chance(25) ? "[]" : r.chance(25) ? "?" : ""));
   v.push_back("extended_asset");
   return v;
}

// ---------------------------------------------------------------------------------------------------- values
struct Val { JV j; std::string bin; };
struct ValOpt {
   int  depth = 4, array = 4, text = 24;
   bool edge = true;
   bool wide = false; // floating point numbers of every size
   unsigned longs = 2; // per cent of arrays that are long
};
inline uint64_t some_second(Rng& r) {
   if (r.chance(60)) return r.below(4294967296ull);
   static const char* days[] = { "-01-01", "-02-28", "-02-29", "-03-01", "-12-31", "-04-30", "-01-31" };
   uint64_t s = 0, us = 0;
   int      n;
   parse_time(std::to_string(r.chance(20) ? 2000 : r.range(1970, 2105)) + days[r.below(7)] + (r.coin() ? "T00:00:00" : "T23:59:59"), s, us, n);
   return s;
}
inline void scalar(Rng& r, B b, JV& j, std::string& bin, const ValOpt& o) {
   auto edge = [&](int bytes) -> uint64_t {
      uint64_t m = bytes == 8 ? ~0ull : (1ull << (8 * bytes)) - 1;
      switch (r.below(12)) {
         case 0: return 0;
         case 1: return m;
         case 2: return m >> 1;
         case 3: return (m >> 1) + 1;
         case 4: return r.below(200);
         case 5: return ((1ull << r.below(8 * bytes)) + r.below(3) - 1) & m; // where something may be carried
         case 6: { uint64_t v = 1; for (int k = int(r.below(20)); k > 0; --k) v *= 10; return (v + r.below(3) - 1) & m; }
         case 7: return (r.next() & m) >> r.below(8 * bytes);
         case 8: return (~r.next() | (~0ull << r.below(8 * bytes))) & m; // small negative ones
         default: return r.next() & m;
      }
   };
   auto uint_ = [&](int n) { uint64_t v = edge(n); put_le(bin, v, n); j = n == 8 ? jstr(std::to_string(v)) : jnum(std::to_string(v)); };
   auto int_  = [&](int n) {
      uint64_t v = edge(n);
      put_le(bin, v, n);
      int64_t x = n == 1 ? int8_t(v) : n == 2 ? int16_t(v) : n == 4 ? int32_t(v) : int64_t(v);
      j = n == 8 ? jstr(std::to_string(x)) : jnum(std::to_string(x));
   };
   auto hexes = [&](size_t n) { auto s = raw_bytes(r, n); bin += s; j = jstr(tohex(s, r.coin())); };
   auto symcode = [&] { uint64_t v = 0; int n = int(r.range(1, 7)); for (int i = 0; i < n; ++i) v |= uint64_t('A' + r.below(26)) << (8 * i); return v; };
   switch (b) {
      case B::boolean: { bool v = r.coin(); bin += char(v); j = jbool(v); break; }
      case B::i8: int_(1); break;
      case B::u8: uint_(1); break;
      case B::i16: int_(2); break;
      case B::u16: uint_(2); break;
      case B::i32: int_(4); break;
      case B::u32: uint_(4); break;
      case B::i64: int_(8); break;
      case B::u64: uint_(8); break;
      case B::i128: case B::u128: {
         unsigned __int128 v = r.chance(30) ? (unsigned __int128)edge(8) : ((unsigned __int128)edge(8) << 64 | edge(8));
         put_le(bin, v, 16);
         j = jstr(dec128(v, b == B::i128 && (v >> 127)));
         break;
      }
      case B::varu32: { uint32_t v = uint32_t(edge(4)); if (r.coin()) v >>= r.below(32); if (r.chance(15)) v = (1u << 7 * r.range(1, 4)) + uint32_t(r.below(3)) - 1; put_varuint(bin, v); j = jnum(std::to_string(v)); break; }
      case B::vari32: {
         int32_t v = int32_t(edge(4));
         if (r.coin()) v >>= r.below(32);
         if (r.chance(15)) { v = (1 << (7 * r.range(1, 4) - 1)) + int32_t(r.below(3)) - 1; if (r.coin()) v = -v; }
         put_varuint(bin, (uint32_t(v) << 1) ^ uint32_t(v < 0 ? -1 : 0));
         j = jnum(std::to_string(v));
         break;
      }
      case B::f32: {
         uint32_t u = uint32_t(r.next());
         float    f;
         if (r.coin()) f = float(int64_t(r.below(2000001)) - 1000000) / float(1 << r.below(10));
         else if (r.chance(20)) f = std::ldexp(r.coin() ? 1.0f : -1.0f, int(r.range(0, 200)) - 100);
         else if (r.chance(20)) { f = 1; for (int k = int(r.below(38)); k > 0; --k) f *= 10; if (r.coin()) f = 1 / f; }
         else memcpy(&f, &u, 4);
         if (std::isnan(f)) f = 1.5f;
         char t[64];
         if (std::isinf(f)) { j = jstr(f > 0 ? "Infinity" : "-Infinity"); }
         else { snprintf(t, 64, "%.9g", double(f)); j = jnum(t); if (o.wide) {} else if (strchr(t, 'n') || (f != 0 && std::fabs(f) < 1e-37f)) { f = 0.5f; j = jnum("0.5"); } }
         memcpy(&u, &f, 4);
         put_le(bin, u, 4);
         break;
      }
      case B::f64: {
         uint64_t u = r.next();
         double   f;
         if (r.coin()) f = double(int64_t(r.below(2000000001)) - 1000000000) / double(1 << r.below(20));
         else memcpy(&f, &u, 8);
         if (r.chance(8)) f = std::ldexp(1.0, int(r.range(0, 64))) + double(int64_t(r.below(3)) - 1);
         if (r.chance(8)) { f = 1; for (int k = int(r.below(40)); k > 0; --k) f *= 10; if (r.coin()) f = 1 / f; if (r.coin()) f = -f; }
         if (r.chance(30)) f = std::ldexp((r.coin() ? 1.0 : -1.0) * (1 + double(r.next() >> 12) / 4503599627370496.0), r.coin() ? int(r.range(0, 90)) : int(r.range(0, 200)) - 100);
         if (std::isnan(f) || (!o.wide && std::fabs(f) > 1e90) || (!o.wide && f != 0 && std::fabs(f) < 1e-90)) f = 0.1;
         if (r.chance(3)) f = INFINITY;
         char t[64];
         if (std::isinf(f)) j = jstr("Infinity");
         else { snprintf(t, 64, "%.17g", f); j = jnum(t); }
         memcpy(&u, &f, 8);
         put_le(bin, u, 8);
         break;
      }
      case B::f128: hexes(16); break;
      case B::c160: hexes(20); break;
      case B::c256: hexes(32); break;
      case B::c512: hexes(64); break;
      case B::time_point: { uint64_t us = some_second(r) * 1000000 + (r.chance(20) ? (r.coin() ? 999 : 0) : r.below(1000)) * 1000; put_le(bin, us, 8); j = jstr(time_text(us)); break; }
      case B::time_point_sec: { uint64_t s = r.coin() ? uint32_t(edge(4)) : some_second(r); put_le(bin, s, 4); j = jstr(time_text(s * 1000000)); break; }
      case B::block_timestamp: { uint64_t s = uint32_t(edge(4)); if (r.chance(40)) { auto t = some_second(r); if (t >= 946684800 && t < 3094168448ull) s = (t - 946684800) * 2 + r.below(2); } put_le(bin, s, 4); j = jstr(time_text((s * 500 + 946684800000ull) * 1000)); break; }
      case B::name: { uint64_t n = r.coin() ? some_account(r) : r.chance(20) ? edge(8) : r.next(); put_le(bin, n, 8); j = jstr(name_text(n)); break; }
      case B::bytes: { auto s = raw_bytes(r, r.chance(3) ? r.range(126, 130) : r.below(o.text)); put_str(bin, s); j = jstr(tohex(s, r.coin())); break; }
      case B::string: { auto s = r.chance(5) ? utf8_text(r, 300) : r.chance(2) ? std::string(r.range(126, 130), 'a') : r.chance(1) && o.text >= 24 ? std::string(r.range(16382, 16385), 'b') : utf8_text(r, o.text); put_str(bin, s); j = jstr(s); break; }
      case B::symbol_code: { auto v = symcode(); put_le(bin, v, 8); j = jstr(symcode_text(v)); break; }
      case B::symbol: { auto v = symcode() << 8 | r.below(r.chance(80) ? 19 : 256); put_le(bin, v, 8); j = jstr(std::to_string(v & 255) + "," + symcode_text(v >> 8)); break; }
      case B::asset: {
         int64_t a = int64_t(r.next() >> r.range(0, 63));
         if (r.chance(3)) a = INT64_MIN;
         else if (r.coin()) a = -a;
         uint64_t s = symcode() << 8 | r.below(r.chance(90) ? 19 : 256);
         put_le(bin, uint64_t(a), 8);
         put_le(bin, s, 8);
         j = jstr(asset_text(a, s));
         break;
      }
      case B::public_key: case B::private_key: case B::signature: {
         uint32_t    idx = uint32_t(r.below(b == B::private_key ? 2 : 3));
         std::string p   = raw_bytes(r, b == B::public_key ? 33 : b == B::private_key ? 32 : 65);
         if (r.chance(10)) p[0] = 0;
         if (idx == 2) {
            if (b == B::public_key) { p += char(r.below(3)); put_str(p, utf8_text(r, 12)); }
            else { put_str(p, raw_bytes(r, r.below(20))); put_str(p, utf8_text(r, 12)); }
         }
         put_varuint(bin, idx);
         bin += p;
         j = jstr(key_prefix(b, idx) + key58(p, key_suffix(idx)));
         if (b == B::public_key && idx == 0 && r.coin()) j = jstr("EOS" + key58(p, ""));
         if (b == B::private_key && idx == 0 && r.coin()) j = jstr(wif(p));
         break;
      }
   }
}
// exts: how many trailing extension fields are present is chosen at random where that is allowed
inline void value(Rng& r, const Type* t, JV& j, std::string& bin, const ValOpt& o, int depth = 0, bool allow = true, bool* skipped = nullptr) {
   bool sk = false;
   if (!skipped) skipped = &sk;
   bool deep = depth > o.depth || bin.size() > 20000;
   switch (t->kind) {
      case Type::builtin:
         if (t->shape == Type::status && r.chance(97)) { bin += char(r.below(5)); j = JV{}; j.kind = JV::str; j.number = true; j.s = std::to_string(int(bin.back())); break; }
         scalar(r, t->b, j, bin, o);
         break;
      case Type::opt:
         if (deep || r.chance(35)) { bin += '\0'; j = JV{}; }
         else { bin += '\1'; value(r, t->sub, j, bin, o, depth, allow, skipped); }
         break;
      case Type::ext: value(r, t->sub, j, bin, o, depth, allow, skipped); break;
      case Type::arr: {
         j      = JV{};
         j.kind = JV::arr;
         size_t n = t->shape == Type::fixed ? t->n : deep ? 0 : r.below(o.array + 1);
         if (n && t->shape != Type::fixed && t->sub->kind == Type::builtin && r.chance(o.longs)) n = r.chance(80) ? r.range(120, 300) : r.range(300, 1500);
         put_varuint(bin, n);
         for (size_t i = 0; i < n; ++i) { j.a.emplace_back(); value(r, t->sub, j.a.back(), bin, o, depth + 1, false, skipped); }
         break;
      }
      case Type::var: {
         j        = JV{};
         j.kind   = JV::arr;
         size_t k = deep ? 0 : r.below(t->f.size());
         for (size_t i = 0; i < k; ++i) if (t->f[i].name == t->f[k].name) { k = i; break; }
         put_varuint(bin, k);
         j.a.push_back(jstr(t->f[k].name));
         j.a.emplace_back();
         value(r, t->f[k].t, j.a.back(), bin, o, depth + 1, allow, skipped);
         break;
      }
      case Type::st:
         j      = JV{};
         j.kind = JV::obj;
         for (size_t i = 0; i < t->f.size(); ++i) {
            if (t->f[i].t->kind == Type::ext && allow && (*skipped || r.chance(35))) { *skipped = true; continue; }
            j.o.emplace_back();
            j.o.back().first = t->f[i].name;
            value(r, t->f[i].t, j.o.back().second, bin, o, depth + 1, allow && i + 1 == t->f.size(), skipped);
         }
         break;
   }
}
inline void shuffle_keys(Rng& r, JV& j, bool extra) {
   for (auto& x : j.a) shuffle_keys(r, x, extra);
   for (auto& x : j.o) shuffle_keys(r, x.second, extra);
   if (j.kind != JV::obj) return;
   for (size_t i = j.o.size(); i > 1; --i) std::swap(j.o[i - 1], j.o[r.below(i)]);
   if (extra && r.chance(30)) {
      JV x;
      switch (r.below(4)) { case 0: break; case 1: x = jnum("1e3"); break; case 2: x.kind = JV::arr; x.a.push_back(jbool(true)); break; default: x.kind = JV::obj; x.o.push_back({ "k", jstr("v") }); }
      j.o.insert(j.o.begin() + r.below(j.o.size() + 1), { "zz_unknown" + std::to_string(r.below(3)), x });
   }
   if (extra && r.chance(12) && !j.o.empty()) { // an earlier duplicate, overridden by the later one
      size_t k = r.below(j.o.size());
      j.o.insert(j.o.begin() + r.below(k + 1), { j.o[k].first, r.coin() ? jstr("x") : JV{} });
   }
}
inline TextStyle style(Rng& r) { TextStyle s; s.ws = r.chance(40); s.escapes = r.chance(40); s.quote_numbers = r.chance(30); return s; }

// ---------------------------------------------------------------------------------------------------- damage
inline std::string damage(Rng& r, std::string s) { // what a bad disk or link does to bytes
   int n = r.chance(70) ? 1 : int(r.range(2, 4));
   while (n--) {
      switch (r.below(7)) {
         case 0: s.resize(r.below(s.size() + 1)); break;                                         // torn
         case 1: if (!s.empty()) s[r.below(s.size())] ^= char(1 << r.below(8)); break;            // bit flip
         case 2: if (!s.empty()) s[r.below(s.size())] = char(r.next()); break;                    // byte
         case 3: if (!s.empty()) s.erase(r.below(s.size()), r.range(1, 4)); break;                // lost
         case 4: s.insert(r.below(s.size() + 1), raw_bytes(r, r.range(1, 4))); break;             // inserted
         case 5: if (!s.empty()) { size_t p = r.below(s.size()); s[p] = char(r.coin() ? 0xff : 0x80); } break;
         case 6: if (s.size() > 1) { size_t a = r.below(s.size()), n2 = r.range(1, 8); s.insert(a, s.substr(r.below(s.size()), n2)); } break; // duplicated block
      }
   }
   return s;
}
// one length, count, index or flag of a value is wrong, or spelled in an unusual way
inline std::string damage_marks(Rng& r, const Type* t, std::string s) {
   auto m = marks_of(t, s);
   if (m.empty()) return damage(r, s);
   auto& k = m[r.below(m.size())];
   if (k.at + k.len > s.size()) return s;
   if (k.flag) { s[k.at] = char(r.coin() ? r.next() : 1 - (s[k.at] != 0)); return s; }
   uint64_t v = 0;
   for (size_t i = 0; i < k.len; ++i) v |= uint64_t(s[k.at + i] & 0x7f) << (7 * i);
   std::string n;
   switch (r.below(7)) {
      case 6: put_varuint(n, 0 - uint64_t(r.range(1, r.coin() ? 16 : 4 + s.size()))); break; // a position before this one
      case 0: case 1: { // too long a spelling of the same number
         put_varuint(n, v);
         size_t want = r.range(n.size(), k.max + 1);
         while (n.size() < want) { n.back() |= char(0x80); n += '\0'; }
         break;
      }
      case 2: put_varuint(n, v + 1); break;
      case 3: put_varuint(n, v ? v - 1 : 1); break;
      case 4: put_varuint(n, r.next() >> r.below(64)); break;
      default: { static const uint64_t e[] = { 0x7f, 0x80, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x2000000000000000, 0x7fffffffffffffff, 0x8000000000000000, ~0ull }; put_varuint(n, e[r.below(11)]); }
   }
   return s.replace(k.at, k.len, n);
}
inline std::string half_character(Rng& r, std::string s) { // cut within a string, and within a character of it
   static const char* cut[] = { "\xf0", "\xf2\x8c", "\xe2", "\xf4\x8f\xbf", "\xed", "\xc3" };
   size_t q = s.empty() ? s.npos : s.find('"', r.below(s.size()));
   s.resize(q == s.npos ? r.below(s.size() + 1) : q + 1);
   if (q == s.npos) s += '"';
   s += std::string(r.below(20), 'm');
   for (auto& c : s) if (!c) c = ' ';
   return s + cut[r.below(6)];
}
inline std::string damage_text(Rng& r, std::string s) {
   int n = r.chance(70) ? 1 : int(r.range(2, 3));
   static const char cs[] = "{}[]\",:\\ 0129.-+eEtfnu/\x01\x7f\xc3\x28\xed\xa0\x80\n";
   while (n--) {
      switch (r.below(6)) {
         case 0: if (r.chance(12)) return half_character(r, s); s.resize(r.below(s.size() + 1)); break;
         case 1: if (!s.empty()) s[r.below(s.size())] = cs[r.below(sizeof(cs) - 1)]; break;
         case 2: if (!s.empty()) s.erase(r.below(s.size()), r.range(1, 3)); break;
         case 3: s.insert(r.below(s.size() + 1), 1, cs[r.below(sizeof(cs) - 1)]); break;
         case 4: if (!s.empty()) s[r.below(s.size())] ^= char(1 << r.below(8)); break;
         case 5: if (s.size() > 1) s.insert(r.below(s.size()), s.substr(r.below(s.size()), r.range(1, 8))); break;
      }
   }
   for (auto& c : s) if (!c) c = ' ';
   return s;
}
inline AbiDef damage_abi(Rng& r, AbiDef d) { // a well formed message with a wrong content
   auto any_struct = [&]() -> AbiDef::Struct* { return d.structs.empty() ? nullptr : &d.structs[r.below(d.structs.size())]; };
   switch (r.below(14)) {
      case 0: d.version = r.coin() ? "eosio::abi/2.0" : r.coin() ? "" : "eosio::abi/1"; break;
      case 1: if (auto* s = any_struct()) s->fields.push_back({ "q", "nosuch" }); break;
      case 2: if (auto* s = any_struct()) s->base = s->name; break;
      case 3: if (auto* s = any_struct()) s->base = r.coin() ? "int8" : "nosuch"; break;
      case 4: if (auto* s = any_struct()) d.structs.push_back(*s); break;
      case 5: if (auto* s = any_struct()) s->name = r.coin() ? "" : "uint8"; break;
      case 6: d.types.push_back({ "cyc1", "cyc2" }); d.types.push_back({ "cyc2", "cyc1" }); break;
      case 7: d.types.push_back({ "al", "int8$" }); break;
      case 8: if (auto* s = any_struct()) s->fields.push_back({ "q", r.coin() ? "int8?[]" : r.coin() ? "int8[][]" : "int8??" }); break;
      case 9: d.variants.push_back({ "vbad", { "int8", "nosuch" } }); break;
      case 10: d.types.push_back({ "", "int8" }); break;
      case 11: d.types.push_back({ "opt8", "int8?" }); if (auto* s = any_struct()) s->fields.push_back({ "q", "opt8[]" }); break;
      case 12: d.variants.push_back({ "", { "int8" } }); break;
      case 13: if (auto* s = any_struct()) s->fields.push_back({ "q", "int8$$" }); break;
   }
   return d;
}
} // namespace gen
