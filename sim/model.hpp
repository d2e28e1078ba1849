// Executable reference model of what a user of the library relies on: ABI loading, name lookup, JSON<->binary for
// every ABI type. Written from the wire formats, shares no code with the library. Every question has three answers:
// yes, no, or "not specified" (unk), so that quirks nobody relies on are never asserted.
#pragma once
#include "hash.hpp"
#include "util.hpp"
#include <cmath>
#include <errno.h>
#include <functional>

namespace model {

enum Tri { ok, bad, unk };

// ------------------------------------------------------------------------------------------------------- JSON
struct JV {
   enum Kind { null, boolean, str, arr, obj } kind = null;
   bool                                       b = false, number = false;
   std::string                                s;
   std::vector<JV>                            a;
   std::vector<std::pair<std::string, JV>>    o;
};

struct JsonParser {
   std::string_view t;
   size_t           p        = 0;
   int              maxdepth = 0;
   bool             unknown  = false; // used something that is accepted or rejected for reasons nobody relies on
   void             ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
   bool             lit(const char* s) {
      size_t n = strlen(s);
      if (t.substr(p, n) != s) return false;
      p += n;
      return true;
   }
   static size_t utf8len(std::string_view t, size_t p) { // 0: invalid
      auto    c  = [&](size_t i) -> int { return p + i < t.size() ? (unsigned char)t[p + i] : 0; };
      int     a  = c(0);
      auto    cc = [&](size_t i, int lo = 0x80, int hi = 0xbf) { return c(i) >= lo && c(i) <= hi; };
      if (a < 0x80) return 1;
      if (a >= 0xc2 && a <= 0xdf) return cc(1) ? 2 : 0;
      if (a >= 0xe0 && a <= 0xef) return cc(1, a == 0xe0 ? 0xa0 : 0x80, a == 0xed ? 0x9f : 0xbf) && cc(2) ? 3 : 0;
      if (a >= 0xf0 && a <= 0xf4) return cc(1, a == 0xf0 ? 0x90 : 0x80, a == 0xf4 ? 0x8f : 0xbf) && cc(2) && cc(3) ? 4 : 0;
      return 0;
   }
   static void put_utf8(std::string& r, uint32_t c) {
      if (c < 0x80) r += char(c);
      else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
      else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
      else { r += char(0xf0 | c >> 18); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
   }
   bool hex4(uint32_t& v) {
      v = 0;
      for (int i = 0; i < 4; ++i, ++p) {
         if (p >= t.size()) return false;
         char c = t[p];
         int  d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
         if (d < 0) return false;
         v = v * 16 + d;
      }
      return true;
   }
   bool string(std::string& r) {
      if (p >= t.size() || t[p] != '"') return false;
      ++p;
      while (p < t.size()) {
         unsigned char c = t[p];
         if (c == '"') { ++p; return true; }
         if (c < 0x20) return false;
         if (c == '\\') {
            ++p;
            if (p >= t.size()) return false;
            char e = t[p++];
            switch (e) {
               case '"': r += '"'; break;
               case '\\': r += '\\'; break;
               case '/': r += '/'; break;
               case 'b': r += '\b'; break;
               case 'f': r += '\f'; break;
               case 'n': r += '\n'; break;
               case 'r': r += '\r'; break;
               case 't': r += '\t'; break;
               case 'u': {
                  uint32_t v;
                  if (!hex4(v)) return false;
                  if (v >= 0xdc00 && v <= 0xdfff) unknown = true;
                  if (v >= 0xd800 && v <= 0xdbff) {
                     uint32_t w;
                     if (!(p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u')) return false;
                     p += 2;
                     if (!hex4(w) || w < 0xdc00 || w > 0xdfff) return false;
                     v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                  }
                  put_utf8(r, v);
                  break;
               }
               default: return false;
            }
            continue;
         }
         size_t n = utf8len(t, p);
         if (!n) return false;
         r.append(t.substr(p, n));
         p += n;
      }
      return false;
   }
   bool number(std::string& r) {
      size_t b = p;
      if (p < t.size() && t[p] == '-') ++p;
      auto digit  = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
      size_t nd = 0, ne = 0;
      if (!digit()) {
         if (p < t.size() && (t[p] == 'I' || t[p] == 'N')) unknown = true;
         return false;
      }
      if (t[p] == '0') ++p;
      else while (digit()) ++p, ++nd;
      if (p < t.size() && t[p] == '.') {
         ++p;
         if (!digit()) return false;
         while (digit()) ++p, ++nd;
      }
      if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
         ++p;
         if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
         if (!digit()) return false;
         size_t lead = p;
         while (digit() && t[p] == '0') ++p;
         (void)lead;
         while (digit()) ++p, ++ne;
      }
      if (nd > 250 || ne > 2) unknown = true; // "number too big" is decided by the parser library
      r = std::string(t.substr(b, p - b));
      return true;
   }
   bool value(JV& v, int depth) {
      if (depth > maxdepth) maxdepth = depth;
      if (depth > 5000) { unknown = true; return false; }
      ws();
      if (p >= t.size()) return false;
      char c = t[p];
      if (c == 'n') { v.kind = JV::null; return lit("null"); }
      if (c == 't') { v.kind = JV::boolean; v.b = true; return lit("true"); }
      if (c == 'f') { v.kind = JV::boolean; v.b = false; return lit("false"); }
      if (c == '"') { v.kind = JV::str; return string(v.s); }
      if (c == '[') {
         v.kind = JV::arr;
         ++p;
         ws();
         if (p < t.size() && t[p] == ']') { ++p; if (depth + 1 > maxdepth) maxdepth = depth + 1; return true; }
         for (;;) {
            v.a.emplace_back();
            if (!value(v.a.back(), depth + 1)) return false;
            ws();
            if (p < t.size() && t[p] == ',') { ++p; continue; }
            if (p < t.size() && t[p] == ']') { ++p; return true; }
            return false;
         }
      }
      if (c == '{') {
         v.kind = JV::obj;
         ++p;
         ws();
         if (p < t.size() && t[p] == '}') { ++p; if (depth + 1 > maxdepth) maxdepth = depth + 1; return true; }
         for (;;) {
            ws();
            v.o.emplace_back();
            if (!string(v.o.back().first)) return false;
            ws();
            if (p >= t.size() || t[p] != ':') return false;
            ++p;
            if (!value(v.o.back().second, depth + 1)) return false;
            ws();
            if (p < t.size() && t[p] == ',') { ++p; continue; }
            if (p < t.size() && t[p] == '}') { ++p; return true; }
            return false;
         }
      }
      v.kind = JV::str;
      v.number = true;
      return number(v.s);
   }
};
// Text as handed over in a C string. nest: containers nested (a scalar has 0)
inline Tri parse_json(std::string_view t, JV& v, int* nest = nullptr) {
   size_t z = t.find('\0');
   if (z != t.npos) t = t.substr(0, z);
   JsonParser j{ t };
   bool       r = j.value(v, 0);
   if (r) { j.ws(); r = j.p == t.size(); }
   if (nest) *nest = j.maxdepth;
   if (j.unknown) return unk;
   return r ? ok : bad;
}

inline std::string json_quote(std::string_view s) {
   std::string r = "\"";
   size_t      p = 0;
   // invalid bytes become ?; sequences never extend over an escaped character
   while (p < s.size()) {
      unsigned char c = s[p];
      if (c == '"') { r += "\\\""; ++p; }
      else if (c == '\\') { r += "\\\\"; ++p; }
      else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\u00%02X", c); r += b; ++p; }
      else {
         size_t n = JsonParser::utf8len(s, p);
         if (n) { r.append(s.substr(p, n)); p += n; }
         else { r += '?'; ++p; }
      }
   }
   return r + "\"";
}

// ------------------------------------------------------------------------------------------------------- names
inline int name_digit(char c) { return c >= 'a' && c <= 'z' ? c - 'a' + 6 : c >= '1' && c <= '5' ? c - '1' + 1 : c == '.' ? 0 : -1; }
inline uint64_t name_loose(std::string_view s) {
   uint64_t v = 0;
   for (size_t i = 0; i < 13; ++i) {
      int d = i < s.size() ? name_digit(s[i]) : 0;
      if (d < 0) d = 0;
      if (i < 12) v |= uint64_t(d & 0x1f) << (64 - 5 * (i + 1));
      else v |= d & 0xf;
   }
   return v;
}
inline bool name_strict(std::string_view s, uint64_t& v) {
   if (s.size() > 13) return false;
   for (char c : s) if (name_digit(c) < 0) return false;
   if (s.size() == 13 && name_digit(s[12]) > 15) return false;
   v = name_loose(s);
   return true;
}
inline std::string name_text(uint64_t v) {
   static const char* m = ".12345abcdefghijklmnopqrstuvwxyz";
   std::string        r;
   for (int i = 0; i < 12; ++i) r += m[(v >> (59 - 5 * i)) & 31];
   r += m[v & 15];
   while (!r.empty() && r.back() == '.') r.pop_back();
   return r;
}

// ------------------------------------------------------------------------------------------------------- ABI
struct AbiDef {
   struct Struct { std::string name, base; std::vector<std::pair<std::string, std::string>> fields; };
   struct Variant { std::string name; std::vector<std::string> types; };
   std::string                                      version;
   std::vector<std::pair<std::string, std::string>> types; // new name, type
   std::vector<Struct>                              structs;
   std::vector<std::pair<uint64_t, std::string>>    actions, tables;
   std::vector<Variant>                             variants;
   bool                                             names_unknown = false;
};

struct Builtin_tag {};
enum class B { boolean, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, varu32, vari32, f32, f64, f128, time_point,
               time_point_sec, block_timestamp, name, bytes, string, c160, c256, c512, public_key, private_key, signature,
               symbol, symbol_code, asset };
struct BI { const char* name; B b; };
inline const BI builtins[] = { { "bool", B::boolean }, { "int8", B::i8 }, { "uint8", B::u8 }, { "int16", B::i16 }, { "uint16", B::u16 },
   { "int32", B::i32 }, { "uint32", B::u32 }, { "int64", B::i64 }, { "uint64", B::u64 }, { "int128", B::i128 }, { "uint128", B::u128 },
   { "varuint32", B::varu32 }, { "varint32", B::vari32 }, { "float32", B::f32 }, { "float64", B::f64 }, { "float128", B::f128 },
   { "time_point", B::time_point }, { "time_point_sec", B::time_point_sec }, { "block_timestamp_type", B::block_timestamp },
   { "name", B::name }, { "bytes", B::bytes }, { "string", B::string }, { "checksum160", B::c160 }, { "checksum256", B::c256 },
   { "checksum512", B::c512 }, { "public_key", B::public_key }, { "private_key", B::private_key }, { "signature", B::signature },
   { "symbol", B::symbol }, { "symbol_code", B::symbol_code }, { "asset", B::asset } };

struct Type;
struct Field { std::string name; Type* t; };
struct Type {
   enum Kind { builtin, opt, ext, arr, st, var } kind = builtin;
   enum Shape { plain, narrow, unique, keyed, fixed, status } shape = plain; // of native arrays; status: a number shown as text
   uint32_t           n   = 0;
   std::string        name;
   B                  b   = B::boolean;
   Type*              sub = nullptr;
   std::vector<Field> f;
};

struct Abi {
   std::map<std::string, std::unique_ptr<Type>> own;
   std::map<std::string, Type*>                 types; // after alias resolution
   std::map<uint64_t, std::string>              actions, tables;
   bool                                         names_unknown = false, deep = false;
   // definitions still to be resolved
   std::map<std::string, const std::pair<std::string, std::string>*> adef;
   std::map<std::string, const AbiDef::Struct*>                      sdef;
   std::map<std::string, const AbiDef::Variant*>                     vdef;

   Type* make(const std::string& n, Type::Kind k) {
      auto& p = own[n];
      p.reset(new Type);
      p->name  = n;
      p->kind  = k;
      types[n] = p.get();
      return p.get();
   }
   // ok, bad (does not exist or not allowed) ; depth beyond what is surely supported sets deep
   Type* find(const std::string& n, int depth) {
      if (depth > 26) deep = true;
      if (depth > 200) return nullptr;
      auto it = types.find(n);
      if (it != types.end()) return it->second;
      auto ad = adef.find(n);
      if (ad != adef.end()) {
         Type* t = find(ad->second->second, depth + 1);
         if (!t || t->kind == Type::ext) return nullptr;
         types[n] = t;
         return t;
      }
      auto suffix = [&](const char* s) { size_t l = strlen(s); return n.size() >= l && n.compare(n.size() - l, l, s) == 0; };
      auto sub    = [&](size_t l) { return find(n.substr(0, n.size() - l), depth + 1); };
      if (suffix("?") || suffix("[]")) {
         bool  o = suffix("?");
         Type* s = sub(o ? 1 : 2);
         if (!s || s->kind == Type::opt || s->kind == Type::arr || s->kind == Type::ext) return nullptr;
         Type* t = make(n, o ? Type::opt : Type::arr);
         t->sub  = s;
         return t;
      }
      if (suffix("$")) {
         Type* s = sub(1);
         if (!s || s->kind == Type::ext) return nullptr;
         Type* t = make(n, Type::ext);
         t->sub  = s;
         return t;
      }
      return nullptr;
   }
   std::set<std::string> resolved;
   bool resolve_struct(const std::string& n, int depth) {
      if (depth > 26) deep = true;
      if (depth > 200) return false;
      if (resolved.count(n)) return true;
      auto* d = sdef[n];
      Type* t = types[n];
      std::vector<Field> f;
      if (!d->base.empty()) {
         Type* b = find(d->base, depth + 1);
         if (!b || b->kind != Type::st) return false;
         if (sdef.count(b->name) && !resolve_struct(b->name, depth + 1)) return false;
         f = b->f;
      }
      for (auto& x : d->fields) {
         Type* ft = find(x.second, depth + 1);
         if (!ft) return false;
         f.push_back({ x.first, ft });
      }
      t->f = std::move(f);
      resolved.insert(n);
      return true;
   }
   Tri build(const AbiDef& d) {
      bool err = false;
      names_unknown = d.names_unknown;
      for (auto& a : d.actions) actions[a.first] = a.second;
      for (auto& a : d.tables) tables[a.first] = a.second;
      for (auto& b : builtins) make(b.name, Type::builtin)->b = b.b;
      auto* ea = make("extended_asset", Type::st);
      ea->f    = { { "quantity", types["asset"] }, { "contract", types["name"] } };
      std::set<std::string> names;
      for (auto& [n, _] : types) names.insert(n);
      auto add = [&](const std::string& n) {
         if (n.find('\0') != n.npos) deep = true;
         if (n.empty() || !names.insert(n).second) { err = true; return false; }
         return true;
      };
      for (auto& t : d.types) if (add(t.first)) adef[t.first] = &t;
      for (auto& s : d.structs) if (add(s.name)) { sdef[s.name] = &s; make(s.name, Type::st); }
      for (auto& v : d.variants) if (add(v.name)) { vdef[v.name] = &v; make(v.name, Type::var); }
      if (err) return bad;
      for (auto& [n, _] : adef) if (!find(n, 0)) { err = true; break; }
      if (!err) for (auto& [n, _] : sdef) if (!resolve_struct(n, 0)) { err = true; break; }
      if (!err)
         for (auto& [n, v] : vdef) {
            for (auto& t : v->types) {
               Type* x = find(t, 1);
               if (!x) { err = true; break; }
               types[n]->f.push_back({ t, x });
            }
            if (err) break;
         }
      // a real cycle is always rejected; a long chain only in some orders
      if (err && !deep) return bad;
      if (deep) return cyclic(d) ? bad : unk;
      adef.clear(); sdef.clear(); vdef.clear();
      return ok;
   }
   static std::string strip(std::string n) {
      for (;;) {
         if (!n.empty() && (n.back() == '?' || n.back() == '$')) n.pop_back();
         else if (n.size() >= 2 && n.compare(n.size() - 2, 2, "[]") == 0) n.resize(n.size() - 2);
         else return n;
      }
   }
   // aliases through aliases, or bases through bases and aliases, that come back to where they started
   bool cyclic(const AbiDef& d) {
      std::map<std::string, std::string> alias, base;
      for (auto& t : d.types) alias[t.first] = t.second;
      for (auto& s : d.structs) base[s.name] = s.base;
      auto walk_alias = [&](std::string n) { // true: cycle
         for (int i = 0; i < 2000; ++i) {
            if (alias.count(n)) { n = alias[n]; continue; }
            std::string m = strip(n);
            if (m == n || !alias.count(m)) return false;
            n = m;
         }
         return true;
      };
      for (auto& [n, _] : alias) if (walk_alias(n)) return true;
      for (auto& [n, _] : base) {
         std::string c = n;
         int         i = 0;
         for (; i < 2000 && base.count(c) && !base[c].empty(); ++i) {
            c = base[c];
            while (alias.count(c)) c = alias[c]; // acyclic, see above
         }
         if (i == 2000) return true;
      }
      return false;
   }
};

// ------------------------------------------------------------------------------------------------------- binary reader
struct Rd {
   std::string_view d;
   size_t           p = 0;
   bool             fail = false;
   struct Mark { size_t at, len; int max; bool flag; };
   std::vector<Mark>* marks = nullptr; // where lengths, counts, indices and flags are
   bool             take(size_t n, std::string_view& r) {
      if (fail || n > d.size() - p) { fail = true; return false; }
      r = d.substr(p, n);
      p += n;
      return true;
   }
   uint64_t le(int n) {
      std::string_view r;
      uint64_t         v = 0;
      if (take(n, r)) for (int i = 0; i < n; ++i) v |= uint64_t(uint8_t(r[i])) << (8 * i);
      return v;
   }
   uint64_t flag() {
      if (marks) marks->push_back({ p, 1, 1, true });
      return le(1);
   }
   uint64_t varuint(int maxbytes) {
      uint64_t v = 0;
      size_t   p0 = p;
      for (int i = 0;; ++i) {
         if (i == maxbytes) { fail = true; return 0; }
         uint8_t b = uint8_t(le(1));
         if (fail) return 0;
         v |= uint64_t(b & 0x7f) << (7 * i);
         if (!(b & 0x80)) break;
      }
      if (marks) marks->push_back({ p0, p - p0, maxbytes, false });
      return maxbytes == 5 ? uint32_t(v) : v;
   }
   std::string str() {
      uint64_t         n = varuint(5);
      std::string_view r;
      if (fail || !take(n, r)) return {};
      return std::string(r);
   }
};
inline void put_varuint(std::string& o, uint64_t v) {
   do { uint8_t b = v & 0x7f; v >>= 7; if (v) b |= 0x80; o += char(b); } while (v);
}
inline void put_le(std::string& o, unsigned __int128 v, int n) { for (int i = 0; i < n; ++i) o += char(uint8_t(v >> (8 * i))); }
inline void put_str(std::string& o, std::string_view s) { put_varuint(o, s.size()); o += s; }

inline bool version_ok(const std::string& v) { return v.compare(0, 13, "eosio::abi/1.") == 0 && v.size() >= 13; }

inline Tri parse_abi_bin(std::string_view data, AbiDef& d) {
   if (data.empty()) return bad;
   Rd r{ data };
   d.version = r.str();
   if (r.fail || !version_ok(d.version)) return bad;
   auto many = [&](auto f) { uint64_t n = r.varuint(5); for (uint64_t i = 0; i < n && !r.fail; ++i) f(); };
   many([&] { auto a = r.str(); auto b = r.str(); d.types.push_back({ a, b }); });
   many([&] {
      AbiDef::Struct s;
      s.name = r.str();
      s.base = r.str();
      many([&] { auto a = r.str(); auto b = r.str(); s.fields.push_back({ a, b }); });
      d.structs.push_back(std::move(s));
   });
   many([&] { uint64_t n = r.le(8); auto t = r.str(); r.str(); d.actions.push_back({ n, t }); });
   many([&] {
      uint64_t n = r.le(8);
      r.str();
      many([&] { r.str(); });
      many([&] { r.str(); });
      d.tables.push_back({ n, r.str() });
   });
   many([&] { r.str(); r.str(); });
   many([&] { r.le(8); r.str(); });
   many([&] { r.le(2); uint64_t n = r.varuint(10); std::string_view x; if (!r.fail) r.take(n, x); });
   if (!r.fail && r.p < data.size())
      many([&] {
         AbiDef::Variant v;
         v.name = r.str();
         many([&] { v.types.push_back(r.str()); });
         d.variants.push_back(std::move(v));
      });
   return r.fail ? bad : ok;
}

inline std::string abi_to_bin(const AbiDef& d, bool with_variants = true) {
   std::string o;
   put_str(o, d.version);
   put_varuint(o, d.types.size());
   for (auto& t : d.types) { put_str(o, t.first); put_str(o, t.second); }
   put_varuint(o, d.structs.size());
   for (auto& s : d.structs) {
      put_str(o, s.name); put_str(o, s.base);
      put_varuint(o, s.fields.size());
      for (auto& f : s.fields) { put_str(o, f.first); put_str(o, f.second); }
   }
   put_varuint(o, d.actions.size());
   for (auto& a : d.actions) { put_le(o, a.first, 8); put_str(o, a.second); put_str(o, ""); }
   put_varuint(o, d.tables.size());
   for (auto& a : d.tables) { put_le(o, a.first, 8); put_str(o, "i64"); put_varuint(o, 0); put_varuint(o, 0); put_str(o, a.second); }
   o += std::string(3, '\0');
   if (with_variants || !d.variants.empty()) {
      put_varuint(o, d.variants.size());
      for (auto& v : d.variants) { put_str(o, v.name); put_varuint(o, v.types.size()); for (auto& t : v.types) put_str(o, t); }
   }
   return o;
}
inline std::string abi_to_json(const AbiDef& d) {
   auto        q = json_quote;
   std::string o = "{\"version\":" + q(d.version) + ",\"types\":[";
   bool        c = false;
   auto        sep = [&] { if (c) o += ','; c = true; };
   for (auto& t : d.types) { sep(); o += "{\"new_type_name\":" + q(t.first) + ",\"type\":" + q(t.second) + "}"; }
   o += "],\"structs\":["; c = false;
   for (auto& s : d.structs) {
      sep();
      o += "{\"name\":" + q(s.name) + ",\"base\":" + q(s.base) + ",\"fields\":[";
      for (size_t i = 0; i < s.fields.size(); ++i) o += std::string(i ? "," : "") + "{\"name\":" + q(s.fields[i].first) + ",\"type\":" + q(s.fields[i].second) + "}";
      o += "]}";
   }
   o += "],\"actions\":["; c = false;
   for (auto& a : d.actions) { sep(); o += "{\"name\":" + q(name_text(a.first)) + ",\"type\":" + q(a.second) + ",\"ricardian_contract\":\"\"}"; }
   o += "],\"tables\":["; c = false;
   for (auto& a : d.tables) { sep(); o += "{\"name\":" + q(name_text(a.first)) + ",\"index_type\":\"i64\",\"key_names\":[],\"key_types\":[],\"type\":" + q(a.second) + "}"; }
   o += "],\"ricardian_clauses\":[],\"error_messages\":[],\"abi_extensions\":[]";
   if (!d.variants.empty()) {
      o += ",\"variants\":["; c = false;
      for (auto& v : d.variants) {
         sep();
         o += "{\"name\":" + q(v.name) + ",\"types\":[";
         for (size_t i = 0; i < v.types.size(); ++i) o += std::string(i ? "," : "") + q(v.types[i]);
         o += "]}";
      }
      o += "]";
   }
   return o + "}";
}

inline Tri parse_abi_json(std::string_view text, AbiDef& d) {
   JV  v;
   int nest = 0;
   Tri t    = parse_json(text, v, &nest);
   if (t != ok) {
      return t;
   }
   bool unknown = false, err = false;
   auto str = [&](const JV& j, std::string& s) { if (j.kind != JV::str) { err = true; return; } s = j.s; if (s.find('\0') != s.npos) unknown = true; };
   using Fn = std::function<void(const JV&)>;
   auto object = [&](const JV& j, const std::vector<std::pair<const char*, Fn>>& m) {
      if (j.kind != JV::obj) { err = true; return; }
      std::set<std::string> seen;
      for (auto& [k, x] : j.o)
         for (auto& f : m)
            if (k == f.first) { if (!seen.insert(k).second) unknown = true; f.second(x); }
   };
   auto array = [&](const JV& j, const Fn& f) {
      if (j.kind != JV::arr) { err = true; return; }
      for (auto& x : j.a) f(x);
   };
   auto name = [&](const JV& j, uint64_t& n) { std::string s; str(j, s); if (!name_strict(s, n)) d.names_unknown = true; };
   std::string ign;
   Fn ignore_str = [&](const JV& x) { str(x, ign); };
   Fn ignore_strs = [&](const JV& x) { array(x, ignore_str); };
   object(v, {
      { "version", [&](const JV& j) { str(j, d.version); } },
      { "types", [&](const JV& j) { array(j, [&](const JV& x) {
           std::pair<std::string, std::string> p;
           object(x, { { "new_type_name", [&](const JV& y) { str(y, p.first); } }, { "type", [&](const JV& y) { str(y, p.second); } } });
           d.types.push_back(p); }); } },
      { "structs", [&](const JV& j) { array(j, [&](const JV& x) {
           AbiDef::Struct s;
           object(x, { { "name", [&](const JV& y) { str(y, s.name); } }, { "base", [&](const JV& y) { str(y, s.base); } },
                       { "fields", [&](const JV& y) { array(y, [&](const JV& z) {
                            std::pair<std::string, std::string> p;
                            object(z, { { "name", [&](const JV& w) { str(w, p.first); } }, { "type", [&](const JV& w) { str(w, p.second); } } });
                            s.fields.push_back(p); }); } } });
           d.structs.push_back(s); }); } },
      { "actions", [&](const JV& j) { array(j, [&](const JV& x) {
           std::pair<uint64_t, std::string> p;
           object(x, { { "name", [&](const JV& y) { name(y, p.first); } }, { "type", [&](const JV& y) { str(y, p.second); } }, { "ricardian_contract", ignore_str } });
           d.actions.push_back(p); }); } },
      { "tables", [&](const JV& j) { array(j, [&](const JV& x) {
           std::pair<uint64_t, std::string> p;
           object(x, { { "name", [&](const JV& y) { name(y, p.first); } }, { "type", [&](const JV& y) { str(y, p.second); } }, { "index_type", ignore_str },
                       { "key_names", ignore_strs }, { "key_types", ignore_strs } });
           d.tables.push_back(p); }); } },
      { "ricardian_clauses", [&](const JV& j) { array(j, [&](const JV& x) { object(x, { { "id", ignore_str }, { "body", ignore_str } }); }); } },
      { "error_messages", [&](const JV& j) { array(j, [&](const JV& x) { object(x, { { "error_code", [&](const JV& y) {
           if (y.kind != JV::str) { err = true; return; }
           if (y.s.empty()) err = true;
           for (char c : y.s) if (c < '0' || c > '9') err = true;
           if (y.s.size() > 18) unknown = true; } }, { "error_msg", ignore_str } }); }); } },
      { "abi_extensions", [&](const JV& j) { array(j, [&](const JV&) { err = true; }); } },
      { "variants", [&](const JV& j) { array(j, [&](const JV& x) {
           AbiDef::Variant s;
           object(x, { { "name", [&](const JV& y) { str(y, s.name); } }, { "types", [&](const JV& y) { array(y, [&](const JV& z) { std::string n; str(z, n); s.types.push_back(n); }); } } });
           d.variants.push_back(s); }); } },
   });
   if (unknown) return unk;
   if (err || !version_ok(d.version)) return bad;
   return ok;
}

// ------------------------------------------------------------------------------------------------------- base58 keys
inline const char* b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
inline bool from58(std::string_view s, std::string& out) {
   std::vector<uint8_t> v; // little endian
   for (char c : s) {
      const char* q = c ? strchr(b58, c) : nullptr;
      if (!q) return false;
      int carry = int(q - b58);
      for (auto& x : v) { int y = x * 58 + carry; x = uint8_t(y); carry = y >> 8; }
      if (carry) v.push_back(uint8_t(carry));
   }
   out.clear();
   for (char c : s) { if (c != '1') break; out += '\0'; }
   out.append(v.rbegin(), v.rend());
   return true;
}
inline std::string to58(std::string_view b) {
   std::string d;
   for (unsigned char c : b) {
      int carry = c;
      for (auto& x : d) { int y = (uint8_t)x * 256 + carry; x = char(y % 58); carry = y / 58; }
      while (carry) { d += char(carry % 58); carry /= 58; }
   }
   std::string r;
   for (char c : b) { if (c) break; r += '1'; }
   for (size_t i = d.size(); i-- > 0;) r += b58[(int)d[i]];
   return r;
}
inline std::string key58(std::string_view payload, std::string_view suffix) {
   return to58(std::string(payload) + ripemd160(std::string(payload) + std::string(suffix)).substr(0, 4));
}
inline std::string wif(std::string_view secret32) {
   std::string w = "\x80" + std::string(secret32);
   return to58(w + sha256(sha256(w)).substr(0, 4));
}

// payload of a key-like builtin without its index; reads it
inline bool read_key_payload(Rd& r, B b, uint32_t idx, std::string& payload) {
   size_t p0 = r.p;
   std::string_view x;
   if (b == B::public_key) {
      if (idx > 2 || !r.take(33, x)) return false;
      if (idx == 2) { r.le(1); r.str(); }
   } else if (b == B::private_key) {
      if (idx > 1 || !r.take(32, x)) return false;
   } else {
      if (idx > 2 || !r.take(65, x)) return false;
      if (idx == 2) { uint64_t n = r.varuint(10); if (!r.fail) r.take(n, x); if (!r.fail) r.str(); }
   }
   if (r.fail) return false;
   payload = std::string(r.d.substr(p0, r.p - p0));
   return true;
}
// What re-serialising the parsed payload gives (lengths become canonical)
inline std::string canon_payload(std::string_view payload, B b, uint32_t idx) {
   if (idx != 2) return std::string(payload);
   Rd          r{ payload };
   std::string o;
   std::string_view x;
   if (b == B::public_key) { r.take(34, x); o = x; put_str(o, r.str()); }
   else { r.take(65, x); o = x; uint64_t n = r.varuint(10); r.take(n, x); put_str(o, x); put_str(o, r.str()); }
   return o;
}
inline const char* key_prefix(B b, uint32_t idx) {
   static const char* t[3][3] = { { "PUB_K1_", "PUB_R1_", "PUB_WA_" }, { "PVT_K1_", "PVT_R1_", "" }, { "SIG_K1_", "SIG_R1_", "SIG_WA_" } };
   return t[b == B::public_key ? 0 : b == B::private_key ? 1 : 2][idx];
}
inline const char* key_suffix(uint32_t idx) { static const char* s[] = { "K1", "R1", "WA" }; return s[idx]; }

inline Tri key_from_text(B b, std::string_view s, std::string& out) {
   int  kind = b == B::public_key ? 0 : b == B::private_key ? 1 : 2;
   auto finish = [&](uint32_t idx, std::string_view body, std::string_view suffix) -> Tri {
      std::string w;
      if (!from58(body, w) || w.size() < 5) return bad;
      std::string pay = w.substr(0, w.size() - 4);
      if (ripemd160(pay + std::string(suffix)).substr(0, 4) != w.substr(w.size() - 4)) return bad;
      Rd          r{ pay };
      std::string got;
      if (!read_key_payload(r, b, idx, got)) return bad;
      if (r.p != pay.size()) return bad;
      put_varuint(out, idx);
      out += canon_payload(got, b, idx);
      return ok;
   };
   for (uint32_t i = 0; i < (kind == 1 ? 2u : 3u); ++i)
      if (s.substr(0, 7) == key_prefix(b, i)) return finish(i, s.substr(7), key_suffix(i));
   if (kind == 0 && s.substr(0, 3) == "EOS") return finish(0, s.substr(3), "");
   if (kind == 1 && s.substr(0, 4) != "PVT_") {
      std::string w;
      if (!from58(s, w) || w.size() != 37 || uint8_t(w[0]) != 0x80) return bad;
      if (sha256(sha256(w.substr(0, 33))).substr(0, 4) == w.substr(33)) {
         out += '\0';
         out += w.substr(1, 32);
         return ok;
      }
      return unk; // the checksum of this legacy format is not verified (known finding D10)
   }
   return bad;
}

// ------------------------------------------------------------------------------------------------------- text forms
inline int64_t days_from_civil(int64_t y, unsigned m, unsigned d) {
   y -= m <= 2;
   int64_t  era = (y >= 0 ? y : y - 399) / 400;
   unsigned yoe = unsigned(y - era * 400), doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + int64_t(doe) - 719468;
}
inline std::string time_text(uint64_t us) {
   int64_t  z   = int64_t(us / 86400000000ull);
   uint64_t ms  = us % 86400000000ull / 1000;
   // walk the civil calendar
   int64_t y = 1970 + z / 366;
   while (days_from_civil(y + 1, 1, 1) <= z) ++y;
   unsigned m = 1;
   while (m < 12 && days_from_civil(y, m + 1, 1) <= z) ++m;
   unsigned d = unsigned(z - days_from_civil(y, m, 1) + 1);
   char     b[64];
   snprintf(b, 64, "%04d-%02u-%02uT%02u:%02u:%02u.%03u", int(y), m, d, unsigned(ms / 3600000), unsigned(ms / 60000 % 60), unsigned(ms / 1000 % 60), unsigned(ms % 1000));
   return b;
}
// secs, fraction in us and number of fraction digits (-1: no '.')
inline Tri parse_time(std::string_view s, uint64_t& secs, uint64_t& us, int& nd) {
   auto num = [&](size_t p, size_t n, unsigned& v) {
      v = 0;
      for (size_t i = p; i < p + n; ++i) { if (i >= s.size() || s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
      return true;
   };
   unsigned y, m, d, h, mi, se;
   auto     ch = [&](size_t p, char c) { return p < s.size() && s[p] == c; };
   if (!num(0, 4, y) || !ch(4, '-') || !num(5, 2, m) || !ch(7, '-') || !num(8, 2, d) || !ch(10, 'T') || !num(11, 2, h) || !ch(13, ':') || !num(14, 2, mi) || !ch(16, ':') || !num(17, 2, se)) return bad;
   nd = -1;
   us = 0;
   if (s.size() > 19) {
      if (s[19] != '.') return bad;
      nd         = 0;
      uint64_t sc = 100000;
      for (size_t p = 20; p < s.size(); ++p) {
         if (s[p] < '0' || s[p] > '9') return bad;
         us += sc * (s[p] - '0');
         sc /= 10;
         ++nd;
      }
   }
   if (m < 1 || m > 12 || d < 1 || h > 23 || mi > 59 || se > 59 || y < 1970 || y > 2106) return bad; // there is no such time, or no such value
   static const unsigned dm[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
   if (d > dm[m - 1] + (m == 2 && leap)) return bad;
   secs = uint64_t(days_from_civil(y, m, d)) * 86400 + h * 3600 + mi * 60 + se;
   return secs >> 32 ? bad : ok;
}
inline std::string symcode_text(uint64_t v) {
   std::string r;
   for (; v; v >>= 8) r += char(v);
   return r;
}
// ok, bad, or unk: tolerated, and if so then with this value
inline Tri parse_symcode(std::string_view s, uint64_t& v) {
   size_t p = 0;
   while (p < s.size() && s[p] == ' ') ++p;
   s = s.substr(p);
   if (s.empty() || s.size() > 7) { // too long or empty; a leading run of letters that is too long is rejected too
      return bad;
   }
   v = 0;
   for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] < 'A' || s[i] > 'Z') return bad;
      v |= uint64_t(uint8_t(s[i])) << (8 * i);
   }
   return p ? unk : ok;
}
inline std::string asset_text(int64_t amount, uint64_t sym) {
   bool        neg = amount < 0;
   uint64_t    u   = neg ? 0 - uint64_t(amount) : uint64_t(amount);
   std::string d   = std::to_string(u);
   unsigned    pr  = sym & 0xff;
   if (pr) {
      while (d.size() <= pr) d = "0" + d;
      d.insert(d.size() - pr, ".");
   }
   return (neg ? "-" : "") + d + " " + symcode_text(sym >> 8);
}
inline Tri parse_asset(std::string_view s, int64_t& amount, uint64_t& sym) {
   size_t p = 0, nd = 0;
   bool   lead = false, neg = false;
   while (p < s.size() && s[p] == ' ') ++p, lead = true;
   if (p < s.size() && s[p] == '-') { neg = true; ++p; }
   unsigned __int128 u = 0;
   unsigned pr = 0;
   auto     dig = [&] { return p < s.size() && s[p] >= '0' && s[p] <= '9'; };
   auto     add = [&] { u = std::min(u * 10 + (s[p++] - '0'), (unsigned __int128)1 << 100); ++nd; };
   while (dig()) add();
   bool dot = false;
   size_t id = nd;
   if (p < s.size() && s[p] == '.') { ++p; dot = true; while (dig()) { add(); ++pr; } }
   size_t   sp = p;
   uint64_t c  = 0;
   while (p < s.size() && s[p] == ' ') ++p;
   Tri t = parse_symcode(s.substr(p), c);
   if (t == bad || !nd || pr > 255 || u > ((unsigned __int128)1 << 63) - !neg) return bad;
   amount = int64_t(neg ? 0 - uint64_t(u) : uint64_t(u));
   sym    = c << 8 | pr;
   return lead || id == 0 || p != sp + 1 || (dot && pr == 0) ? unk : ok; // tolerated, not relied on
}

// ------------------------------------------------------------------------------------------------------- expected text
struct Expect { // text with holes for floating point numbers and unspecified strings
   struct Seg { int kind; std::string s; double d; }; // 0 literal, 1 double, 2 any string literal
   std::vector<Seg> v;
   size_t           size = 0;
   void lit(std::string_view s) {
      size += s.size();
      if (!v.empty() && v.back().kind == 0) v.back().s += s;
      else v.push_back({ 0, std::string(s), 0 });
   }
   void dbl(double d) { v.push_back({ 1, "", d }); size += 8; }
   void any() { v.push_back({ 2, "", 0 }); size += 2; }
   bool match(std::string_view t) const {
      size_t p = 0;
      for (auto& g : v) {
         if (g.kind == 0) {
            if (t.substr(p, g.s.size()) != g.s) return false;
            p += g.s.size();
         } else if (g.kind == 1) {
            size_t e = p;
            while (e < t.size() && (isdigit((unsigned char)t[e]) || strchr("+-.eE", t[e]))) ++e;
            JV          jv;
            std::string num(t.substr(p, e - p));
            if (num.empty()) return false;
            JsonParser j{ num };
            std::string raw;
            if (!j.number(raw) || j.p != num.size()) return false;
            double d = strtod(num.c_str(), nullptr);
            if (!(d == g.d) || std::signbit(d) != std::signbit(g.d)) return false;
            p = e;
         } else {
            JsonParser  j{ t, p };
            std::string raw;
            if (!j.string(raw)) return false;
            p = j.p;
         }
      }
      return p == t.size();
   }
   std::string text() const {
      std::string r;
      for (auto& g : v) { char b[64]; if (g.kind == 0) r += g.s; else if (g.kind == 1) { snprintf(b, 64, "%.17g", g.d); r += b; } else r += "\"...\""; }
      return r;
   }
};

inline std::string dec128(unsigned __int128 v, bool neg) {
   std::string r;
   if (neg) v = -v;
   do { r += char('0' + int(v % 10)); v /= 10; } while (v);
   if (neg) r += '-';
   std::reverse(r.begin(), r.end());
   return r;
}

// ------------------------------------------------------------------------------------------------------- bin -> JSON
struct Decoder {
   Rd       r;
   Expect   e;
   int      maxnest = 0;
   size_t   limit   = 8 << 20;
   uint64_t steps   = 0;
   bool     unknown = false;
   bool     zero_width_array = false; // many elements that occupy no input (known finding D9)
   bool     odd_ext = false;          // extension followed by something that is present

   bool scalar(B b) {
      auto q = [&](const std::string& s) { e.lit(json_quote(s)); };
      std::string_view x;
      auto hex = [&](std::string_view v) { e.lit("\"" + tohex(v) + "\""); };
      switch (b) {
         case B::boolean: { auto v = r.le(1); if (!r.fail) e.lit(v ? "true" : "false"); break; }
         case B::i8: e.lit(std::to_string(int(int8_t(r.le(1))))); break;
         case B::u8: e.lit(std::to_string(r.le(1))); break;
         case B::i16: e.lit(std::to_string(int(int16_t(r.le(2))))); break;
         case B::u16: e.lit(std::to_string(r.le(2))); break;
         case B::i32: e.lit(std::to_string(int32_t(r.le(4)))); break;
         case B::u32: e.lit(std::to_string(uint32_t(r.le(4)))); break;
         case B::i64: e.lit("\"" + std::to_string(int64_t(r.le(8))) + "\""); break;
         case B::u64: e.lit("\"" + std::to_string(r.le(8)) + "\""); break;
         case B::i128: case B::u128: {
            if (!r.take(16, x)) break;
            unsigned __int128 v = 0;
            for (int i = 15; i >= 0; --i) v = v << 8 | uint8_t(x[i]);
            e.lit("\"" + dec128(v, b == B::i128 && (v >> 127)) + "\"");
            break;
         }
         case B::varu32: e.lit(std::to_string(uint32_t(r.varuint(5)))); break;
         case B::vari32: { uint32_t v = uint32_t(r.varuint(5)); e.lit(std::to_string(int32_t((v >> 1) ^ (0 - (v & 1))))); break; }
         case B::f32: case B::f64: {
            double d;
            if (b == B::f32) { uint32_t u = uint32_t(r.le(4)); float f; memcpy(&f, &u, 4); d = f; }
            else { uint64_t u = r.le(8); memcpy(&d, &u, 8); }
            if (std::isnan(d)) e.lit("\"NaN\"");
            else if (std::isinf(d)) e.lit(d > 0 ? "\"Infinity\"" : "\"-Infinity\"");
            else e.dbl(d);
            break;
         }
         case B::f128: if (r.take(16, x)) hex(x); break;
         case B::c160: if (r.take(20, x)) hex(x); break;
         case B::c256: if (r.take(32, x)) hex(x); break;
         case B::c512: if (r.take(64, x)) hex(x); break;
         case B::time_point: {
            uint64_t us = r.le(8);
            if (us < 253402300800000000ull) q(time_text(us)); else e.any();
            break;
         }
         case B::time_point_sec: q(time_text(uint64_t(uint32_t(r.le(4))) * 1000000)); break;
         case B::block_timestamp: q(time_text((uint64_t(uint32_t(r.le(4))) * 500 + 946684800000ull) * 1000)); break;
         case B::name: q(name_text(r.le(8))); break;
         case B::bytes: { uint64_t n = r.varuint(10); if (!r.fail && r.take(n, x)) hex(x); break; }
         case B::string: { auto s = r.str(); if (!r.fail) q(s); break; }
         case B::symbol_code: q(symcode_text(r.le(8))); break;
         case B::symbol: { uint64_t v = r.le(8); q(std::to_string(v & 0xff) + "," + symcode_text(v >> 8)); break; }
         case B::asset: {
            int64_t a = int64_t(r.le(8));
            uint64_t s = r.le(8);
            if (a == INT64_MIN) e.any(); else q(asset_text(a, s));
            break;
         }
         case B::public_key: case B::private_key: case B::signature: {
            uint32_t    idx = uint32_t(r.varuint(5));
            std::string p;
            if (r.fail || !read_key_payload(r, b, idx, p)) { r.fail = true; break; }
            q(key_prefix(b, idx) + key58(canon_payload(p, b, idx), key_suffix(idx)));
            break;
         }
      }
      return !r.fail;
   }
   bool value(const Type* t, bool allow, int nest) {
      if (nest > maxnest) maxnest = nest;
      if (++steps > 3000000 || e.size > limit) { unknown = true; return false; }
      if (nest > 140) return false; // too deep: always an error
      switch (t->kind) {
         case Type::builtin:
            if (t->shape == Type::status) {
               static const char* st[] = { "executed", "soft_fail", "hard_fail", "delayed", "expired" };
               auto v = r.le(1);
               if (v > 4) r.fail = true;
               if (!r.fail) e.lit(json_quote(st[v]));
               return !r.fail;
            }
            return scalar(t->b);
         case Type::opt: {
            auto v = r.le(1);
            if (r.fail) return false;
            if (!v) { e.lit("null"); return true; }
            return value(t->sub, allow, nest);
         }
         case Type::ext: return value(t->sub, allow, nest);
         case Type::arr: {
            if (nest + 1 > maxnest) maxnest = nest + 1;
            uint64_t n = r.varuint(5);
            if (r.fail) return false;
            e.lit("[");
            for (uint64_t i = 0; i < n; ++i) {
               if (i) e.lit(",");
               size_t p0 = r.p;
               if (!value(t->sub, false, nest + 1)) return false;
               if (r.p == p0 && n > 10000) { zero_width_array = unknown = true; return false; }
            }
            e.lit("]");
            return true;
         }
         case Type::st: {
            if (nest + 1 > maxnest) maxnest = nest + 1;
            e.lit("{");
            bool skipped = false;
            for (size_t i = 0; i < t->f.size(); ++i) {
               auto& f = t->f[i];
               if (r.p == r.d.size() && f.t->kind == Type::ext && allow) { skipped = true; continue; }
               if (skipped) odd_ext = true;
               if (i) e.lit(",");
               e.lit(json_quote(f.name) + ":");
               if (!value(f.t, allow && i + 1 == t->f.size(), nest + 1)) return false;
            }
            e.lit("}");
            return true;
         }
         case Type::var: {
            if (nest + 1 > maxnest) maxnest = nest + 1;
            uint64_t n = r.varuint(5);
            if (r.fail || n >= t->f.size()) { r.fail = true; return false; }
            e.lit("[" + json_quote(t->f[n].name) + ",");
            if (!value(t->f[n].t, allow, nest + 1)) return false;
            e.lit("]");
            return true;
         }
      }
      return false;
   }
};
struct B2J { Tri t; Expect e; size_t consumed = 0; bool zero_width = false; };
inline B2J bin_to_json(const Type* t, std::string_view data, bool to_end = true) {
   Decoder d;
   d.r.d    = data;
   bool okk = d.value(t, true, 0);
   B2J  r;
   r.consumed = d.r.p;
   r.zero_width = d.zero_width_array;
   if (d.unknown || d.odd_ext) r.t = unk;
   else if (okk && (!to_end || d.r.p == data.size())) r.t = d.maxnest > 118 ? unk : ok;
   else r.t = bad;
   if (!okk && !d.r.fail && !d.unknown && d.maxnest <= 140) r.t = unk;
   r.e = std::move(d.e);
   return r;
}

// ------------------------------------------------------------------------------------------------------- bin -> bin
// What decoding and encoding again gives: the same value with lengths and flags in their canonical form.
struct Recoder {
   Rd          r;
   std::string o;
   uint64_t    steps   = 0;
   bool        unknown = false;
   int         depth   = 0, maxdepth = 0;
   static int  width(B b) {
      switch (b) {
         case B::i8: case B::u8: return 1;
         case B::i16: case B::u16: return 2;
         case B::i32: case B::u32: case B::f32: case B::time_point_sec: case B::block_timestamp: return 4;
         case B::i64: case B::u64: case B::f64: case B::time_point: case B::name: case B::symbol: case B::symbol_code: return 8;
         case B::i128: case B::u128: case B::f128: case B::asset: return 16;
         case B::c160: return 20;
         case B::c256: return 32;
         case B::c512: return 64;
         default: return 0;
      }
   }
   void canon_set(const Type* t, std::vector<std::string>& el, std::string& save);
   static bool bitwise(B b) { return b >= B::i8 && b <= B::u128 || b == B::f32 || b == B::f64; }
   bool value(const Type* t) {
      if (++steps > 2000000) { unknown = true; return false; }
      std::string_view x;
      switch (t->kind) {
         case Type::builtin:
            if (int w = width(t->b)) { if (r.take(w, x)) o += x; return !r.fail; }
            switch (t->b) {
               case B::boolean: { auto v = r.flag(); if (!r.fail) o += char(v != 0); break; }
               case B::varu32: { auto v = r.varuint(5); if (!r.fail) put_varuint(o, v); break; }
               case B::vari32: { auto v = r.varuint(5); if (!r.fail) put_varuint(o, v); break; }
               case B::bytes: { auto n = r.varuint(10); if (!r.fail && r.take(n, x)) put_str(o, x); break; }
               case B::string: { auto n = r.varuint(5); if (!r.fail && r.take(n, x)) put_str(o, x); break; }
               default: {
                  uint32_t    idx = uint32_t(r.varuint(5));
                  std::string p;
                  if (r.fail || !read_key_payload(r, t->b, idx, p)) { r.fail = true; break; }
                  put_varuint(o, idx);
                  o += canon_payload(p, t->b, idx);
               }
            }
            return !r.fail;
         case Type::opt: {
            auto v = r.flag();
            if (r.fail) return false;
            o += char(v != 0);
            return !v || value(t->sub);
         }
         case Type::ext: return value(t->sub);
         case Type::arr: {
            bool     wide = t->shape == Type::plain && t->sub->kind == Type::builtin && bitwise(t->sub->b);
            uint64_t n    = r.varuint(wide ? 10 : 5);
            if (r.fail) return false;
            if (wide && n > (r.d.size() - r.p) / width(t->sub->b)) { r.fail = true; return false; }
            if (t->shape == Type::fixed && n != t->n) { r.fail = true; return false; }
            bool                     sorted = t->shape == Type::unique || t->shape == Type::keyed;
            std::string              save;
            std::vector<std::string> el;
            if (sorted) save.swap(o);
            else put_varuint(o, n);
            ++depth;
            for (uint64_t i = 0; i < n; ++i) {
               size_t p0 = r.p;
               if (!value(t->sub)) return false;
               if (r.p == p0 && n > 10000) { unknown = true; return false; }
               if (sorted) { el.emplace_back(); el.back().swap(o); }
            }
            --depth;
            if (sorted) canon_set(t, el, save);
            return true;
         }
         case Type::st:
            for (auto& f : t->f) if (!value(f.t)) return false;
            return true;
         case Type::var: {
            uint64_t n = r.varuint(5);
            if (r.fail || n >= t->f.size()) { r.fail = true; return false; }
            put_varuint(o, n);
            ++depth;
            maxdepth = std::max(maxdepth, depth);
            bool k = depth < 400 && value(t->f[n].t);
            if (depth >= 400) unknown = true;
            --depth;
            return k;
         }
      }
      return false;
   }
};
struct Recode { Tri t; std::string bin; size_t consumed; bool heavy; uint64_t steps; }; // heavy: more work or depth than is reasonable to try
inline Recode recode(const Type* t, std::string_view data) {
   Recoder c;
   c.r.d  = data;
   bool k = c.value(t);
   return { c.unknown ? unk : k ? ok : bad, std::move(c.o), c.r.p, c.unknown || c.maxdepth > 60, c.steps };
}
inline std::vector<Rd::Mark> marks_of(const Type* t, std::string_view data) {
   std::vector<Rd::Mark> m;
   Recoder               c;
   c.r.d     = data;
   c.r.marks = &m;
   c.value(t);
   return m;
}
// Order of two valid encodings of one type: as the values order. unknown: not a number.
struct Compare {
   Rd   a, b;
   bool unknown = false;
   template <typename T>
   static int three(T x, T y) { return x < y ? -1 : y < x; }
   int bytes(bool sgn) {
      uint64_t n = a.varuint(10), m = b.varuint(10);
      return seq(n, m, [&] { return sgn ? three(int8_t(a.le(1)), int8_t(b.le(1))) : three(uint8_t(a.le(1)), uint8_t(b.le(1))); });
   }
   template <typename F>
   int seq(uint64_t n, uint64_t m, F f) {
      for (uint64_t i = 0; i < n && i < m; ++i) if (int c = f()) return c;
      return three(n, m);
   }
   int raw(int n, bool sgn = false) {
      for (int i = 0; i < n; ++i) {
         int c = sgn ? three(int8_t(a.le(1)), int8_t(b.le(1))) : three(uint8_t(a.le(1)), uint8_t(b.le(1)));
         if (c) { a.p += n - 1 - i; b.p += n - 1 - i; return c; }
      }
      return 0;
   }
   int num(int n, bool sgn) {
      std::string_view x, y;
      a.take(n, x); b.take(n, y);
      for (int i = n; i-- > 0;) {
         int c = sgn && i == n - 1 ? three(int8_t(x[i]), int8_t(y[i])) : three(uint8_t(x[i]), uint8_t(y[i]));
         if (c) return c;
      }
      return 0;
   }
   int scalar(B t) {
      switch (t) {
         case B::boolean: return three(a.le(1) != 0, b.le(1) != 0);
         case B::i8: return num(1, true);
         case B::i16: return num(2, true);
         case B::i32: return num(4, true);
         case B::i64: case B::time_point: return num(8, true);
         case B::i128: return num(16, true);
         case B::u8: return num(1, false);
         case B::u16: return num(2, false);
         case B::u32: case B::time_point_sec: case B::block_timestamp: return num(4, false);
         case B::u64: case B::name: case B::symbol: case B::symbol_code: return num(8, false);
         case B::u128: return num(16, false);
         case B::varu32: return three(a.varuint(5), b.varuint(5));
         case B::vari32: { auto z = [](uint64_t v) { return int32_t(uint32_t(v) >> 1) ^ -int32_t(v & 1); }; auto x = z(a.varuint(5)); return three(x, z(b.varuint(5))); }
         case B::f32: { uint32_t u = uint32_t(a.le(4)), v = uint32_t(b.le(4)); float x, y; memcpy(&x, &u, 4); memcpy(&y, &v, 4); if (std::isnan(x) || std::isnan(y)) unknown = true; return three(x, y); }
         case B::f64: { uint64_t u = a.le(8), v = b.le(8); double x, y; memcpy(&x, &u, 8); memcpy(&y, &v, 8); if (std::isnan(x) || std::isnan(y)) unknown = true; return three(x, y); }
         case B::f128: return raw(16);
         case B::c160: return raw(20);
         case B::c256: return raw(32);
         case B::c512: return raw(64);
         case B::asset: { int c = num(8, true); if (c) return c; return num(8, false); }
         case B::bytes: return bytes(true);
         case B::string: return bytes(false);
         default: {
            uint64_t i = a.varuint(5), j = b.varuint(5);
            if (i != j) return three(i, j);
            if (int c = raw(t == B::public_key ? 33 : t == B::private_key ? 32 : 65, true)) return c;
            if (i == 2 && t == B::public_key) { if (int c = num(1, false)) return c; return bytes(false); }
            if (i == 2) { if (int c = bytes(false)) return c; return bytes(false); }
            return 0;
         }
      }
   }
   int value(const Type* t) {
      switch (t->kind) {
         case Type::builtin: return scalar(t->b);
         case Type::opt: { auto x = a.le(1), y = b.le(1); if (!x || !y) return three(x != 0, y != 0); return value(t->sub); }
         case Type::ext: return value(t->sub);
         case Type::arr: { uint64_t n = a.varuint(10), m = b.varuint(10); return seq(n, m, [&] { return value(t->sub); }); }
         case Type::st: for (auto& f : t->f) if (int c = value(f.t)) return c; return 0;
         case Type::var: { uint64_t i = a.varuint(5), j = b.varuint(5); if (i != j) return three(i, j); return value(t->f[i].t); }
      }
      return 0;
   }
};

inline int compare(const Type* t, std::string_view a, std::string_view b, bool* unknown = nullptr) {
   Compare c;
   c.a.d = a;
   c.b.d = b;
   int r = c.value(t);
   if (unknown) *unknown = c.unknown;
   return r;
}
inline void Recoder::canon_set(const Type* t, std::vector<std::string>& el, std::string& save) {
   const Type* k    = t->shape == Type::keyed ? t->sub->f[0].t : t->sub;
   auto        less = [&](const std::string& a, const std::string& b) { return compare(k, a, b) < 0; };
   std::stable_sort(el.begin(), el.end(), less); // of equal ones the first stays
   el.erase(std::unique(el.begin(), el.end(), [&](auto& a, auto& b) { return !less(a, b); }), el.end());
   o.swap(save);
   put_varuint(o, el.size());
   for (auto& x : el) o += x;
}

// ------------------------------------------------------------------------------------------------------- JSON -> bin
inline uint64_t murmur(std::string_view s) { // names which are not valid are replaced by a hash
   const uint64_t mul = 0xc6a4a7935bd1e995ull;
   auto mixup = [](uint64_t v) { return v ^ (v >> 47); };
   uint64_t h = 0xbadd00d00ull ^ (s.size() * mul);
   size_t   p = 0;
   for (; p + 8 <= s.size(); p += 8) {
      uint64_t x = 0;
      for (int i = 0; i < 8; ++i) { x |= uint64_t(int64_t((signed char)s[p + i])); x <<= 8; }
      h = (h ^ mixup(x * mul) * mul) * mul;
   }
   if (p < s.size()) {
      uint64_t x = 0;
      for (size_t i = s.size(); i-- > p;) x = (x << 8) + uint8_t(s[i]);
      h = (h ^ x) * mul;
   }
   h = mixup(h) * mul;
   return mixup(h);
}
struct Encoder {
   bool        reorder = false;
   std::string o;
   bool        unknown = false, skipped = false;
   bool        lenient = false; // may be refused; if not then this is its value
   bool fail() { return false; }

   bool integer(const std::string& s, bool sgn, int bytes) {
      bool   neg = false;
      size_t p   = 0;
      if (sgn && !s.empty() && s[0] == '-') { neg = true; p = 1; }
      if (p >= s.size()) return false;
      unsigned __int128 v = 0, lim = ~(unsigned __int128)0;
      if (bytes < 16) lim = (((unsigned __int128)1) << (8 * bytes)) - 1;
      if (sgn) lim = (lim >> 1) + (neg ? 1 : 0);
      for (; p < s.size(); ++p) {
         if (s[p] < '0' || s[p] > '9') return false;
         unsigned d = s[p] - '0';
         if (v > (lim - d) / 10) { // v*10+d > lim
            for (size_t k = p; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false;
            return false;
         }
         v = v * 10 + d;
      }
      if (neg) v = -v;
      ival = v;
      return true;
   }
   unsigned __int128 ival = 0;

   bool hexstr(const std::string& s, std::string& out) {
      if (s.size() & 1) return false;
      for (size_t i = 0; i < s.size(); ++i) if (!isxdigit((unsigned char)s[i])) return false;
      for (size_t i = 0; i < s.size(); i += 2) out += char(strtol(s.substr(i, 2).c_str(), nullptr, 16));
      return true;
   }
   bool scalar(B b, const JV& v) {
      if (b == B::boolean) {
         if (v.kind != JV::boolean) return false;
         o += char(v.b);
         return true;
      }
      if (v.kind != JV::str) return false;
      auto& s  = v.s;
      auto  in = [&](bool sg, int n) { if (!integer(s, sg, n)) return false; put_le(o, ival, n); return true; };
      auto  tri = [&](Tri t) { if (t == unk) { unknown = true; return true; } return t == ok; };
      auto  may = [&](Tri t) { if (t == unk) lenient = true; return t != bad; };
      switch (b) {
         case B::boolean: return false;
         case B::i8: return in(true, 1);
         case B::u8: return in(false, 1);
         case B::i16: return in(true, 2);
         case B::u16: return in(false, 2);
         case B::i32: return in(true, 4);
         case B::u32: return in(false, 4);
         case B::i64: return in(true, 8);
         case B::u64: return in(false, 8);
         case B::i128: return in(true, 16);
         case B::u128: return in(false, 16);
         case B::varu32: if (!integer(s, false, 4)) return false; put_varuint(o, uint32_t(ival)); return true;
         case B::vari32: {
            if (!integer(s, true, 4)) return false;
            int32_t x = int32_t(uint32_t(ival));
            put_varuint(o, (uint32_t(x) << 1) ^ uint32_t(x < 0 ? -1 : 0));
            return true;
         }
         case B::f32: case B::f64: {
            if (s == "Infinity" || s == "-Infinity" || s == "NaN") {}
            else {
               JsonParser  j{ s };
               std::string raw;
               if (s.empty()) return false;
               if (!j.number(raw) || j.p != s.size() || j.unknown) lenient = true; // spaces, plus, hex, inf
            }
            char* e;
            bool  digits = s.find_first_of("123456789") != s.npos;
            double d = b == B::f32 ? double(strtof(s.c_str(), &e)) : strtod(s.c_str(), &e);
            if (e != s.c_str() + s.size()) return false;
            if (std::isinf(d) && digits) return false; // too large
            if (d == 0 && digits) lenient = true;      // too small
            if (std::isnan(d)) { unknown = unknown || s != "NaN"; }
            if (b == B::f32) { float f = float(d); uint32_t u; memcpy(&u, &f, 4); put_le(o, u, 4); }
            else { uint64_t u; memcpy(&u, &d, 8); put_le(o, u, 8); }
            return true;
         }
         case B::f128: case B::c160: case B::c256: case B::c512: {
            std::string h;
            if (!hexstr(s, h)) return false;
            if (h.size() != size_t(b == B::f128 ? 16 : b == B::c160 ? 20 : b == B::c256 ? 32 : 64)) return false;
            o += h;
            return true;
         }
         case B::time_point: case B::time_point_sec: case B::block_timestamp: {
            uint64_t sec, us;
            int      nd;
            Tri      t = parse_time(s, sec, us, nd);
            if (t != ok) return tri(t);
            if (nd == 0) lenient = true;
            if (b == B::time_point_sec) { put_le(o, sec, 4); return true; }
            if (nd > 6) return false;
            uint64_t tot = sec * 1000000 + us;
            if (b == B::time_point) { put_le(o, tot, 8); return true; }
            int64_t ms = int64_t(tot / 1000) - 946684800000ll;
            if (ms < 0 || ms / 500 > 0xffffffffll) return false;
            put_le(o, uint64_t(ms) / 500, 4);
            return true;
         }
         case B::name: { uint64_t n; if (!name_strict(s, n)) { lenient = true; n = murmur(s); } put_le(o, n, 8); return true; }
         case B::bytes: { std::string h; if (!hexstr(s, h)) return false; put_str(o, h); return true; }
         case B::string: put_str(o, s); return true;
         case B::symbol_code: { uint64_t c; Tri t = parse_symcode(s, c); if (!may(t)) return false; put_le(o, c, 8); return true; }
         case B::symbol: {
            size_t p = 0;
            unsigned pr = 0;
            while (p < s.size() && isdigit((unsigned char)s[p])) { pr = std::min(999u, pr * 10 + (s[p] - '0')); ++p; }
            if (!p || p >= s.size() || s[p] != ',') return false;
            uint64_t c;
            Tri      t = parse_symcode(std::string_view(s).substr(p + 1), c);
            if (!may(t) || pr > 255) return false;
            if (p > 3) lenient = true;
            put_le(o, c << 8 | pr, 8);
            return true;
         }
         case B::asset: {
            int64_t  a;
            uint64_t c;
            Tri      t = parse_asset(s, a, c);
            if (!may(t)) return false;
            put_le(o, uint64_t(a), 8);
            put_le(o, c, 8);
            return true;
         }
         case B::public_key: case B::private_key: case B::signature: {
            std::string k;
            Tri         t = key_from_text(b, s, k);
            if (t != ok) return tri(t);
            o += k;
            return true;
         }
      }
      return false;
   }
   bool value(const Type* t, const JV& v, bool allow) {
      switch (t->kind) {
         case Type::builtin: return scalar(t->b, v);
         case Type::opt:
            if (v.kind == JV::null) { o += '\0'; return true; }
            o += '\1';
            return value(t->sub, v, allow);
         case Type::ext: return value(t->sub, v, allow);
         case Type::arr:
            if (v.kind != JV::arr) return false;
            put_varuint(o, v.a.size());
            for (auto& x : v.a) if (!value(t->sub, x, false)) return false;
            return true;
         case Type::var: {
            if (v.kind != JV::arr || v.a.size() != 2 || v.a[0].kind != JV::str) return false;
            for (size_t i = 0; i < t->f.size(); ++i)
               if (t->f[i].name == v.a[0].s) { put_varuint(o, i); return value(t->f[i].t, v.a[1], allow); }
            return false;
         }
         case Type::st: {
            if (v.kind != JV::obj) return false;
            size_t n = t->f.size();
            if (!reorder) {
               if (v.o.size() > n) return false;
               for (size_t i = 0; i < v.o.size(); ++i) {
                  if (skipped || v.o[i].first != t->f[i].name) return false;
                  if (!value(t->f[i].t, v.o[i].second, allow && i + 1 == n)) return false;
               }
               if (v.o.size() < n) {
                  if (!allow || t->f[v.o.size()].t->kind != Type::ext) return false;
                  for (size_t i = v.o.size(); i < n; ++i) if (t->f[i].t->kind != Type::ext) unknown = true;
                  skipped = true;
               }
               return true;
            }
            for (size_t i = 0; i < n; ++i) {
               const JV* x = nullptr;
               for (auto& kv : v.o) if (kv.first == t->f[i].name) x = &kv.second; // last one wins
               if (!x) {
                  if (t->f[i].t->kind != Type::ext || !allow) return false;
                  skipped = true;
                  continue;
               }
               if (skipped) return false;
               if (!value(t->f[i].t, *x, allow && i + 1 == n)) return false;
            }
            return true;
         }
      }
      return false;
   }
};
struct J2B { Tri t; std::string bin; bool maybe = false; }; // maybe: unk, but if it is accepted then as bin
inline J2B json_to_bin(const Type* t, std::string_view text, bool reorder) {
   JV  v;
   int nest = 0;
   Tri p    = parse_json(text, v, &nest);
   if (p == bad) return { bad, {} };
   if (nest > 118 && nest <= 140) return { unk, {} };
   if (p == unk) return { unk, {} };
   if (nest > 140) return { bad, {} };
   Encoder e;
   e.reorder = reorder;
   bool r    = e.value(t, v, true);
   if (e.unknown) return { unk, {} };
   if (r && e.lenient) return { unk, e.o, true };
   return { r ? ok : bad, r ? e.o : std::string() };
}
} // namespace model
