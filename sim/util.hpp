// Small shared utilities: PRNG, hashing, hex. No repo code here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>

// The only source of randomness in the simulator. One integer decides everything.
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
   uint64_t next() {
      uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
   bool     chance(unsigned pct) { return below(100) < pct; }
   bool     coin() { return next() & 1; }
   template <typename C>
   auto& pick(C& c) { return c[below(c.size())]; }
   Rng fork() { return Rng(next()); }
};

inline uint64_t fnv(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) {
   for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
   return h;
}
inline uint64_t mix(uint64_t a, uint64_t b) {
   uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
   z          = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ull;
   return z ^ (z >> 32);
}

inline std::string tohex(std::string_view s, bool upper = true) {
   const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
   std::string r;
   for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
   return r;
}

// Percent-escaping, so that plans are readable text
inline std::string esc(std::string_view s) {
   std::string r;
   for (unsigned char c : s) {
      if (c > 32 && c < 127 && c != '%' && c != '=') r += c;
      else { char b[4]; snprintf(b, 4, "%%%02X", c); r += b; }
   }
   return r;
}
inline std::string unesc(std::string_view s) {
   std::string r;
   auto        h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
   for (size_t i = 0; i < s.size(); ++i)
      if (s[i] == '%' && i + 2 < s.size()) { r += char(h(s[i + 1]) * 16 + h(s[i + 2])); i += 2; }
      else r += s[i];
   return r;
}
inline std::string show(std::string_view s, size_t max = 160) {
   bool text = true;
   for (unsigned char c : s) if (c < 32 || c > 126) text = false;
   std::string r = text ? "'" + std::string(s.substr(0, max)) + "'" : "x" + tohex(s.substr(0, max / 2), false);
   if (s.size() > (text ? max : max / 2)) r += "...(" + std::to_string(s.size()) + " bytes)";
   return r;
}

// One step of a simulated execution. Everything a run does is in its plan.
struct Op {
   std::string                        name;
   std::map<std::string, std::string> a;
   Op() = default;
   explicit Op(std::string n) : name(std::move(n)) {}
   Op& s(const std::string& k, std::string v) { a[k] = std::move(v); return *this; }
   Op& i(const std::string& k, int64_t v) { a[k] = std::to_string(v); return *this; }
   Op& u(const std::string& k, uint64_t v) { a[k] = std::to_string(v); return *this; }
   bool               has(const std::string& k) const { return a.count(k); }
   const std::string& str(const std::string& k) const {
      static const std::string e;
      auto                     it = a.find(k);
      return it == a.end() ? e : it->second;
   }
   int64_t  num(const std::string& k, int64_t d = 0) const { auto it = a.find(k); return it == a.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
   uint64_t unum(const std::string& k, uint64_t d = 0) const { auto it = a.find(k); return it == a.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
};

struct Plan {
   std::string     prop;
   uint64_t        seed = 0;
   std::vector<Op> ops;
   std::string text() const {
      std::string r = "abieos-sim-plan 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
      for (auto& o : ops) {
         r += "op " + o.name;
         for (auto& [k, v] : o.a) r += " " + k + "=" + esc(v);
         r += "\n";
      }
      return r;
   }
   static bool parse(std::string_view t, Plan& p, std::map<std::string, std::string>* meta = nullptr) {
      size_t pos = 0;
      bool   ok  = false;
      while (pos < t.size()) {
         size_t e = t.find('\n', pos);
         if (e == t.npos) e = t.size();
         std::string_view l = t.substr(pos, e - pos);
         pos                = e + 1;
         if (l.empty() || l[0] == '#') continue;
         size_t sp = l.find(' ');
         auto   w  = l.substr(0, sp);
         auto   r  = sp == l.npos ? std::string_view{} : l.substr(sp + 1);
         if (w == "abieos-sim-plan") ok = true;
         else if (w == "prop") p.prop = std::string(r);
         else if (w == "seed") p.seed = strtoull(std::string(r).c_str(), nullptr, 10);
         else if (w == "op") {
            Op     o;
            size_t q     = 0;
            bool   first = true;
            while (q < r.size()) {
               size_t f = r.find(' ', q);
               if (f == r.npos) f = r.size();
               auto tok = r.substr(q, f - q);
               q        = f + 1;
               if (tok.empty()) continue;
               if (first) { o.name = std::string(tok); first = false; continue; }
               size_t eq = tok.find('=');
               if (eq == tok.npos) continue;
               o.a[std::string(tok.substr(0, eq))] = unesc(tok.substr(eq + 1));
            }
            p.ops.push_back(std::move(o));
         } else if (meta) (*meta)[std::string(w)] = std::string(r);
      }
      return ok;
   }
};
