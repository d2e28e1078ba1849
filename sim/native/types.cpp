#include "types.hpp"

namespace nat {
namespace {
const char golden_text[] =
#include "golden_ship.inc"
   ;
std::vector<std::string> split(const std::string& l) {
   std::vector<std::string> v;
   size_t                   p = 0;
   while (p <= l.size()) {
      size_t e = l.find(" | ", p);
      if (e == l.npos) e = l.size();
      v.push_back(l.substr(p, e - p));
      p = e + 3;
   }
   return v;
}
} // namespace
const model::AbiDef& golden_def() {
   static model::AbiDef d;
   if (d.version.empty()) {
      d.version = "eosio::abi/1.1";
      std::string t = golden_text;
      for (size_t p = 0; p < t.size();) {
         size_t      e = t.find('\n', p);
         std::string l = t.substr(p + 2, e - p - 2);
         char        k = t[p];
         p             = e + 1;
         auto v        = split(l);
         if (k == 's') {
            model::AbiDef::Struct s;
            auto c = v[0].find(" : ");
            s.name = v[0].substr(0, c);
            if (c != std::string::npos) s.base = v[0].substr(c + 3);
            for (size_t i = 1; i < v.size(); ++i) { auto b = v[i].find(' '); s.fields.push_back({ v[i].substr(0, b), v[i].substr(b + 1) }); }
            d.structs.push_back(s);
         } else d.variants.push_back({ v[0], std::vector<std::string>(v.begin() + 1, v.end()) });
      }
   }
   return d;
}
model::Abi& golden() {
   static model::Abi* a;
   if (!a) {
      a = new model::Abi;
      if (a->build(golden_def()) != model::ok) abort();
      auto* st  = new model::Type(*a->find("uint8", 0));
      st->shape = model::Type::status;
      for (auto& s : golden_def().structs)
         for (auto& f : a->find(s.name, 0)->f) if (f.name == "status") f.t = st;
   }
   return *a;
}
namespace {
using model::Type;
std::map<std::string, std::unique_ptr<Type>> made;
std::string tag(const Type* t) { return t->name; }
// T, set(T), map(K,V), ... ; struct(name:T,name:T)
struct Parser {
   const std::string& s;
   size_t             p = 0;
   Type* get() {
      size_t b = p;
      while (p < s.size() && !strchr("(),", s[p])) ++p;
      std::string w = s.substr(b, p - b);
      if (p == s.size() || s[p] != '(') {
         auto* t = golden().find(w, 0);
         if (!t) { fprintf(stderr, "no model type %s\n", w.c_str()); abort(); }
         return t;
      }
      ++p;
      std::vector<model::Field> f;
      int n = 0;
      if (w == "arr" || w == "carr") { n = atoi(s.c_str() + p); p = s.find(',', p) + 1; }
      while (s[p] != ')') {
         std::string name;
         if (w == "struct") { size_t c = s.find(':', p); name = s.substr(p, c - p); p = c + 1; }
         Type* t = get();
         f.push_back({ name, t });
         if (s[p] == ',') ++p;
      }
      ++p;
      std::string key = s.substr(b, p - b);
      auto&       m   = made[key];
      if (m) return m.get();
      m.reset(new Type);
      Type* t = m.get();
      t->name = key;
      if (w == "vec" || w == "list" || w == "set") {
         t->kind  = Type::arr;
         t->sub   = f[0].t;
         t->shape = w == "list" ? Type::narrow : w == "set" ? Type::unique : Type::plain;
         if (w == "vec") t->name = tag(t->sub) + "[]";
      } else if (w == "opt") { t->kind = Type::opt; t->sub = f[0].t; t->name = tag(t->sub) + "?"; }
      else if (w == "map") {
         t->kind  = Type::arr;
         t->shape = Type::keyed;
         auto& e  = made["pair " + key];
         e.reset(new Type);
         e->kind = Type::st;
         e->name = "pair";
         e->f    = { { "first", f[0].t }, { "second", f[1].t } };
         t->sub  = e.get();
      } else if (w == "carr") { t->kind = Type::arr; t->shape = Type::fixed; t->n = n; t->sub = f[0].t; }
      else if (w == "arr") { t->kind = Type::st; for (int i = 0; i < n; ++i) t->f.push_back({ std::to_string(i), f[0].t }); }
      else if (w == "tup") { t->kind = Type::st; for (size_t i = 0; i < f.size(); ++i) t->f.push_back({ std::to_string(i), f[i].t }); }
      else if (w == "struct") { t->kind = Type::st; t->f = f; }
      else if (w == "var") { t->kind = Type::var; for (auto& x : f) t->f.push_back({ tag(x.t), x.t }); }
      else abort();
      return t;
   }
};
} // namespace
const model::Type* desc(const std::string& d) {
   static std::map<std::string, const Type*> memo;
   auto& m = memo[d];
   if (!m) {
      Parser p{ d };
      m = p.get();
      if (p.p != d.size()) abort();
   }
   return m;
}
const model::Type* type(const Entry& e) { return desc(e.type); }
bool depends(const model::Type* t, bool (*f)(const model::Type*), int depth) {
   if (f(t)) return true;
   if (depth > 12) return false;
   if (t->sub && depends(t->sub, f, depth + 1)) return true;
   for (auto& x : t->f) if (depends(x.t, f, depth + 1)) return true;
   return false;
}
} // namespace nat
