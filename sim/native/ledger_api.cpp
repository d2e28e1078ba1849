// uses the code under test
#include "impl.hpp"
#include "ledger_api.hpp"
#include <eosio/from_string.hpp>

namespace ledger {
namespace {
using namespace eosio;
struct BookImpl : Book {
   std::map<name, std::map<extended_symbol, extended_asset>> rows;
   ~BookImpl() override { rt::In in; rows.clear(); }

   static asset quantity(const Qty& q, const std::string& s) {
      asset a;
      switch (q.form) {
         case 1: a = convert_from_string<asset>(s); break;
         case 2: {
            std::string       json = "\"" + s + "\"   ";
            json_token_stream stream(json.data());
            from_json(a, stream);
            break;
         }
         case 3: {
            char         b[16];
            memcpy(b, &q.amount, 8);
            memcpy(b + 8, &q.sym, 8);
            input_stream stream{ b, 16 };
            from_bin(a, stream);
            break;
         }
         case 4: a = asset{ q.amount, symbol{ std::string_view{ s }, uint8_t(q.sym & 255) } }; break;
         case 5: a = asset{ 1, symbol{ symbol_code{ q.sym >> 8 }, uint8_t(q.sym & 255) } }; a.set_amount(q.amount); break;
         default: a = asset{ q.amount, symbol{ q.sym } };
      }
      check(a.is_valid(), "not a valid amount");
      check(a.is_amount_within_range() && a.symbol.is_valid(), "valid, but not in all of its parts");
      return a;
   }
   extended_asset get(name who, const extended_symbol& s) {
      auto i = rows.find(who);
      if (i != rows.end()) {
         auto k = i->second.find(s);
         if (k != i->second.end()) return k->second;
      }
      return extended_asset{ 0, s };
   }
   void put(name who, const extended_asset& x) {
      auto s = x.get_extended_symbol();
      if (x.quantity.amount) rows[who].insert_or_assign(s, x);
      else if (auto i = rows.find(who); i != rows.end()) {
         i->second.erase(s);
         if (i->second.empty()) rows.erase(i);
      }
   }
   // does it, and looks whether a refusal leaves the operand alone
   template <typename T, typename F>
   static void on(T& x, bool& changed, F f) {
      T was = x;
      try {
         f(x);
      } catch (...) {
         if (memcmp(&was, &x, sizeof x)) changed = true;
         throw;
      }
   }
   template <typename F>
   static char bit(F f) {
      try {
         return f() ? '1' : '0';
      } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { return 'x'; }
   }
   template <typename F>
   static std::string tell(F f) {
      try {
         return f() + ";";
      } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { return "x;"; }
   }
   template <typename T>
   static void six(std::string& t, const T& a, const T& b) {
      t += bit([&] { return a == b; });
      t += bit([&] { return a != b; });
      t += bit([&] { return a < b; });
      t += bit([&] { return a <= b; });
      t += bit([&] { return a > b; });
      t += bit([&] { return a >= b; });
      t += ' ';
   }
   static std::string num(int64_t v) { return std::to_string(v); }

   std::string run(const Cmd& c, const std::string& text, const std::string& text2, bool& changed) {
      name a{ c.a }, b{ c.b };
      switch (c.what) {
         case ISSUE: case BURN: {
            extended_asset q{ quantity(c.q, text), name{ c.q.con } };
            auto           x = get(a, q.get_extended_symbol());
            bool           in = c.what == ISSUE;
            switch (c.way % 3) {
               case 0: on(x, changed, [&](auto& y) { if (in) y += q; else y -= q; }); break;
               case 1: x = in ? x + q : x - q; break;
               default: on(x.quantity, changed, [&](auto& y) { if (in) y += q.quantity; else y -= q.quantity; });
            }
            put(a, x);
            return x.to_string();
         }
         case TRANSFER: {
            extended_asset q{ quantity(c.q, text), name{ c.q.con } };
            auto           s = q.get_extended_symbol();
            auto           x = get(a, s);
            check(!(x < q), "overdrawn");
            check(q.quantity.amount >= 0, "nothing is given");
            if (a == b) return x.to_string();
            auto y = get(b, s);
            if (c.way & 1) { x = x - q; y = q + y; }
            else { on(x, changed, [&](auto& z) { z -= q; }); on(y, changed, [&](auto& z) { z += q; }); }
            put(a, x);
            put(b, y);
            return x.to_string() + " " + y.to_string();
         }
         case TIMES: {
            auto x = get(a, { symbol{ c.q.sym }, name{ c.q.con } });
            switch (c.way % 3) {
               case 0: on(x.quantity, changed, [&](auto& y) { y *= c.n; }); break;
               case 1: x.quantity = x.quantity * c.n; break;
               default: x.quantity = c.n * x.quantity;
            }
            put(a, x);
            return x.to_string();
         }
         case SHARE: { // one of n parts
            extended_symbol s{ symbol{ c.q.sym }, name{ c.q.con } };
            auto            x = get(a, s);
            extended_asset  part{ x };
            if (c.way & 1) part.quantity = x.quantity / c.n;
            else on(part.quantity, changed, [&](auto& y) { y /= c.n; });
            auto res = part.to_string();
            if (a == b) return res;
            auto y = get(b, s) + part;
            x      = x - part;
            put(a, x);
            put(b, y);
            return res;
         }
         case RATIO: return num(get(a, { symbol{ c.q.sym }, name{ c.q.con } }).quantity / get(b, { symbol{ c.q2.sym }, name{ c.q.con } }).quantity);
         case NEGATE: {
            auto x = get(a, { symbol{ c.q.sym }, name{ c.q.con } });
            if (c.way & 1) x.quantity = -x.quantity;
            else x = -x;
            put(a, x);
            return x.to_string();
         }
         case COMPARE: {
            extended_asset x{ quantity(c.q, text), name{ c.q.con } }, y{ quantity(c.q2, text2), name{ c.q2.con } };
            std::string    t;
            six(t, x.quantity, y.quantity);
            t += bit([&] { return x == y; });
            t += bit([&] { return x != y; });
            t += bit([&] { return x < y; });
            t += bit([&] { return x <= y; });
            t += bit([&] { return x >= y; });
            t += ' ';
            six(t, x.get_extended_symbol(), y.get_extended_symbol());
            six(t, x.quantity.symbol, y.quantity.symbol);
            six(t, x.quantity.symbol.code(), y.quantity.symbol.code());
            six(t, x.contract, y.contract);
            return t;
         }
         case SET: {
            auto x = get(a, { symbol{ c.q.sym }, name{ c.q.con } });
            on(x.quantity, changed, [&](auto& y) { y.set_amount(c.n); });
            put(a, x);
            return x.to_string();
         }
         case TOTAL: {
            extended_symbol s{ symbol{ c.q.sym }, name{ c.q.con } };
            asset           sum{ 0, s.get_symbol() };
            for (auto& [who, r] : rows)
               if (auto k = r.find(s); k != r.end()) {
                  if (c.way & 1) sum = k->second.quantity + sum;
                  else sum += k->second.quantity;
               }
            return sum.to_string();
         }
         case NAME: {
            name        x = c.way & 1 ? name{ c.a } : name{ std::string_view{ text } };
            std::string t = x.to_string() + " " + x.prefix().to_string() + " " + x.suffix().to_string() + " " + num(x.length()) + " " + (x ? "1" : "0") + " " + std::to_string(x.value) + " " + std::to_string(uint64_t(name::raw(x))) + " ";
            six(t, x, name{ c.b });
            return t + std::string(x);
         }
         case SYMBOL: {
            symbol      x = c.way & 1 ? symbol{ c.q.sym } : symbol{ std::string_view{ text }, uint8_t(c.n) };
            std::string t = bit([&] { return x.is_valid(); }) + std::string(" ") + std::to_string(x.raw()) + " " + num(x.precision()) + " " + std::to_string(x.code().raw()) + " " + num(x.code().length()) + (x ? " 1" : " 0");
            if (x.is_valid()) t += " " + x.to_string();
            return t;
         }
         case CODE: {
            symbol_code x = c.way & 1 ? symbol_code{ c.q.sym } : symbol_code{ std::string_view{ text } };
            std::string t = bit([&] { return x.is_valid(); }) + std::string(" ") + std::to_string(x.raw()) + " " + num(x.length()) + (x ? " 1" : " 0");
            if (x.is_valid()) t += " " + x.to_string();
            return t;
         }
         case TIME: { // n microseconds since 1970, and m more
            time_point   t{ microseconds{ c.n } };
            microseconds d = c.way % 6 == 0 ? microseconds{ c.m } : c.way % 6 == 1 ? milliseconds(c.m) : c.way % 6 == 2 ? seconds(c.m) : c.way % 6 == 3 ? minutes(c.m) : c.way % 6 == 4 ? hours(c.m) : eosio::days(c.m);
            time_point   u = t + d, v = t - d, w = t;
            w += d;
            std::string r = num(d.count()) + " " + num(u.time_since_epoch().count()) + " " + num(v.time_since_epoch().count()) + " ";
            six(r, w, u);
            w -= d;
            six(r, w, t);
            six(r, t, u);
            r += num((u - t).count()) + " " + num((t - u).count()) + " " + num(d.to_seconds()) + " ";
            microseconds e = d + d, f = d;
            f += d;
            f -= d;
            six(r, e - d, f);
            six(r, d, e);
            time_point_sec s{ t };
            r += num(s.sec_since_epoch()) + " " + num(t.sec_since_epoch()) + " " + num(time_point(s).time_since_epoch().count()) + " " + num((t - s).count()) + " " + num((s + d).time_since_epoch().count()) + " " + num((s - d).time_since_epoch().count());
            time_point_sec z;
            z = t;
            r += " " + num(z.utc_seconds) + " " + num((time_point(s) + time_point(z)).time_since_epoch().count());
            uint32_t k = uint32_t(c.b);
            z += k;
            r += " " + num(z.utc_seconds) + " " + num((s + k).utc_seconds) + " " + num((s - k).utc_seconds) + " " + num((z - s).count()) + " ";
            six(r, s, z);
            z -= k;
            z -= time_point_sec{ k };
            r += num(z.utc_seconds);
            z += time_point_sec{ k };
            z += d;
            r += " " + num(z.utc_seconds);
            z -= d;
            return r + " " + num(z.utc_seconds) + " " + num(time_point_sec{ k }.sec_since_epoch());
         }
         case MIX: { // all that can be done with two amounts
            extended_asset x{ quantity(c.q, text), name{ c.q.con } }, y{ quantity(c.q2, text2), name{ c.q2.con } };
            std::string    t;
            t += tell([&] { return (x.quantity + y.quantity).to_string(); });
            t += tell([&] { return (x.quantity - y.quantity).to_string(); });
            t += tell([&] { auto z = x.quantity; on(z, changed, [&](auto& u) { u += y.quantity; }); return z.to_string(); });
            t += tell([&] { auto z = x.quantity; on(z, changed, [&](auto& u) { u -= y.quantity; }); return z.to_string(); });
            t += tell([&] { return (x + y).to_string(); });
            t += tell([&] { return (x - y).to_string(); });
            t += tell([&] { auto z = x; on(z, changed, [&](auto& u) { u += y; }); return z.to_string(); });
            t += tell([&] { auto z = x; on(z, changed, [&](auto& u) { u -= y; }); return z.to_string(); });
            t += tell([&] { return num(x.quantity / y.quantity); });
            t += tell([&] { return (x.quantity * y.quantity.amount).to_string(); });
            t += tell([&] { return (x.quantity / y.quantity.amount).to_string(); });
            t += tell([&] { return (-x).to_string() + " " + (-y.quantity).to_string(); });
            t += tell([&] { return extended_asset{ x.quantity.amount, y.get_extended_symbol() }.to_string(); });
            return t;
         }
         case STAMP: { // slot n; n microseconds
            block_timestamp s{ uint32_t(c.a) };
            time_point      t = s.to_time_point();
            std::string     r = num(t.time_since_epoch().count()) + " ";
            time_point      u{ microseconds{ c.n } };
            block_timestamp v{ u }, w{ time_point_sec{ u } }, x;
            x = u;
            r += num(v.slot) + " " + num(w.slot) + " " + num(x.slot) + " " + num(block_timestamp{ t }.slot) + " ";
            six(r, s, v);
            return r + num(s.next().slot);
         }
      }
      return "";
   }
   api::R apply(const Cmd& c, bool& changed) override {
      api::R r;
      changed = false;
      nat::guarded(r.ok, r.err, [&] {
         auto        was = rows; // what a program does so that nothing is done by half
         std::string res;
         try {
            res = run(c, std::string(c.q.text.data(), c.q.text.size()), std::string(c.q2.text.data(), c.q2.text.size()), changed);
         } catch (...) {
            rows.swap(was);
            throw;
         }
         rt::Out     o;
         r.out.assign(res.data(), res.size());
      });
      return r;
   }
   std::vector<Line> lines() override {
      std::vector<Line> v;
      rt::In            in;
      for (auto& [who, r] : rows)
         for (auto& [s, x] : r) {
            rt::Out o;
            v.push_back({ who.value, s.get_symbol().raw(), s.get_contract().value, x.quantity.symbol == s.sym && x.contract == s.contract ? x.quantity.amount : ~x.quantity.amount });
         }
      return v;
   }
};
} // namespace
Book* open() { return new BookImpl; }
} // namespace ledger
