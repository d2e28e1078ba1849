// C19: ledgers kept in the library's own types, replicated over an unreliable network.
#include "../gen.hpp"
#include "../repl.hpp"
#include "../rt.hpp"
#include "ledger_api.hpp"
#include <limits>
void note_phase(const std::string&);

namespace {
using namespace ledger;
using i128 = __int128;
constexpr int64_t top = (int64_t(1) << 62) - 1;
bool in_range(i128 v) { return v >= -i128(top) && v <= top; }
bool good_code(uint64_t v) {
   int n = 0;
   for (; v & 255; v >>= 8, ++n) if ((v & 255) < 'A' || (v & 255) > 'Z') return false;
   return n >= 1 && n <= 7 && !v;
}
bool good_symbol(uint64_t v) { return good_code(v >> 8); }
unsigned code_length(uint64_t v) { unsigned n = 0; for (; n < 8 && (v & 255); v >>= 8) ++n; return n; }
uint64_t letters(std::string_view s) { uint64_t v = 0; for (size_t i = s.size(); i--;) v = v << 8 | uint8_t(s[i]); return v; }
bool letters_ok(std::string_view s) { if (s.size() > 7) return false; for (char c : s) if (c < 'A' || c > 'Z') return false; return true; }

// What the commands mean, in wide numbers and text
struct Answer { model::Tri t = model::ok; std::string text; }; // '?' in the text: not relied on
struct Model {
   std::map<std::tuple<uint64_t, uint64_t, uint64_t>, int64_t> rows; // who, symbol, contract
   static Answer refused() { return { model::bad, "" }; }
   static Answer open() { return { model::unk, "" }; }
   static std::string num(i128 v) { return std::to_string(int64_t(v)); }
   static std::string text(i128 a, uint64_t s, uint64_t c) { return model::asset_text(int64_t(a), s) + "@" + model::name_text(c); }
   int64_t get(uint64_t w, uint64_t s, uint64_t c) const { auto i = rows.find({ w, s, c }); return i == rows.end() ? 0 : i->second; }
   void put(uint64_t w, uint64_t s, uint64_t c, i128 v) { if (v) rows[{ w, s, c }] = int64_t(v); else rows.erase({ w, s, c }); }
   // the amount somebody gave
   static model::Tri quantity(const Qty& q, int64_t& a, uint64_t& s) {
      a = q.amount;
      s = q.sym;
      if (q.form == 1 || q.form == 2) { auto t = model::parse_asset(q.text, a, s); if (t != model::ok) return t; }
      if (q.form == 4) { if (!letters_ok(q.text)) return model::bad; s = letters(q.text) << 8 | (q.sym & 255); }
      return in_range(a) && good_symbol(s) ? model::ok : model::bad;
   }
   template <typename T> static void six(std::string& t, const T& a, const T& b) {
      t += a == b ? "1" : "0"; t += a == b ? "0" : "1"; t += a < b ? "1" : "0"; t += a <= b ? "1" : "0"; t += a > b ? "1" : "0"; t += a >= b ? "1" : "0"; t += " ";
   }
   Answer apply(const Cmd& c) {
      int64_t    qa = 0, ra = 0;
      uint64_t   qs = 0, rs = 0, con = c.q.con;
      model::Tri t = model::ok;
      if (c.what == ISSUE || c.what == BURN || c.what == TRANSFER || c.what == COMPARE || c.what == MIX) {
         t = quantity(c.q, qa, qs);
         if (t == model::bad) return refused();
         if (t != model::ok) return open();
      } else { qs = c.q.sym; if (c.what < NAME && !good_symbol(qs)) return refused(); }
      switch (c.what) {
         case ISSUE: case BURN: {
            i128 v = i128(get(c.a, qs, con)) + (c.what == ISSUE ? i128(qa) : -i128(qa));
            if (!in_range(v)) return refused();
            put(c.a, qs, con, v);
            return { model::ok, text(v, qs, con) };
         }
         case TRANSFER: {
            i128 x = get(c.a, qs, con);
            if (x < qa || qa < 0) return refused();
            if (c.a == c.b) return { model::ok, text(x, qs, con) };
            i128 y = i128(get(c.b, qs, con)) + qa;
            x -= qa;
            if (!in_range(x) || !in_range(y)) return refused();
            put(c.a, qs, con, x);
            put(c.b, qs, con, y);
            return { model::ok, text(x, qs, con) + " " + text(y, qs, con) };
         }
         case TIMES: {
            i128 v = i128(get(c.a, qs, con)) * c.n;
            if (!in_range(v)) return refused();
            put(c.a, qs, con, v);
            return { model::ok, text(v, qs, con) };
         }
         case SHARE: {
            if (!c.n) return refused();
            i128 x = get(c.a, qs, con), part = x / c.n;
            if (c.a == c.b) return { model::ok, text(part, qs, con) };
            i128 y = get(c.b, qs, con) + part;
            x -= part;
            if (!in_range(x) || !in_range(y)) return refused();
            put(c.a, qs, con, x);
            put(c.b, qs, con, y);
            return { model::ok, text(part, qs, con) };
         }
         case RATIO: {
            if (!good_symbol(c.q2.sym)) return refused();
            int64_t b = get(c.b, c.q2.sym, con);
            if (!b || qs != c.q2.sym) return refused();
            return { model::ok, num(get(c.a, qs, con) / b) };
         }
         case NEGATE: {
            i128 v = -i128(get(c.a, qs, con));
            put(c.a, qs, con, v);
            return { model::ok, text(v, qs, con) };
         }
         case COMPARE: {
            t = quantity(c.q2, ra, rs);
            if (t == model::bad) return refused();
            if (t != model::ok) return open();
            std::string s;
            if (qs == rs) six(s, qa, ra);
            else s += "xxxxxx ";
            if (qs != rs) s += "??xxx ";
            else {
               bool same = qa == ra && con == c.q2.con;
               s += same ? "10" : "01";
               if (con == c.q2.con) { s += qa < ra ? "1" : "0"; s += qa <= ra ? "1" : "0"; s += qa >= ra ? "1" : "0"; }
               else s += "xxx";
               s += " ";
            }
            six(s, std::make_pair(qs, con), std::make_pair(rs, c.q2.con));
            six(s, qs, rs);
            six(s, qs >> 8, rs >> 8);
            six(s, con, c.q2.con);
            return { model::ok, s };
         }
         case SET:
            if (!in_range(c.n)) return refused();
            put(c.a, qs, con, c.n);
            return { model::ok, text(c.n, qs, con) };
         case TOTAL: {
            i128 sum = 0;
            for (auto& [k, v] : rows) if (std::get<1>(k) == qs && std::get<2>(k) == con) { sum += v; if (!in_range(sum)) return refused(); }
            return { model::ok, model::asset_text(int64_t(sum), qs) };
         }
         case NAME: {
            uint64_t v = c.a;
            if (!(c.way & 1) && !model::name_strict(c.q.text, v)) return refused();
            std::string s = model::name_text(v);
            size_t      dot = s.rfind('.');
            std::string pre = dot == s.npos ? s : s.substr(0, dot), suf = dot == s.npos ? s : s.substr(dot + 1);
            std::string r = s + " " + model::name_text(model::name_loose(pre)) + " " + suf + " " + std::to_string(s.size()) + " " + (v ? "1" : "0") + " " + std::to_string(v) + " " + std::to_string(v) + " ";
            six(r, v, c.b);
            return { model::ok, r + s };
         }
         case SYMBOL: {
            uint64_t v = qs;
            if (!(c.way & 1)) { if (!letters_ok(c.q.text)) return refused(); v = letters(c.q.text) << 8 | uint8_t(c.n); }
            std::string r = good_symbol(v) ? "1" : "0";
            r += " " + std::to_string(v) + " " + std::to_string(v & 255) + " " + std::to_string(v >> 8) + " " + std::to_string(code_length(v >> 8)) + (v ? " 1" : " 0");
            if (good_symbol(v)) r += " " + std::to_string(v & 255) + "," + model::symcode_text(v >> 8);
            return { model::ok, r };
         }
         case CODE: {
            uint64_t v = qs;
            if (!(c.way & 1)) { if (!letters_ok(c.q.text)) return refused(); v = letters(c.q.text); }
            std::string r = good_code(v) ? "1" : "0";
            r += " " + std::to_string(v) + " " + std::to_string(code_length(v)) + (v ? " 1" : " 0");
            if (good_code(v)) r += " " + model::symcode_text(v);
            return { model::ok, r };
         }
         case TIME: {
            static const int64_t unit[] = { 1, 1000, 1000000, 60000000, 3600000000, 86400000000 };
            i128 n = c.n, d = i128(c.m) * unit[c.way % 6];
            if (n < 0 || n >> 32 >= 1000000 || d > i128(1) << 58 || d < -(i128(1) << 58)) return open();
            std::string r = num(d) + " " + num(n + d) + " " + num(n - d) + " ";
            six(r, 0, 0);
            six(r, 0, 0);
            six(r, i128(0), d);
            r += num(d) + " " + num(-d) + " " + num(d / 1000000) + " ";
            six(r, 0, 0);
            six(r, d, 2 * d);
            i128 s = n / 1000000;
            r += num(s) + " " + num(s) + " " + num(s * 1000000) + " " + num(n - s * 1000000) + " " + num(s * 1000000 + d) + " " + num(s * 1000000 - d) + " " + num(s) + " " + num(2 * s * 1000000);
            uint32_t z = uint32_t(s), k = uint32_t(c.b), y = z + k;
            r += " " + num(y) + " " + num(y) + " " + num(uint32_t(z - k)) + " " + num((i128(y) - z) * 1000000) + " ";
            six(r, z, y);
            return { model::ok, r + num(uint32_t(z - k)) + " " + num(uint32_t(z + uint32_t(int64_t(d / 1000000)))) + " " + num(z) + " " + num(k) };
         }
         case MIX: {
            t = quantity(c.q2, ra, rs);
            if (t == model::bad) return refused();
            if (t != model::ok) return open();
            uint64_t    qc = con, rc = c.q2.con;
            std::string r;
            auto plain = [&](bool may, i128 v) { r += may && in_range(v) ? model::asset_text(int64_t(v), qs) + ";" : "x;"; };
            auto ext   = [&](bool may, i128 v) { r += may && in_range(v) ? text(v, qs, qc) + ";" : "x;"; };
            i128 a = qa, b = ra;
            for (int k = 0; k < 2; ++k) { plain(qs == rs, a + b); plain(qs == rs, a - b); }
            for (int k = 0; k < 2; ++k) { ext(qs == rs && qc == rc, a + b); ext(qs == rs && qc == rc, a - b); }
            r += b && qs == rs ? num(a / b) + ";" : "x;";
            plain(true, a * b);
            if (b) plain(true, a / b); else r += "x;";
            return { model::ok, r + text(-a, qs, qc) + " " + model::asset_text(int64_t(-b), rs) + ";" + text(a, rs, rc) + ";" };
         }
         case STAMP: {
            if (c.n < 946684800000000 || c.n >= (946684800 + (int64_t(1) << 31)) * 1000000) return open();
            uint32_t    a = uint32_t(c.a);
            int64_t     v = (c.n / 1000 - 946684800000) / 500, w = (c.n / 1000000 - 946684800) * 2;
            std::string r = num((i128(a) * 500 + 946684800000) * 1000) + " " + num(v) + " " + num(w) + " " + num(v) + " " + num(a) + " ";
            six(r, a, uint32_t(v));
            if (a == 0xffffffff) return refused();
            return { model::ok, r + num(a + int64_t(1)) };
         }
      }
      return open();
   }
};
void put_qty(Op& o, const std::string& p, const Qty& q) {
   o.i(p + "f", q.form).u(p + "c", q.con);
   if (q.form == 1 || q.form == 2) o.s(p + "t", q.text);
   else { o.i(p + "a", q.amount).u(p + "s", q.sym); if (q.form == 4) o.s(p + "t", q.text); }
}
Qty get_qty(const Op& o, const std::string& p) {
   Qty q;
   q.form = int(o.num(p + "f")); q.con = o.unum(p + "c"); q.text = o.str(p + "t"); q.amount = o.num(p + "a"); q.sym = o.unum(p + "s");
   return q;
}
const char* what_name[] = { "issue", "burn", "transfer", "times", "share", "ratio", "negate", "compare", "set", "total", "name", "symbol", "code", "time", "stamp", "mix" };
Op to_op(const Cmd& c) {
   Op o(what_name[c.what]);
   o.u("a", c.a).u("b", c.b).i("n", c.n).i("m", c.m).u("w", c.way);
   put_qty(o, "q", c.q);
   if (c.what == COMPARE || c.what == RATIO || c.what == MIX) put_qty(o, "r", c.q2);
   if ((c.what == NAME || c.what == SYMBOL || c.what == CODE) && !c.q.text.empty()) o.s("qt", c.q.text);
   return o;
}
bool from_op(const Op& o, Cmd& c) {
   for (int i = 0; i < what_count; ++i)
      if (o.name == what_name[i]) {
         c.what = i; c.a = o.unum("a"); c.b = o.unum("b"); c.n = o.num("n"); c.m = o.num("m"); c.way = unsigned(o.unum("w"));
         c.q = get_qty(o, "q"); c.q2 = get_qty(o, "r");
         return true;
      }
   return false;
}
std::string brief(const Cmd& c) {
   std::string s = what_name[c.what];
   auto        q = [&](const Qty& x) { if (x.form == 1 || x.form == 2) s += " " + show(x.text); else s += " " + std::to_string(x.amount) + " of " + std::to_string(x.sym) + (x.form == 4 ? " " + show(x.text) : ""); s += "@" + model::name_text(x.con) + " (form " + std::to_string(x.form) + ")"; };
   s += " " + std::to_string(c.a) + " " + std::to_string(c.b) + " n=" + std::to_string(c.n) + " m=" + std::to_string(c.m) + " way=" + std::to_string(c.way);
   q(c.q);
   if (c.what == COMPARE || c.what == RATIO || c.what == MIX) q(c.q2);
   if (c.what == NAME || c.what == SYMBOL || c.what == CODE) s += " " + show(c.q.text);
   return s;
}
int64_t near_edge(Rng& r) {
   static const int64_t e[] = { 0, 1, -1, top, -top, top + 1, -top - 1, top / 2, top / 2 + 1, INT64_MAX, INT64_MIN, int64_t(1) << 31, int64_t(1) << 32, 1000000000000000000 };
   int64_t v = e[r.below(sizeof e / 8)];
   int     d = int(r.below(3)) - 1;
   return int64_t(uint64_t(v) + uint64_t(d));
}
uint64_t some_symbol(Rng& r) {
   std::string s;
   int         n = int(r.chance(30) ? 7 : r.range(1, 7));
   for (int i = 0; i < n; ++i) s += char(r.chance(20) ? (r.coin() ? 'A' : 'Z') : 'A' + r.below(26));
   uint8_t p = uint8_t(r.chance(85) ? r.below(10) : r.chance(50) ? 17 + r.below(3) : r.below(256));
   return letters(s) << 8 | p;
}
uint64_t some_code(Rng& r) { // any eight bytes, often nearly a code
   uint64_t v = some_symbol(r) >> 8;
   if (r.chance(25)) return v;
   if (r.chance(10)) return r.next();
   std::string s;
   int         n = int(r.chance(30) ? 8 : r.range(1, 8));
   for (int i = 0; i < n; ++i) s += char(r.chance(15) ? "AZ@[a\x01\x80\xc1"[r.below(8)] : 'A' + r.below(26));
   if (r.chance(25)) s[r.below(s.size())] = 0;
   return letters(s);
}
std::string some_letters(Rng& r) {
   std::string s = model::symcode_text(some_symbol(r) >> 8);
   if (r.chance(12)) s += std::string(r.range(1, 4), 'Q');
   if (r.chance(12)) s[r.below(s.size())] = "@[a9 .-\x80"[r.below(8)];
   if (r.chance(4)) s.clear();
   return s;
}
uint64_t some_name(Rng& r) {
   if (r.chance(10)) return r.next();
   std::string s;
   int         n = int(r.chance(20) ? 13 : r.range(0, 12));
   for (int i = 0; i < n; ++i) s += r.chance(25) ? '.' : ".12345abcdefghijklmnopqrstuvwxyz"[r.below(i == 12 ? 16 : 32)];
   return model::name_loose(s);
}
Plan gen_c19(Rng& r, const Tier& tier) {
   Plan p;
   int  replicas = int(r.range(1, 3)), n = int(r.range(4, tier.thorough ? 90 : 36));
   p.ops.push_back(Op("ledger").i("replicas", replicas).u("every", r.range(1, 6)));
   Model                                      m;
   std::vector<uint64_t>                      who;
   std::vector<std::pair<uint64_t, uint64_t>> money;
   for (int i = int(r.range(2, 5)); i--;) who.push_back(some_name(r));
   for (int i = int(r.range(1, 3)); i--;) {
      uint64_t s = some_symbol(r), c = r.pick(who);
      if (!money.empty() && r.chance(50)) { // differs in one respect from another
         s = money[0].first; c = money[0].second;
         if (r.coin()) c = r.chance(50) ? r.pick(who) : c + 1;
         else s = r.chance(60) ? (s & ~255ull) | ((s + 1) & 255) : some_symbol(r);
      }
      money.push_back({ s, c });
   }
   auto give = [&](int64_t amount, uint64_t s, uint64_t c) { // an amount in one of the ways to give it
      Qty q;
      q.con = c; q.amount = amount; q.sym = s;
      q.form = int(r.below(6));
      if (q.form == 1 || q.form == 2) {
         q.text = amount == INT64_MIN ? "-9223372036854775808 QQ" : model::asset_text(amount, s);
         if (r.chance(6)) q.text = gen::damage_text(r, q.text);
         int64_t  a; uint64_t b;
         bool odd = false;
         for (char ch : q.text) if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') odd = true;
         if (odd || model::parse_asset(q.text, a, b) == model::unk) q.form = 0;
      }
      if (q.form == 4) { q.text = r.chance(90) ? model::symcode_text(s >> 8) : some_letters(r); for (char ch : q.text) if (ch < 32 || ch > 126) q.text = "Q"; }
      if (q.form != 4 && q.form != 1 && q.form != 2 && r.chance(4)) q.sym = r.coin() ? some_code(r) << 8 | (s & 255) : s ^ (1ull << r.below(64));
      return q;
   };
   for (int i = 0; i < n; ++i) {
      Cmd c;
      c.a = r.pick(who); c.b = r.pick(who);
      c.way = unsigned(r.below(12));
      auto    cur = r.pick(money);
      int64_t x = m.get(c.a, cur.first, cur.second), y = m.get(c.b, cur.first, cur.second);
      int64_t amt = 0;
      switch (r.below(9)) { // amounts which just fit and which just do not
         case 0: amt = x; break;
         case 1: amt = x < INT64_MAX ? x + 1 : x; break;
         case 2: amt = x > 0 ? int64_t(r.below(uint64_t(x) + 1)) : int64_t(r.below(1000)); break;
         case 3: amt = top - std::max<int64_t>(y, 0) + int64_t(r.below(2)); break;
         case 4: amt = top - std::max<int64_t>(x, 0) + int64_t(r.below(2)); break;
         case 5: amt = near_edge(r); break;
         case 6: amt = -int64_t(r.below(1000)); break;
         case 7: amt = x == INT64_MIN ? 0 : (x > 0 ? -top - 1 : -top - 1 - x) + int64_t(r.below(3)); break;
         default: amt = int64_t(r.below(r.chance(50) ? 1000 : uint64_t(1) << r.range(1, 62)));
      }
      unsigned k = unsigned(r.below(100));
      c.what = k < 20 ? ISSUE : k < 28 ? BURN : k < 46 ? TRANSFER : k < 52 ? TIMES : k < 58 ? SHARE : k < 62 ? RATIO : k < 64 ? NEGATE : k < 68 ? COMPARE : k < 72 ? MIX : k < 74 ? SET : k < 78 ? TOTAL : k < 84 ? NAME : k < 87 ? SYMBOL : k < 90 ? CODE : k < 96 ? TIME : STAMP;
      c.q = { 0, 0, cur.first, cur.second, "" };
      switch (c.what) {
         case ISSUE: if (m.rows.size() < 4 && r.chance(60)) amt = int64_t(r.below(uint64_t(1) << r.range(1, 62))); [[fallthrough]];
         case BURN: case TRANSFER: c.q = give(amt, cur.first, cur.second); break;
         case TIMES: { // around what just fits
            i128 lim = x ? top / (x < 0 ? -x : x) : near_edge(r);
            c.n = r.chance(50) ? int64_t(lim) * (r.coin() ? 1 : -1) + int64_t(r.below(3)) - 1 : r.chance(50) ? int64_t(r.below(8)) - 3 : near_edge(r);
            break;
         }
         case SHARE: c.n = r.chance(50) ? int64_t(r.below(10)) - 2 : r.chance(30) ? near_edge(r) : r.chance(50) && x ? x + int64_t(r.below(3)) - 1 : int64_t(r.below(1000)); break;
         case RATIO: c.q2 = c.q; if (r.chance(20)) c.q2.sym = r.pick(money).first; break;
         case COMPARE: case MIX: {
            c.q = give(amt, cur.first, cur.second);
            auto o = r.chance(60) ? cur : r.pick(money);
            c.q2 = give(r.chance(40) ? amt : r.coin() ? near_edge(r) : int64_t(uint64_t(amt) + 1), o.first, o.second);
            if (r.chance(15)) c.q2.con = r.pick(who);
            break;
         }
         case SET: c.n = r.coin() ? near_edge(r) : amt; break;
         case NAME:
            c.a = some_name(r); c.b = r.chance(40) ? c.a : some_name(r);
            if (!(c.way & 1)) { c.q.text = model::name_text(c.a); if (r.chance(25)) c.q.text = r.coin() ? c.q.text + "." : gen::damage_text(r, c.q.text + "a"); if (c.q.text.find('\0') != std::string::npos) c.q.text = "a\x01"; }
            break;
         case SYMBOL: c.q.sym = r.coin() ? some_symbol(r) : some_code(r) << 8 | r.below(256); c.n = int64_t(r.below(256)); c.q.text = c.way & 1 ? "" : some_letters(r); break;
         case CODE: c.q.sym = some_code(r); c.q.text = c.way & 1 ? "" : some_letters(r); break;
         case TIME: {
            c.b = r.coin() ? r.below(1000) : uint32_t(near_edge(r));
            static const int64_t span[] = { 1ll << 57, 1ll << 47, 1ll << 37, 1ll << 31, 1ll << 25, 1ll << 21 };
            c.n = int64_t((r.coin() ? gen::some_second(r) : r.below(uint64_t(1) << 32)) * 1000000 + (r.chance(40) ? (r.coin() ? 999999 : 0) : r.below(1000000)));
            int64_t s = span[c.way % 6];
            c.m = r.chance(30) ? int64_t(r.below(7)) - 3 : int64_t(r.below(uint64_t(s))) - s / 2;
            if (r.chance(30)) c.m = (int64_t(r.below(2001)) - 1000) * (r.coin() ? 1000000 : 500000) % s;
            break;
         }
         case STAMP: {
            c.a = r.chance(20) ? (r.coin() ? 0xffffffff : 0xfffffffe) : r.chance(50) ? r.below(uint64_t(1) << 32) : r.below(1000);
            c.n = 946684800000000 + int64_t(r.chance(30) ? (int64_t(r.below(4)) + (r.coin() ? (int64_t(1) << 32) - 4 : 0)) * 500000 + int64_t(r.below(3)) * 499 : r.below((uint64_t(1) << 31) * 1000000 - 1));
            if (c.n >= (946684800 + (int64_t(1) << 31)) * 1000000) c.n -= 2000000;
            break;
         }
      }
      m.apply(c);
      Op o = to_op(c);
      if (r.chance(8)) o.u("fa", r.below(25)).u("fn", r.chance(70) ? 1 : r.range(2, 30)).i("on", r.range(1, replicas));
      p.ops.push_back(o);
   }
   auto mix = net::some_mix(r);
   if (r.chance(15)) mix.flip = unsigned(r.below(10));
   net::faults(r, p, mix, 30 + n, replicas + 1, 2500);
   return p;
}
struct World19 {
   Run&                     run;
   std::vector<Op>          ops;
   std::vector<Cmd>         cmds;
   std::vector<Answer>      want;
   std::vector<std::vector<Line>> lines; // after each
   explicit World19(Run& r) : run(r) {}
   static std::string text(const std::vector<Line>& v) {
      std::string s;
      for (auto& l : v) s += model::name_text(l.who) + ":" + std::to_string(l.amount) + "(" + std::to_string(l.sym) + ")@" + model::name_text(l.con) + " ";
      return s.size() > 600 ? s.substr(0, 600) : s;
   }
   bool bad(const std::string& cls, size_t i, const std::string& m) {
      run.fail(cls + ":" + what_name[cmds[i].what], brief(cmds[i]) + ": " + m);
      return false;
   }
   bool agrees(const std::string& got, const std::string& w) {
      if (got.size() != w.size()) return false;
      for (size_t i = 0; i < w.size(); ++i) if (w[i] == '?' ? got[i] != 'x' && got[i] != (i && w[i - 1] == '?' ? '1' : '0') : got[i] != w[i]) return false;
      return true;
   }
   bool judge(size_t i, const api::R& r, bool changed, const std::vector<Line>& before, const std::vector<Line>& after) {
      auto& w = want[i];
      run.ev(std::string("l ") + what_name[cmds[i].what] + (r.ok ? " " + r.out : " refused"));
      if (changed) return bad("operand-changed", i, "refused (" + r.err + "), but an operand holds another value than before");
      if (!r.ok && r.err.empty()) return bad("error-without-reason", i, "refused without a reason");
      if (!r.ok && !(after == before)) return bad("half-done", i, "refused (" + r.err + "), but the ledger holds " + text(after) + "instead of " + text(before));
      if (w.t == model::ok && !r.ok) return bad("refused-valid", i, "refused: " + r.err);
      if (w.t == model::bad && r.ok) return bad("accepted-invalid", i, "gave " + show(r.out, 300));
      if (w.t == model::ok && !agrees(r.out, w.text)) return bad("wrong-result", i, "gave " + show(r.out, 400) + " instead of " + show(w.text, 400));
      return true;
   }
};
struct Teller : net::Peer {
   World19*              w = nullptr;
   std::unique_ptr<Book> book{ open() };
   std::set<uint64_t>    spent; // failures of memory happen once
   bool process(uint64_t i, const std::string& in, std::string& out) override {
      out = in;
      if (i >= w->cmds.size()) return true;
      auto& o = w->ops[i];
      auto& c = w->cmds[i];
      if (w->want[i].t == model::unk) return true;
      note_phase(std::string("ledger ") + brief(c));
      auto   before = book->lines();
      bool   changed = false, faulty = o.has("fa") && o.num("on") == id && spent.insert(i).second;
      if (faulty) rt::arm(o.unum("fa"), o.unum("fn", 1));
      auto     r = book->apply(c, changed);
      uint64_t fired = rt::ts.fired;
      if (faulty) { rt::disarm(); net->run.add("fault.allocation_failure", fired); }
      auto after = book->lines();
      if (faulty && fired && !r.ok) {
         if (changed) return w->bad("operand-changed", i, "out of memory, and an operand holds another value than before");
         if (!(after == before)) return w->bad("half-done", i, "out of memory, and the ledger holds " + World19::text(after) + "instead of " + World19::text(before));
         r     = book->apply(c, changed);
         after = book->lines();
      }
      if (!r.ok) net->run.add("probe.refused");
      else net->run.add("probe.applied");
      if (!w->judge(i, r, changed, before, after)) return false;
      if (!(after == w->lines[i])) return w->bad("wrong-ledger", i, "the ledger holds " + World19::text(after) + "instead of " + World19::text(w->lines[i]));
      return true;
   }
   void forget() override { book.reset(open()); }
};
void run_c19(const Plan& p, Run& r) {
   World19  w(r);
   net::Net net(r);
   std::vector<std::unique_ptr<Teller>> peers;
   for (auto& o : p.ops)
      if (o.name == "ledger" && peers.empty())
         for (int i = 0; i <= std::min<int64_t>(6, o.num("replicas")); ++i) {
            peers.push_back(std::make_unique<Teller>());
            auto& x = *peers.back();
            x.net = &net; x.id = i; x.w = &w; x.every = unsigned(o.unum("every", 3));
            if (!x.every) x.every = 1;
            x.up_id = i ? 0 : -1;
            if (i) peers[0]->down.push_back(i);
            net.nodes.push_back(&x);
         }
   if (peers.empty()) return;
   Model                    m;
   std::vector<std::string> recs;
   for (auto& o : p.ops) {
      if (net.take(o)) continue;
      Cmd c;
      if (!from_op(o, c)) continue;
      w.ops.push_back(o);
      w.cmds.push_back(c);
      w.want.push_back(m.apply(c));
      std::vector<Line> l;
      for (auto& [k, v] : m.rows) l.push_back({ std::get<0>(k), std::get<1>(k), std::get<2>(k), v });
      w.lines.push_back(l);
      recs.push_back(std::to_string(recs.size()) + " " + what_name[c.what]);
      r.state("ledgers", mix(fnv(World19::text(l)), c.what));
   }
   peers[0]->out = recs;
   net.begin();
   auto done = [&] {
      for (size_t i = 1; i < peers.size(); ++i) if (!peers[i]->up || peers[i]->log.size() < recs.size()) return false;
      return net.now > net.quiet_at;
   };
   bool fin = net.go(net.quiet_at + 60000 + 1000 * recs.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:ledger", "replicas have not got everything " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (size_t i = 1; i < peers.size(); ++i) {
      auto l = peers[i]->book->lines();
      if (!recs.empty() && !(l == w.lines.back())) { w.bad("wrong-ledger", recs.size() - 1, "at the end replica " + std::to_string(i) + " holds " + World19::text(l) + "instead of " + World19::text(w.lines.back())); return; }
   }
   net.finish();
}
} // namespace
extern const Scenario sc_c19;
const Scenario sc_c19{ "C19", gen_c19, run_c19, nullptr };
