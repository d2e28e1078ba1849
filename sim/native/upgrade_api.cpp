// uses the code under test
#include "impl.hpp"
#include "../api_abi.hpp"
#include "upgrade_api.hpp"
#include <eosio/convert.hpp>

namespace shop {
struct item0 { eosio::name sku; uint32_t n = 0; };
EOSIO_REFLECT(item0, sku, n)
struct item1 { eosio::name sku; uint32_t n = 0; uint16_t tax = 0; std::string note; };
EOSIO_REFLECT(item1, sku, n, tax, note)
struct item2 { std::string note; eosio::name sku; uint16_t tax = 0; uint32_t n = 0; };
EOSIO_REFLECT(item2, note, sku, tax, n)
eosio::widening_conversion conversion_kind(item0, item1);
eosio::strict_conversion   conversion_kind(item1, item2);
eosio::widening_conversion conversion_kind(item0, item2);

struct order0 { uint64_t id = 0; std::string who; std::vector<item0> items; std::optional<item0> gift; };
EOSIO_REFLECT(order0, id, who, items, gift)
struct order1 { uint64_t id = 0; std::string who; std::vector<item1> items; std::optional<item1> gift; std::vector<uint8_t> memo; eosio::name via; };
EOSIO_REFLECT(order1, id, who, items, gift, memo, via)
struct order2 { std::string who; uint64_t id = 0; std::optional<item2> gift; std::vector<item2> items; eosio::name via; std::vector<uint8_t> memo; };
EOSIO_REFLECT(order2, who, id, gift, items, via, memo)
struct order3 { uint64_t id = 0; std::string who; std::vector<item1> items; std::optional<item1> gift; std::vector<uint8_t> memo; eosio::name via; bool paid = false; std::optional<std::string> why; std::vector<item1> back; };
EOSIO_REFLECT(order3, id, who, items, gift, memo, via, paid, why, back)
eosio::widening_conversion conversion_kind(order0, order1);
eosio::strict_conversion   conversion_kind(order1, order2);
eosio::widening_conversion conversion_kind(order0, order2);
eosio::widening_conversion conversion_kind(order0, order3);
eosio::widening_conversion conversion_kind(order1, order3);
eosio::widening_conversion conversion_kind(order2, order3);
using any_order = std::variant<order0, order1, order2, order3>;

struct kept : order1 { using order1::order1; };
EOSIO_REFLECT(kept, base order1)
order0 serialize_as(const kept&);
eosio::widening_conversion conversion_kind(order0, kept);

struct parcel0 { eosio::varuint32 number; eosio::input_stream content; std::vector<item0> items; };
EOSIO_REFLECT(parcel0, number, content, items)
struct parcel1 { uint32_t number = 0; std::vector<char> content; std::vector<item2> items; std::string remark; };
EOSIO_REFLECT(parcel1, number, content, items, remark)
eosio::widening_conversion conversion_kind(parcel0, parcel1);

struct account0 { eosio::name id; std::vector<std::string> tags; };
EOSIO_REFLECT(account0, id, tags)
struct account1 { eosio::name id; std::vector<std::string> tags; eosio::might_not_exist<uint32_t> age; };
EOSIO_REFLECT(account1, id, tags, age)
struct account2 { eosio::name id; std::vector<std::string> tags; eosio::might_not_exist<uint32_t> age; eosio::might_not_exist<std::vector<uint64_t>> nums; };
EOSIO_REFLECT(account2, id, tags, age, nums)
struct account3 : account2 { eosio::might_not_exist<std::optional<std::string>> mail; eosio::might_not_exist<eosio::varuint32> level; };
EOSIO_REFLECT(account3, base account2, mail, level)
} // namespace shop

namespace upgr {
namespace {
template <int V> struct Ord;
template <> struct Ord<0> { using T = shop::order0; };
template <> struct Ord<1> { using T = shop::order1; };
template <> struct Ord<2> { using T = shop::order2; };
template <> struct Ord<3> { using T = shop::order3; };
template <int V> struct Acc;
template <> struct Acc<0> { using T = shop::account0; };
template <> struct Acc<1> { using T = shop::account1; };
template <> struct Acc<2> { using T = shop::account2; };
template <> struct Acc<3> { using T = shop::account3; };
template <typename F>
void pick(int v, F f) {
   if (v == 0) f(std::integral_constant<int, 0>{});
   if (v == 1) f(std::integral_constant<int, 1>{});
   if (v == 2) f(std::integral_constant<int, 2>{});
   if (v == 3) f(std::integral_constant<int, 3>{});
}
template <typename F>
api::R run(F f) { api::R r; nat::guarded(r.ok, r.err, [&] { f(r); }); return r; }
template <typename T>
void put(api::R& r, const T& v) { auto b = eosio::convert_to_bin(v); rt::Out o; r.out.assign(b.data(), b.size()); }
template <typename T>
void get(std::string_view bin, T& v, size_t* consumed = nullptr) {
   eosio::input_stream s{ bin.data(), bin.size() };
   from_bin(v, s);
   if (consumed) *consumed = s.pos - bin.data();
}
// from lower to higher versions fields are added, the other way they are left out
template <int A, int B, typename S, typename D>
void turn(const S& s, D& d, bool second) {
   using eosio::convert;
   if constexpr (A < B && !(A == 1 && B == 2)) convert(s, d, eosio::choose_first);
   else if (second) convert(s, d, eosio::choose_second);
   else convert(s, d, eosio::choose_first);
}
} // namespace
api::R convert(int from, int to, bool second, std::string_view bin) {
   return run([&](api::R& r) {
      pick(from, [&](auto a) { pick(to, [&](auto b) {
         constexpr int A = decltype(a)::value, B = decltype(b)::value;
         typename Ord<A>::T s;
         typename Ord<B>::T d;
         get(bin, s);
         turn<A, B>(s, d, second);
         put(r, d);
      }); });
   });
}
api::R convert_any(int to, std::string_view bin, size_t& consumed) {
   return run([&](api::R& r) {
      shop::any_order v;
      get(bin, v, &consumed);
      pick(to, [&](auto b) {
         constexpr int B = decltype(b)::value;
         typename Ord<B>::T d;
         if constexpr (B == 3) eosio::convert(v, d, eosio::choose_first); // all others have fewer fields
         else std::visit([&](auto& s) { // each in its own way
            using S = std::decay_t<decltype(s)>;
            if constexpr (std::is_same_v<S, shop::order0>) turn<0, B>(s, d, false);
            else if constexpr (std::is_same_v<S, shop::order1>) turn<1, B>(s, d, true);
            else if constexpr (std::is_same_v<S, shop::order2>) turn<2, B>(s, d, false);
            else turn<3, B>(s, d, true);
         }, v);
         put(r, d);
      });
   });
}
api::R convert_list(int from, int to, std::string_view bin, size_t& consumed) {
   return run([&](api::R& r) {
      pick(from, [&](auto a) { pick(to, [&](auto b) {
         constexpr int A = decltype(a)::value, B = decltype(b)::value;
         if constexpr (A <= B) {
            std::vector<typename Ord<A>::T> s;
            std::vector<typename Ord<B>::T> d;
            get(bin, s, &consumed);
            eosio::convert(s, d, eosio::choose_first);
            put(r, d);
         }
      }); });
   });
}
api::R stored_as(std::string_view bin, size_t& consumed) {
   return run([&](api::R& r) {
      std::vector<shop::kept> v;
      get(bin, v, &consumed);
      put(r, v);
   });
}
api::R parcel(std::string_view bin, size_t& consumed) {
   return run([&](api::R& r) {
      shop::parcel0 s;
      shop::parcel1 d;
      get(bin, s, &consumed);
      eosio::convert(s, d, eosio::choose_first);
      put(r, d);
   });
}
api::R account(int ver, std::string_view bin, size_t& consumed) {
   return run([&](api::R& r) {
      pick(ver, [&](auto a) {
         typename Acc<decltype(a)::value>::T v;
         get(bin, v, &consumed);
         put(r, v);
      });
   });
}
api::R account_json(int ver, std::string_view json) {
   return run([&](api::R& r) {
      pick(ver, [&](auto a) {
         typename Acc<decltype(a)::value>::T v;
         std::string text;
         { rt::Out o; text = json; text.append(3, '\0'); }
         eosio::json_token_stream s(text.data());
         from_json(v, s);
         s.get_end();
         put(r, v);
      });
   });
}
api::R account_abi(int ver, api::AbiPtr& out, std::string& called) {
   std::unique_ptr<api::Abi> a;
   auto r = run([&](api::R&) {
      a.reset(new api::Abi);
      eosio::abi_def d;
      convert(d, a->a);
      pick(ver, [&](auto v) {
         auto* t = a->a.template add_type<typename Acc<decltype(v)::value>::T>();
         rt::Out o;
         called = t->name;
      });
   });
   out.reset(a.release());
   if (!r.ok) out.reset();
   return r;
}
} // namespace upgr
