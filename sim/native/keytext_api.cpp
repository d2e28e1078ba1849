// uses the code under test
#include "impl.hpp"
#include "keytext_api.hpp"
#include <eosio/crypto.hpp>

namespace keytext {
namespace {
template <typename F> api::R run(F f) {
   api::R r;
   nat::guarded(r.ok, r.err, [&] { f(r); });
   return r;
}
template <typename T> T get(const api::Buf& b) {
   T                   v;
   eosio::input_stream s{ b.p, b.n };
   from_bin(v, s);
   eosio::check(!s.remaining(), "left-over bytes");
   return v;
}
template <typename T> void put(api::R& r, const T& v) {
   auto    b = eosio::convert_to_bin(v);
   rt::Out o;
   r.out.assign(b.data(), b.size());
}
void put_text(api::R& r, const std::string& s) { rt::Out o; r.out = std::string(s.data(), s.size()); }
} // namespace
api::R to_text(int kind, std::string_view bin) {
   api::Buf b(bin, false);
   return run([&](api::R& r) {
      if (kind == PUB) put_text(r, eosio::public_key_to_string(get<eosio::public_key>(b)));
      else if (kind == PVT) put_text(r, eosio::private_key_to_string(get<eosio::private_key>(b)));
      else put_text(r, eosio::signature_to_string(get<eosio::signature>(b)));
   });
}
api::R from_text(int kind, std::string_view text) {
   api::Buf b(text, false);
   return run([&](api::R& r) {
      std::string_view s{ b.p, b.n };
      if (kind == PUB) put(r, eosio::public_key_from_string(s));
      else if (kind == PVT) put(r, eosio::private_key_from_string(s));
      else put(r, eosio::signature_from_string(s));
   });
}
api::R to_base58(std::string_view data) {
   api::Buf b(data, false);
   return run([&](api::R& r) { put_text(r, eosio::to_base58(b.p, b.n)); });
}
api::R from_base58(std::string_view text) {
   api::Buf b(text, false);
   return run([&](api::R& r) {
      auto    v = eosio::from_base58(std::string_view{ b.p, b.n });
      rt::Out o;
      r.out.assign(v.data(), v.size());
   });
}
} // namespace keytext
