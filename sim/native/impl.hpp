// uses the code under test
#pragma once
#include "native.hpp"
#include "../rt.hpp"
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/chain_types.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/opaque.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/varint.hpp>

namespace nat {
// a sink of the simulator's own: takes `limit` bytes and then refuses
template <typename> // an argument from the namespace of the library, so that its functions are found
struct OwnT {
   std::string* out;
   uint64_t     limit;
   uint64_t*    writes;
   OwnT(std::string* o, uint64_t l, uint64_t* w) : out(o), limit(l), writes(w) {}
   void put(const void* p, size_t n) {
      rt::Out o;
      ++*writes;
      if (n > limit - out->size()) throw SinkFull("the sink is full");
      out->append((const char*)p, n);
   }
   void write(char c) { put(&c, 1); }
   void write(const void* p, size_t n) { put(p, n); }
   template <int N> void write(const char (&s)[N]) { put(s, N); }
   template <typename T> void write_raw(const T& v) { put(&v, sizeof v); }
};
using Own = OwnT<eosio::size_stream>;
template <typename F>
inline void guarded(bool& ok, std::string& err, F f) {
   try {
      rt::In in;
      f();
      ok = true;
   } catch (std::exception& e) {
      rt::Out o;
      err = e.what();
   } catch (...) { err = "unknown exception"; }
}
template <typename T, unsigned C>
struct ObjT : Obj {
   T        v{};
   api::Buf buf;
   std::vector<std::unique_ptr<api::Buf>> more; // a value may point into what it was decoded from
   ObjT(std::string_view b) : buf(b, false) {}
   template <typename S>
   void bin(S& s) const { using eosio::to_bin; to_bin(v, s); }
   template <typename S>
   void json(S& s) const { if constexpr (C & cJ) { using eosio::to_json; to_json(v, s); } }
   template <typename S>
   void key(S& s) const { if constexpr (C & cK) { using eosio::to_key; to_key(v, s); } }

   api::R again(std::string_view d, size_t& consumed) override {
      api::R r;
      more.push_back(std::make_unique<api::Buf>(d, false));
      if (more.size() > 2) more.erase(more.begin());
      auto&               b = *more.back();
      eosio::input_stream s{ b.p, b.n };
      guarded(r.ok, r.err, [&] { using eosio::from_bin; from_bin(v, s); });
      consumed = s.pos - b.p;
      return r;
   }
   Out emit(What w, Sink k, uint64_t limit) const override {
      Out o;
      switch (k) {
         case CONVERT: guarded(o.ok, o.err, [&] {
               if (w == BIN) { auto r = eosio::convert_to_bin(v); rt::Out x; o.bytes.assign(r.data(), r.size()); }
               if constexpr (C & cK) if (w == KEY) { auto r = eosio::convert_to_key(v); rt::Out x; o.bytes.assign(r.data(), r.size()); }
               if constexpr (C & cJ) if (w == JSON || w == PRETTY) { auto r = w == JSON ? eosio::convert_to_json(v) : eosio::format_json(v); rt::Out x; o.bytes.assign(r.data(), r.size()); }
            });
            o.size = o.bytes.size();
            return o;
         case VECTOR: {
            std::vector<char> data;
            { rt::Out x; data.assign({ 'p', 'r', 'e' }); }
            guarded(o.ok, o.err, [&] {
               eosio::vector_stream s{ data };
               if (w == BIN) bin(s);
               if constexpr (!(C & cLite)) if (w == KEY) key(s);
               if constexpr (!(C & cLite)) {
                  if (w == JSON) json(s);
                  if (w == PRETTY) { eosio::pretty_stream<eosio::vector_stream> p{ data }; json(p); }
               }
            });
            o.clean = data.size() >= 3 && !memcmp(data.data(), "pre", 3);
            if (o.clean) o.bytes.assign(data.data() + 3, data.size() - 3);
            o.size = o.bytes.size();
            { rt::In in; std::vector<char>().swap(data); }
            return o;
         }
         case SIZE: guarded(o.ok, o.err, [&] {
               eosio::pretty_stream<eosio::size_stream> p;
               eosio::size_stream s;
               if (w == BIN) bin(s);
               if (w == KEY) key(s);
               if (w == JSON) json(s);
               if (w == PRETTY) { json(p); o.size = p.size; }
               else o.size = s.size;
            });
            return o;
         case FIXED: {
            // exactly this much memory (the address checker watches both ends), and guards inside of a larger block
            bool  inside = limit & 1;
            char* mem    = (char*)malloc(limit + (inside ? 64 : limit ? 0 : 1));
            char* p      = mem + (inside ? 32 : 0);
            if (inside) { memset(mem, 0xab, 32); memset(p + limit, 0xab, 32); }
            uint64_t n = 0;
            guarded(o.ok, o.err, [&] {
               eosio::pretty_stream<eosio::fixed_buf_stream> f(p, limit);
               eosio::fixed_buf_stream                       s(p, limit);
               struct Note { uint64_t& n; char* p; char*& a; char*& b; ~Note() { n = std::max(a, b) - p; } } note{ n, p, f.pos, s.pos };
               if (w == BIN) bin(s);
               if (w == KEY) key(s);
               if (w == JSON) json(s);
               if (w == PRETTY) json(f);
            });
            if (n > limit) o.clean = false;
            else o.bytes.assign(p, n);
            o.size = n;
            if (inside) for (int i = 0; i < 32; ++i) if ((unsigned char)mem[i] != 0xab || (unsigned char)p[limit + i] != 0xab) o.clean = false;
            free(mem);
            return o;
         }
         case OWN: guarded(o.ok, o.err, [&] {
               Own s(&o.bytes, limit, &o.writes);
               if (w == BIN) bin(s);
               if (w == KEY) key(s);
               if (w == JSON) json(s);
               if constexpr (!(C & cLite)) if (w == PRETTY) { eosio::pretty_stream<Own> p(&o.bytes, limit, &o.writes); json(p); }
            });
            o.size = o.bytes.size();
            return o;
      }
      return o;
   }
};
template <typename T, unsigned C>
ObjPtr decode(std::string_view d, api::R& r, size_t& consumed) {
   auto                        p = std::make_unique<ObjT<T, C>>(d);
   eosio::input_stream         s{ p->buf.p, p->buf.n };
   guarded(r.ok, r.err, [&] { using eosio::from_bin; from_bin(p->v, s); });
   consumed = s.pos - p->buf.p;
   if (s.pos < p->buf.p || s.pos > p->buf.p + p->buf.n || s.end != p->buf.p + p->buf.n) { r.ok = false; r.err = "(position outside of the data)"; }
   if (!r.ok) return nullptr;
   return p;
}
template <typename T, unsigned C>
ObjPtr parse(std::string_view j, api::R& r) {
   auto     p = std::make_unique<ObjT<T, C>>(std::string_view());
   api::Buf text(std::string(j.substr(0, j.find('\0'))) + std::string(4, '\0'), false); // the parser may look at 3 bytes behind the end
   guarded(r.ok, r.err, [&] {
      using eosio::from_json;
      eosio::json_token_stream s(text.p);
      from_json(p->v, s);
      s.get_end();
   });
   if (!r.ok) return nullptr;
   return p;
}
template <typename T, unsigned C>
constexpr auto parser() -> ObjPtr (*)(std::string_view, api::R&) {
   if constexpr (C & cP) return parse<T, C>;
   else return nullptr;
}
struct Reg {
   static std::vector<Entry>& list() { static std::vector<Entry> v; return v; }
   Reg(const char* n, const char* t, unsigned c, ObjPtr (*d)(std::string_view, api::R&, size_t&), ObjPtr (*p)(std::string_view, api::R&));
};
#define NAT_CAT2(a, b) a##b
#define NAT_CAT(a, b) NAT_CAT2(a, b)
#define NAT(NAME, DESC, CAPS, ...) static nat::Reg NAT_CAT(reg_, __COUNTER__)(NAME, DESC, CAPS, nat::decode<__VA_ARGS__, (CAPS)>, nat::parser<__VA_ARGS__, (CAPS)>());
} // namespace nat
