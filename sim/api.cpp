// uses the code under test
#include "api_abi.hpp"
#include "rt.hpp"
#include <eosio/abi.hpp>
#include <eosio/abieos.h>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/bytes.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <sys/mman.h>

namespace api {
Buf::Buf(std::string_view s, bool nul) {
   n = s.size();
   p = (char*)malloc(n + nul ? n + nul : 1);
   if (n) memcpy(p, s.data(), n);
   if (nul) p[n] = 0;
}
Buf::~Buf() { free(p); }

namespace {
// first zero ends a C string
Buf cstr(std::string_view s) { return Buf(s.substr(0, s.find('\0')), true); }
} // namespace

Ctx* create() { rt::In in; return abieos_create(); }
void destroy(Ctx* c) { rt::In in; abieos_destroy(c); }
std::string error(Ctx* c, const char** keep) {
   const char* e;
   { rt::In in; e = abieos_get_error(c); }
   if (keep) *keep = e;
   return e ? std::string(e) : std::string("(null)");
}
static R done(Ctx* c, bool okay) {
   R r;
   r.ok = okay;
   if (!okay) r.err = error(c, &r.p);
   return r;
}
static R text(Ctx* c, const char* p) {
   R r;
   r.ok = p != nullptr;
   r.p  = p;
   if (p) r.out = p;
   else r.err = error(c, &r.p);
   return r;
}
R set_abi(Ctx* c, uint64_t con, std::string_view t, bool null) {
   auto b = cstr(t);
   bool k;
   { rt::In in; k = abieos_set_abi(c, con, null ? nullptr : b.p); }
   return done(c, k);
}
R set_abi_bin(Ctx* c, uint64_t con, std::string_view t, bool null) {
   Buf  b(t, false);
   bool k;
   { rt::In in; k = abieos_set_abi_bin(c, con, null ? nullptr : b.p, b.n); }
   return done(c, k);
}
R set_abi_hex(Ctx* c, uint64_t con, std::string_view t, bool null) {
   auto b = cstr(t);
   bool k;
   { rt::In in; k = abieos_set_abi_hex(c, con, null ? nullptr : b.p); }
   return done(c, k);
}
R json_to_bin(Ctx* c, uint64_t con, const std::string& type, std::string_view json, bool reorder, bool null) {
   auto b = cstr(json), t = cstr(type);
   bool k;
   {
      rt::In in;
      k = reorder ? abieos_json_to_bin_reorderable(c, con, null ? nullptr : t.p, null ? nullptr : b.p) : abieos_json_to_bin(c, con, null ? nullptr : t.p, null ? nullptr : b.p);
   }
   R r = done(c, k);
   if (k) r.out = bin_data(c, &r.p);
   return r;
}
R bin_to_json(Ctx* c, uint64_t con, const std::string& type, std::string_view data, bool null) {
   Buf         b(data, false);
   auto        t = cstr(type);
   const char* p;
   { rt::In in; p = abieos_bin_to_json(c, con, t.p, null ? nullptr : b.p, b.n); }
   return text(c, p);
}
R hex_to_json(Ctx* c, uint64_t con, const std::string& type, std::string_view hex, bool null) {
   auto        b = cstr(hex), t = cstr(type);
   const char* p;
   { rt::In in; p = abieos_hex_to_json(c, con, t.p, null ? nullptr : b.p); }
   return text(c, p);
}
R type_for_action(Ctx* c, uint64_t con, uint64_t n, const char** keep) {
   const char* p;
   { rt::In in; p = abieos_get_type_for_action(c, con, n); }
   if (keep) *keep = p;
   return text(c, p);
}
R type_for_table(Ctx* c, uint64_t con, uint64_t n, const char** keep) {
   const char* p;
   { rt::In in; p = abieos_get_type_for_table(c, con, n); }
   if (keep) *keep = p;
   return text(c, p);
}
R name_to_string(Ctx* c, uint64_t n) {
   const char* p;
   { rt::In in; p = abieos_name_to_string(c, n); }
   return text(c, p);
}
uint64_t string_to_name(Ctx* c, std::string_view s, bool null) {
   auto   b = cstr(s);
   rt::In in;
   return abieos_string_to_name(c, null ? nullptr : b.p);
}
R bin_hex(Ctx* c) {
   const char* p;
   { rt::In in; p = abieos_get_bin_hex(c); }
   return text(c, p);
}
int bin_size(Ctx* c) { rt::In in; return abieos_get_bin_size(c); }
bool bin_data_null(Ctx* c) { rt::In in; return abieos_get_bin_data(c) == nullptr; }
std::string bin_data(Ctx* c, const char** keep) {
   const char* p;
   int         n;
   { rt::In in; p = abieos_get_bin_data(c); n = abieos_get_bin_size(c); }
   if (keep) *keep = p;
   if (n < 0) return "(negative size)";
   return n ? std::string(p, n) : std::string();
}

// ------------------------------------------------------------------------------------------------ C++ interface
void AbiDeleter::operator()(Abi* a) const { rt::In in; delete a; }

template <typename F>
static R guarded(F f) {
   R           r;
   std::string err;
   try {
      rt::In in;
      f(r);
      r.ok = true;
   } catch (std::exception& e) {
      rt::Out out;
      r.err = e.what();
   } catch (...) {
      r.err = "unknown exception";
   }
   return r;
}
static const char supported[] = "eosio::abi/1.";
R abi_load_json(std::string_view t, AbiPtr& out) {
   Buf b(std::string(t.substr(0, t.find('\0'))) + std::string(4, '\0'), false); // the parser may look at 3 bytes behind the end
   std::unique_ptr<Abi> a;
   R r = guarded([&](R& r) {
      eosio::json_token_stream s(b.p);
      eosio::abi_def           d;
      from_json(d, s);
      eosio::check(d.version.substr(0, 13) == supported, "unsupported abi version");
      a.reset(new Abi);
      convert(d, a->a);
   });
   out.reset(a.release());
   if (!r.ok) out.reset();
   return r;
}
R abi_load_bin(std::string_view t, AbiPtr& out) {
   Buf                  b(t, false);
   std::unique_ptr<Abi> a;
   R                    r = guarded([&](R& r) {
      eosio::input_stream s{ b.p, b.n };
      eosio::abi_def      d;
      from_bin(d, s);
      eosio::check(d.version.substr(0, 13) == supported, "unsupported abi version");
      a.reset(new Abi);
      convert(d, a->a);
   });
   out.reset(a.release());
   if (!r.ok) out.reset();
   return r;
}
R abi_recode(std::string_view bin) {
   Buf b(bin, false);
   return guarded([&](R& r) {
      eosio::input_stream s{ b.p, b.n };
      eosio::abi_def      d;
      from_bin(d, s);
      auto v = eosio::convert_to_bin(d);
      rt::Out o;
      r.out = std::string(v.data(), v.size());
   });
}
R abi_export(Abi& a) {
   return guarded([&](R& r) {
      eosio::abi_def d;
      convert(a.a, d);
      auto    v = eosio::convert_to_bin(d);
      rt::Out o;
      r.out = std::string(v.data(), v.size());
   });
}
R abi_type(Abi& a, const std::string& type) {
   return guarded([&](R&) { a.a.get_type(type); });
}
R cb_json_to_bin(Abi& a, const std::string& type, std::string_view json, bool reorder, const std::function<void()>* cb) {
   Buf b(json, false);
   return guarded([&](R& r) {
      auto* t = a.a.get_type(type);
      auto  f = [&] { if (cb) { rt::Out o; (*cb)(); } };
      std::vector<char> v = reorder ? (cb ? t->json_to_bin_reorderable({ b.p, b.n }, f) : t->json_to_bin_reorderable({ b.p, b.n }))
                                    : (cb ? t->json_to_bin({ b.p, b.n }, f) : t->json_to_bin({ b.p, b.n }));
      rt::Out o;
      r.out.assign(v.data(), v.size());
   });
}
R cb_bin_to_json(Abi& a, const std::string& type, std::string_view data, size_t& consumed, const std::function<void()>* cb) {
   Buf b(data, false);
   return guarded([&](R& r) {
      auto* t = a.a.get_type(type);
      auto  f = [&] { if (cb) { rt::Out o; (*cb)(); } };
      eosio::input_stream s{ b.p, b.n };
      std::string         v = cb ? t->bin_to_json(s, f) : t->bin_to_json(s);
      consumed              = s.pos - b.p;
      rt::Out o;
      r.out = v;
   });
}
Type type_of(Abi& a, const std::string& type) {
   Type t = nullptr;
   guarded([&](R&) { t = a.a.get_type(type); });
   return t;
}
R t_json_to_bin(Type ty, std::string_view json, bool reorder) {
   Buf b(json, false);
   return guarded([&](R& r) {
      auto*             t = static_cast<const eosio::abi_type*>(ty);
      std::vector<char> v = reorder ? t->json_to_bin_reorderable({ b.p, b.n }) : t->json_to_bin({ b.p, b.n });
      rt::Out           o;
      r.out.assign(v.data(), v.size());
   });
}
R t_bin_to_json(Type ty, std::string_view data) {
   Buf b(data, false);
   return guarded([&](R& r) {
      auto*               t = static_cast<const eosio::abi_type*>(ty);
      eosio::input_stream s{ b.p, b.n };
      std::string         v = t->bin_to_json(s);
      rt::Out             o;
      r.out = v;
   });
}
} // namespace api
