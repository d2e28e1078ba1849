// The code under test, seen from outside: every call enters it through an rt::In scope, with inputs in exactly sized
// heap blocks (so that a read past the end is noticed) and outputs copied out afterwards.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

struct abieos_context_s;

namespace api {
using Ctx = ::abieos_context_s;
struct R {
   bool        ok = false;
   std::string out, err;
   const char* p = nullptr; // the library's own result (or error) memory
   bool operator==(const R& b) const { return ok == b.ok && out == b.out && err == b.err; }
};
struct Buf { // exactly sized copy
   char*  p = nullptr;
   size_t n = 0;
   Buf(std::string_view s, bool nul);
   ~Buf();
   Buf(const Buf&) = delete;
};

Ctx*        create();
void        destroy(Ctx*);
std::string error(Ctx*, const char** keep = nullptr);
R           set_abi(Ctx*, uint64_t con, std::string_view text, bool null = false);
R           set_abi_bin(Ctx*, uint64_t con, std::string_view data, bool null = false);
R           set_abi_hex(Ctx*, uint64_t con, std::string_view text, bool null = false);
R           json_to_bin(Ctx*, uint64_t con, const std::string& type, std::string_view json, bool reorder, bool null = false);
R           bin_to_json(Ctx*, uint64_t con, const std::string& type, std::string_view data, bool null = false);
R           hex_to_json(Ctx*, uint64_t con, const std::string& type, std::string_view hex, bool null = false);
R           type_for_action(Ctx*, uint64_t con, uint64_t name, const char** keep = nullptr);
R           type_for_table(Ctx*, uint64_t con, uint64_t name, const char** keep = nullptr);
R           name_to_string(Ctx*, uint64_t);
uint64_t    string_to_name(Ctx*, std::string_view, bool null = false);
R           bin_hex(Ctx*);
int         bin_size(Ctx*);
bool        bin_data_null(Ctx*);
std::string bin_data(Ctx*, const char** keep = nullptr);

// C++ interface of one ABI: conversions with the caller's own callback between steps
struct Abi;
struct AbiDeleter { void operator()(Abi*) const; };
using AbiPtr = std::unique_ptr<Abi, AbiDeleter>;
R        abi_load_json(std::string_view text, AbiPtr& out);
R        abi_load_bin(std::string_view data, AbiPtr& out);
R        abi_recode(std::string_view data); // decode and encode again
R        abi_export(Abi&); // its types as a binary definition
R        abi_type(Abi&, const std::string& type); // does the type exist
// cb runs outside the code under test and may throw
R cb_json_to_bin(Abi&, const std::string& type, std::string_view json, bool reorder, const std::function<void()>* cb);
R cb_bin_to_json(Abi&, const std::string& type, std::string_view data, size_t& consumed, const std::function<void()>* cb);
// pre-resolved types, as several threads share them
using Type = const void*;
Type type_of(Abi&, const std::string& type); // null: there is none
R    t_json_to_bin(Type, std::string_view json, bool reorder);
R    t_bin_to_json(Type, std::string_view data);
} // namespace api
