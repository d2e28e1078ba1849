// Native structs of one program in several versions, with the conversions between them.
#pragma once
#include "native.hpp"

namespace upgr {
constexpr int orders = 4, accounts = 4;
// an order stored as version `from`, read, converted to version `to` and encoded as that
api::R convert(int from, int to, bool second, std::string_view bin);
// an order stored as one of the versions (a variant), turned into version `to`
api::R convert_any(int to, std::string_view bin, size_t& consumed);
// a list of orders stored as version `from`, turned into a list of version `to`
api::R convert_list(int from, int to, std::string_view bin, size_t& consumed);
// a record type which is kept in memory as version 1, and stored as version 0
api::R stored_as(std::string_view bin, size_t& consumed); // list of them; encoded as a list of version 1
// a parcel whose content is not decoded in the old version, and whose number changes its type
api::R parcel(std::string_view bin, size_t& consumed);
// an account, read as version `ver`, encoded again
api::R account(int ver, std::string_view bin, size_t& consumed);
api::R account_json(int ver, std::string_view json);
// an ABI made of the last version of the account
api::R account_abi(int ver, api::AbiPtr&, std::string& called);
} // namespace upgr
