// uses the code under test
#include "impl.hpp"
namespace nat {
Reg::Reg(const char* n, const char* t, unsigned c, ObjPtr (*d)(std::string_view, api::R&, size_t&), ObjPtr (*p)(std::string_view, api::R&)) { list().push_back({ n, t, c, d, p }); }
const std::vector<Entry>& entries() {
   static bool sorted;
   auto& l = Reg::list();
   if (!sorted) { std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; }); sorted = true; }
   return l;
}
const Entry* find(const std::string& n) {
   for (auto& e : entries()) if (n == e.name) return &e;
   return nullptr;
}
} // namespace nat
using namespace nat;
#define B3(N, ...) NAT(N, N, cJ | cP | cK, __VA_ARGS__)
B3("bool", bool)
B3("int8", int8_t)
B3("uint8", uint8_t)
B3("int16", int16_t)
B3("uint16", uint16_t)
B3("int32", int32_t)
B3("uint32", uint32_t)
B3("int64", int64_t)
B3("uint64", uint64_t)
B3("int128", __int128)
B3("uint128", unsigned __int128)
B3("float32", float)
B3("float64", double)
B3("float128", eosio::float128)
B3("varuint32", eosio::varuint32)
NAT("varint32", "varint32", cJ | cP, eosio::varint32)
B3("name", eosio::name)
B3("symbol", eosio::symbol)
B3("symbol_code", eosio::symbol_code)
B3("asset", eosio::asset)
B3("extended_asset", eosio::extended_asset)
B3("time_point", eosio::time_point)
B3("time_point_sec", eosio::time_point_sec)
B3("block_timestamp_type", eosio::block_timestamp)
B3("checksum160", eosio::checksum160)
B3("checksum256", eosio::checksum256)
B3("checksum512", eosio::checksum512)
B3("public_key", eosio::public_key)
B3("private_key", eosio::private_key)
B3("signature", eosio::signature)
B3("string", std::string)
NAT("string_view", "string", cJ | cK, std::string_view)
B3("bytes", eosio::bytes)
NAT("input_stream", "bytes", cJ, eosio::input_stream)
