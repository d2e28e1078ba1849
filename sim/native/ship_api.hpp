// The state history protocol as a client program written in C++ uses it, and ABIs made from native types.
#pragma once
#include "native.hpp"
#include <optional>

namespace ship {
struct Pos { uint32_t num = 0; std::string id; bool operator==(const Pos& b) const { return num == b.num && id == b.id; } };
struct Req {
   int              kind = 0; // index of the request
   uint32_t         start = 0, end = 0, window = 0, acks = 0;
   std::vector<Pos> have;
   bool             irr = false, block = false, traces = false, deltas = false;
};
struct Res {
   int                        kind = 0; // index of the result
   Pos                        head, lib;
   std::optional<Pos>         at, prev;
   uint32_t                   trace_begin = 0, trace_end = 0, state_begin = 0, state_end = 0;
   std::string                chain;
   std::optional<std::string> block, traces, deltas; // v1: the block encoded again
};
api::R write(const Req&);
api::R read(std::string_view, Req&);
api::R write(const Res&);
api::R read(std::string_view, Res&);
// the elements of the traces or deltas of a result, each encoded again and in JSON; how: 0 whole, 1 one by one, 2 whole into an existing object
struct Item { std::string bin, json; };
api::R items(std::string_view result, bool deltas, int how, std::vector<Item>&);
// the first n, leaving the rest undecoded
api::R first_items(std::string_view result, bool deltas, size_t n, std::vector<Item>&);

// ABIs made from native types
struct Native { const char* name; const char* desc; const char* called; };
const std::vector<Native>& natives();
api::R abi_native(const std::vector<std::string>& names, api::AbiPtr&, std::vector<std::string>& called);
} // namespace ship
