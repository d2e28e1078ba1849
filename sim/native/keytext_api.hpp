// Keys and signatures as text, through the functions a program calls directly.
#pragma once
#include "native.hpp"

namespace keytext {
enum Kind { PUB, PVT, SIG };
api::R to_text(int kind, std::string_view bin);
api::R from_text(int kind, std::string_view text);
api::R to_base58(std::string_view data);
api::R from_base58(std::string_view text);
} // namespace keytext
