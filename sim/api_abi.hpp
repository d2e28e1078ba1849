// uses the code under test
#pragma once
#include "api.hpp"
#include <eosio/abi.hpp>
namespace api {
struct Abi { eosio::abi a; };
} // namespace api
