// The model's description of the native types.
#pragma once
#include "../model.hpp"
#include "native.hpp"

namespace nat {
// the model's types
const model::AbiDef& golden_def();
model::Abi&          golden();
const model::Type*   type(const Entry&);      // description as a type
const model::Type*   desc(const std::string&); // from text
bool                 depends(const model::Type*, bool (*)(const model::Type*), int depth = 0);
} // namespace nat
