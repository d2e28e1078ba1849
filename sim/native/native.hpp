// The library's native C++ types, seen from outside: a catalogue of types with the model's description of each.
#pragma once
#include "../api.hpp"
#include <stdexcept>

namespace nat {
enum What { BIN, JSON, PRETTY, KEY };
enum Sink { CONVERT, VECTOR, FIXED, SIZE, OWN };
enum Caps { cJ = 1, cP = 2, cK = 4, cLite = 8 }; // lite: fewer kinds of sinks

struct SinkFull : std::runtime_error { using std::runtime_error::runtime_error; };
struct Out {
   bool        ok = false;
   std::string err, bytes; // what was written (also when it failed)
   uint64_t    size = 0;
   uint64_t    writes = 0;
   bool        clean = true; // nothing outside the given memory was touched
};
struct Obj { // a decoded value; keeps the data it was decoded from
   virtual ~Obj() {}
   virtual Out emit(What, Sink, uint64_t limit) const = 0;
   virtual api::R again(std::string_view bin, size_t& consumed) = 0; // decodes into the object, whatever it holds
};
using ObjPtr = std::unique_ptr<Obj>;
struct Entry {
   const char* name;  // for people
   const char* type;  // the model's description
   unsigned    caps;
   ObjPtr (*decode)(std::string_view bin, api::R&, size_t& consumed);
   ObjPtr (*parse)(std::string_view json, api::R&); // may be null
};
const std::vector<Entry>& entries();
const Entry*              find(const std::string& name);
} // namespace nat
