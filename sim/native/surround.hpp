// What a program may have set up around its calls of the library: everything a process shares. Put in place when the
// code under test is entered, looked at and taken away when it is left, so that the simulator itself never runs in it.
#pragma once
#include "../sim.hpp"

struct Surroundings {
   int         loc = 0;    // the C locale, see loc_names
   int         cxx = 0;    // the global C++ locale: 0 classic, 1 the same as loc, 2.. of our own making
   int         fp  = 0;    // rounding and treatment of subnormals
   int         err = 0;    // errno
   int         mem = 0;    // what memory contains before anybody writes to it
   int         vars = 0;   // environment variables
   int         dir = 0;    // working directory
   int         io  = 0;    // state of the standard streams
   uint64_t    now = 0;    // clock, ns since 1970
   uint64_t    seed = 0;
   bool        plain_arith = false;   // for this call: no unusual arithmetic
   static Surroundings of(const Op& o);
   std::string text() const;
};
namespace surround {
void        use(const Surroundings* s); // null: none
std::string complaint();                // what a call has done to its surroundings, since the last time; empty: nothing
uint64_t    asked_time();
void        begin();                    // of a run
void        end();
}
