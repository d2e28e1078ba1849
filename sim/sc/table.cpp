#include "../sim.hpp"
#define SC(x) extern const Scenario x;
#include "list.inc"
#ifdef WITH_NATIVE
#include "../native/list.inc"
#endif
#undef SC
const std::vector<Scenario>& scenarios() {
   static const std::vector<Scenario> v{
#define SC(x) x,
#include "list.inc"
#ifdef WITH_NATIVE
#include "../native/list.inc"
#endif
   };
   return v;
}
