// What a simulated run reports, and the table of scenarios.
#pragma once
#include "util.hpp"

struct Violation {
   std::string cls, msg;
};

struct Run {
   uint64_t                        hash = 0xcbf29ce484222325ull; // event log hash
   std::map<std::string, uint64_t> count;                        // faults fired, probes, work done
   std::vector<std::pair<std::string, uint64_t>> distinct;       // (measure, value) pairs, merged by the driver
   std::string                     log;                          // event log (kept when wanted)
   bool                            keep_log = false;
   bool                            failed   = false;
   Violation                       v;
   uint64_t                        sim_time = 0;                 // simulated milliseconds

   void ev(std::string_view e) {
      hash = fnv(e, hash);
      hash = mix(hash, e.size());
      if (keep_log && log.size() < 60000) { log.append(e); log += '\n'; }
   }
   void add(const char* k, uint64_t n = 1) { if (n) count[k] += n; }
   void state(const char* k, uint64_t h) { if (distinct.size() < 4000) distinct.push_back({ k, h }); }
   void fail(const std::string& cls, const std::string& msg) {
      if (failed) return;
      failed = true;
      v      = { cls, msg };
      ev("VIOLATION " + cls + ": " + msg);
   }
};

struct Tier { bool thorough = false; };
struct Scenario {
   const char* id;
   Plan (*gen)(Rng&, const Tier&);
   void (*run)(const Plan&, Run&);
   // known findings that are re-executed on every check: prints what still fails
   void (*known)(Run&) = nullptr;
};
const std::vector<Scenario>& scenarios();
