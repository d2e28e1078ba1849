// Records handed on from peer to peer over the simulated network: at least once on the wire, exactly once and in order
// in every log, surviving crashes by snapshots on the simulated disk.
#pragma once
#include "net.hpp"

namespace net {
inline std::string sealed(std::string s) {
   uint64_t h = fnv(s);
   for (int i = 0; i < 8; ++i) s += char(h >> (8 * i));
   return s;
}
inline bool unsealed(const std::string& f, std::string& s) {
   if (f.size() < 8) return false;
   s = f.substr(0, f.size() - 8);
   return sealed(s) == f;
}
struct Peer : Node {
   int                      up_id = -1;   // where records come from; -1: they start here
   std::vector<int>         down;         // who gets them
   std::vector<std::string> log;          // as received
   std::vector<std::string> out;          // as handed on
   struct D { uint64_t have = 0, inc = 0; };
   std::map<int, D>         acked;
   uint64_t                 inc = 0, snaps = 0, persisted = 0;
   std::vector<std::string> unsynced;
   unsigned                 every = 3, window = 4;

   // what becomes of a record here; false: the run has failed
   virtual bool process(uint64_t, const std::string& in, std::string& handed_on) { handed_on = in; return true; }
   virtual void forget() {} // crash: volatile state of the application

   static std::string num(uint64_t v) { return std::to_string(v) + ";"; }
   static uint64_t    num(const std::string& s, size_t& p) { uint64_t v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); ++p; return v; }
   void tell(int to, std::string s) { net->send(id, to, sealed(std::move(s))); }
   void start() override {
      inc = net->now + 1;
      if (up_id >= 0) restore();
      if (net->run.failed) return;
      net->at(id, 20, 1);
   }
   void stop() override {
      if (up_id >= 0) { log.clear(); out.clear(); persisted = 0; forget(); }
      acked.clear();
      unsynced.clear();
   }
   void save() {
      if (up_id < 0 || log.size() == persisted) return;
      std::string s = num(log.size());
      for (auto& r : log) s += num(r.size()) + r;
      std::string f = (snaps++ & 1) ? "a" : "b";
      if (!net->write(id, f, sealed(s))) return; // the old one is still there
      unsynced.push_back(f); // reaches the disk a little later
      persisted = log.size();
   }
   void restore() {
      std::vector<std::string> best;
      bool                     found = false;
      for (auto f : { "a", "b" }) {
         auto*       d = net->read(id, f);
         std::string s;
         if (!d) continue;
         if (!unsealed(*d, s)) { net->run.add("probe.bad_snapshot"); continue; }
         size_t                   p = 0;
         uint64_t                 n = num(s, p);
         std::vector<std::string> v;
         for (uint64_t i = 0; i < n; ++i) { uint64_t l = num(s, p); v.push_back(s.substr(p, l)); p += l; }
         if (!found || v.size() > best.size()) best = v;
         found = true;
      }
      if (found) net->run.add("probe.recovered_from_disk");
      for (auto& r : best) if (!take(r)) return;
      persisted = log.size();
   }
   bool take(const std::string& r) {
      std::string o;
      if (!process(log.size(), r, o)) return false;
      log.push_back(r);
      out.push_back(o);
      return true;
   }
   void push(int to) {
      auto& a = acked[to];
      for (uint64_t i = a.have; i < out.size() && i < a.have + window; ++i) tell(to, "r" + num(i) + out[i]);
   }
   void timer(int) override {
      for (auto& f : unsynced) net->sync(id, f);
      unsynced.clear();
      for (int d : down) push(d);
      if (up_id >= 0) tell(up_id, "a" + num(inc) + num(log.size()));
      net->at(id, 100, 1);
   }
   void message(int from, const std::string& f) override {
      std::string s;
      if (!unsealed(f, s) || s.empty()) { net->run.add("probe.bad_frame"); return; }
      size_t p = 1;
      if (s[0] == 'a') {
         uint64_t i = num(s, p), have = num(s, p);
         auto&    a = acked[from];
         if (i > a.inc || (i == a.inc && have > a.have)) { a = { have, i }; push(from); }
      } else if (s[0] == 'r' && from == up_id) {
         uint64_t i = num(s, p);
         if (i < log.size()) { net->run.add("probe.duplicates_dropped"); return; }
         if (i > log.size()) { net->run.add("probe.out_of_order_dropped"); return; }
         if (!take(s.substr(p))) return;
         if (log.size() % every == 0) save();
         tell(up_id, "a" + num(inc) + num(log.size()));
         for (int d : down) push(d);
      }
   }
};
} // namespace net
