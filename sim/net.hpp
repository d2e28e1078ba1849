// A simulated network of nodes with clocks and disks, inside one thread. Everything that goes wrong is written in the
// plan: what happens to the k'th frame, when which node crashes, which disk write fails. What is not written there
// goes well, so that removing lines from a plan removes faults.
#pragma once
#include "sim.hpp"
#include <deque>
#include <functional>

namespace net {
struct Net;
struct Disk { // survives crashes; what was not synced may be lost or torn
   std::map<std::string, std::string> durable, cached;
   uint64_t                           writes = 0;
};
struct Node {
   Net*     net = nullptr;
   int      id  = 0;
   bool     up  = false;
   uint64_t epoch = 0, stalled_until = 0;
   int64_t  ppm   = 0; // clock rate
   int64_t  jump  = 0; // clock offset
   Disk     disk;
   std::deque<std::pair<int, std::string>> backlog;
   virtual ~Node() {}
   virtual void start() = 0;                                // also after a crash: only the disk is left
   virtual void stop()  = 0;                                // crash: drop everything volatile
   virtual void message(int from, const std::string&) = 0;
   virtual void timer(int what) = 0;
};
struct Net {
   Run&     run;
   uint64_t now = 0, seq = 0, frames = 0, delivered = 0, steps = 0;
   std::vector<Node*> nodes;
   std::map<uint64_t, std::vector<Op>> fate; // by frame
   std::vector<Op>                     parts;
   std::map<std::pair<int, uint64_t>, Op> diskfault;
   struct Ev { int kind; int node, from, what; uint64_t epoch; std::string data; };
   std::map<std::pair<uint64_t, uint64_t>, Ev> q;
   uint64_t path = 0; // identifies the interleaving
   uint64_t quiet_at = 0; // when the last fault of the plan is over
   explicit Net(Run& r) : run(r) {}

   // lines of the plan which are about the network; others are left to the caller
   bool take(const Op& o) {
      auto until = [&](uint64_t t) { quiet_at = std::max(quiet_at, t); };
      if (o.name == "fate") { fate[o.unum("k")].push_back(o); return true; }
      if (o.name == "part") { parts.push_back(o); until(o.unum("t") + o.unum("d")); return true; }
      if (o.name == "crash") { ev(o.unum("t"), { 1, int(o.num("n")), 0, int(o.num("down")), 0, "" }); until(o.unum("t") + o.unum("down")); return true; }
      if (o.name == "stall") { ev(o.unum("t"), { 2, int(o.num("n")), 0, int(o.num("d")), 0, "" }); until(o.unum("t") + o.unum("d")); return true; }
      if (o.name == "skew") { if (size_t(o.num("n")) < nodes.size()) { nodes[o.num("n")]->ppm = o.num("ppm"); run.add("fault.clock_skew"); } return true; }
      if (o.name == "jump") { ev(o.unum("t"), { 3, int(o.num("n")), 0, int(o.num("by")), 0, "" }); return true; }
      if (o.name == "disk") { diskfault[{ int(o.num("n")), o.unum("k") }] = o; return true; }
      return false;
   }
   void ev(uint64_t t, Ev e) { q.emplace(std::make_pair(t, seq++), std::move(e)); }
   uint64_t clock(int n) { return uint64_t(int64_t(now) + int64_t(now) * nodes[n]->ppm / 1000000 + nodes[n]->jump); }
   void at(int n, uint64_t delay, int what) { // a timer of this node, by its own clock
      int64_t d = int64_t(delay) * 1000000 / (1000000 + nodes[n]->ppm);
      ev(now + uint64_t(std::max<int64_t>(1, d)), { 4, n, 0, what, nodes[n]->epoch, "" });
   }
   bool cut(int a, int b) {
      for (auto& p : parts)
         if (now >= p.unum("t") && now < p.unum("t") + p.unum("d") && ((p.unum("set") >> a) & 1) != ((p.unum("set") >> b) & 1)) return true;
      return false;
   }
   void send(int from, int to, std::string data) {
      uint64_t k = frames++;
      if (cut(from, to)) { run.add("fault.partition_drop"); return; }
      uint64_t delay = 10, copies = 1, late = 0;
      auto     f = fate.find(k);
      if (f != fate.end())
         for (auto& o : f->second) {
            auto& kind = o.str("kind");
            if (kind == "drop") { run.add("fault.message_loss"); return; }
            if (kind == "dup") { run.add("fault.message_duplication"); copies += 1; late = o.unum("a"); }
            if (kind == "late") { run.add("fault.message_delay"); delay += o.unum("a"); }
            if (kind == "flip" && !data.empty()) { run.add("fault.message_corruption"); data[o.unum("a") % data.size()] ^= char(1 << (o.unum("b") & 7)); }
            if (kind == "cut") { run.add("fault.message_truncation"); data.resize(o.unum("a") % (data.size() + 1)); }
         }
      for (uint64_t c = 0; c < copies; ++c) ev(now + delay + c * (1 + late), { 5, to, from, 0, 0, data });
   }
   // disk of a node; both may throw away what they are given, as a disk does
   bool write(int n, const std::string& name, const std::string& data) { // false: reported error
      auto& d = nodes[n]->disk;
      auto  f = diskfault.find({ n, d.writes++ });
      if (f != diskfault.end()) {
         auto& kind = f->second.str("kind");
         if (kind == "err") { run.add("fault.disk_error"); return false; }
         if (kind == "full") { run.add("fault.disk_full"); return false; }
         if (kind == "short") { run.add("fault.short_write"); d.cached[name] = data.substr(0, f->second.unum("a") % (data.size() + 1)); return false; }
      }
      d.cached[name] = data;
      return true;
   }
   void sync(int n, const std::string& name) {
      auto& d = nodes[n]->disk;
      auto  c = d.cached.find(name);
      if (c == d.cached.end()) return;
      d.durable[name] = c->second;
      d.cached.erase(c);
   }
   const std::string* read(int n, const std::string& name) {
      auto& d = nodes[n]->disk;
      auto  c = d.cached.find(name);
      if (c != d.cached.end()) return &c->second;
      c = d.durable.find(name);
      return c == d.durable.end() ? nullptr : &c->second;
   }
   std::vector<std::string> files(int n) {
      std::set<std::string> s;
      for (auto& [k, _] : nodes[n]->disk.durable) s.insert(k);
      for (auto& [k, _] : nodes[n]->disk.cached) s.insert(k);
      return { s.begin(), s.end() };
   }
   void crash(int n, uint64_t down) {
      auto& x = *nodes[n];
      if (x.up) { x.stop(); x.up = false; }
      ++x.epoch;
      x.backlog.clear();
      uint64_t k = 0;
      for (auto& [name, data] : x.disk.cached) { // part of it reached the disk
         uint64_t how = mix(mix(now, n), k++) % 4;
         if (how == 0) { run.add("fault.lost_write"); continue; }
         if (how == 3) { x.disk.durable[name] = data; continue; }
         run.add("fault.torn_write");
         x.disk.durable[name] = data.substr(0, mix(now + 1, k) % (data.size() + 1));
      }
      x.disk.cached.clear();
      run.add("fault.crash");
      ev(now + std::max<uint64_t>(1, down), { 6, n, 0, 0, x.epoch, "" });
   }
   void begin() { for (auto* n : nodes) { n->up = true; n->start(); if (run.failed) return; } }
   // runs until nothing is left to do, or done, or the time is over; false: stopped early
   bool go(uint64_t until, const std::function<bool()>& done, uint64_t max_steps = 40000) {
      while (!run.failed) {
         if (done && done()) return true;
         if (q.empty()) return true;
         auto it = q.begin();
         if (it->first.first > until) { now = until; return false; }
         if (++steps > max_steps) return false;
         now  = std::max(now, it->first.first);
         Ev e = std::move(it->second);
         q.erase(it);
         if (e.node < 0 || size_t(e.node) >= nodes.size()) continue;
         auto& x = *nodes[e.node];
         path    = mix(path, mix(e.kind * 16 + e.node, e.kind == 5 ? fnv(e.data) : e.what));
         switch (e.kind) {
            case 1: crash(e.node, uint64_t(e.what)); break;
            case 2: run.add("fault.stall"); x.stalled_until = now + e.what; ev(x.stalled_until, { 7, e.node, 0, 0, 0, "" }); break;
            case 3: run.add("fault.clock_jump"); x.jump += e.what; break;
            case 4: if (x.up && e.epoch == x.epoch) { if (now < x.stalled_until) { ev(x.stalled_until + 1, e); break; } x.timer(e.what); } break;
            case 5:
               if (!x.up) { run.add("fault.node_down_drop"); break; }
               if (now < x.stalled_until) { x.backlog.push_back({ e.from, e.data }); break; }
               ++delivered;
               x.message(e.from, e.data);
               break;
            case 6: if (!x.up && e.epoch == x.epoch) { x.up = true; run.add("probe.restarts"); x.start(); } break;
            case 7:
               while (x.up && !x.backlog.empty() && !run.failed) { auto m = x.backlog.front(); x.backlog.pop_front(); ++delivered; x.message(m.first, m.second); }
               break;
         }
      }
      return false;
   }
   void finish() {
      run.sim_time += now;
      run.add("probe.frames", frames);
      run.add("probe.frames_delivered", delivered);
      run.state("interleavings", path);
      run.ev("net " + std::to_string(now) + " " + std::to_string(frames) + " " + std::to_string(path));
      for (auto* n : nodes) if (n->up) { n->stop(); n->up = false; }
   }
};
// a schedule of faults for `frames` frames, `nodes` nodes, within `time`
struct Mix { unsigned loss = 10, dup = 10, late = 15, flip = 0, cut = 0; int crashes = 2, parts = 1, stalls = 1, skews = 1, disks = 2; };
inline Mix some_mix(Rng& r) {
   Mix m;
   m.loss = r.chance(30) ? 0 : unsigned(r.below(35));
   m.dup  = r.chance(30) ? 0 : unsigned(r.below(30));
   m.late = r.chance(30) ? 0 : unsigned(r.below(40));
   m.crashes = r.chance(30) ? 0 : int(r.below(4));
   m.parts   = r.chance(50) ? 0 : int(r.below(3));
   m.stalls  = r.chance(60) ? 0 : int(r.below(3));
   m.skews   = r.chance(60) ? 0 : int(r.below(3));
   m.disks   = r.chance(60) ? 0 : int(r.below(4));
   return m;
}
inline void faults(Rng& r, Plan& p, const Mix& m, uint64_t frames, int nodes, uint64_t time, int first_crashable = 0) {
   for (uint64_t k = 0; k < frames; ++k) {
      if (r.chance(m.loss)) { p.ops.push_back(Op("fate").u("k", k).s("kind", "drop")); continue; }
      if (r.chance(m.dup)) p.ops.push_back(Op("fate").u("k", k).s("kind", "dup").u("a", r.below(300)));
      if (r.chance(m.late)) p.ops.push_back(Op("fate").u("k", k).s("kind", "late").u("a", r.chance(80) ? r.below(100) : r.below(1500)));
      if (r.chance(m.flip)) p.ops.push_back(Op("fate").u("k", k).s("kind", "flip").u("a", r.below(1000)).u("b", r.below(8)));
      if (r.chance(m.cut)) p.ops.push_back(Op("fate").u("k", k).s("kind", "cut").u("a", r.below(1000)));
   }
   for (int i = 0; i < m.crashes; ++i) p.ops.push_back(Op("crash").i("n", r.range(first_crashable, nodes - 1)).u("t", r.below(time)).u("down", r.range(1, 500)));
   for (int i = 0; i < m.parts; ++i) p.ops.push_back(Op("part").u("t", r.below(time)).u("d", r.range(10, 800)).u("set", r.range(1, (1u << nodes) - 2)));
   for (int i = 0; i < m.stalls; ++i) p.ops.push_back(Op("stall").i("n", r.below(nodes)).u("t", r.below(time)).u("d", r.range(10, 600)));
   for (int i = 0; i < m.skews; ++i) {
      if (r.coin()) p.ops.push_back(Op("skew").i("n", r.below(nodes)).i("ppm", int64_t(r.below(600000)) - 300000));
      else p.ops.push_back(Op("jump").i("n", r.below(nodes)).u("t", r.below(time)).i("by", int64_t(r.below(4000)) - 2000));
   }
   static const char* dk[] = { "err", "full", "short" };
   for (int i = 0; i < m.disks; ++i) p.ops.push_back(Op("disk").i("n", r.below(nodes)).u("k", r.below(12)).s("kind", dk[r.below(3)]).u("a", r.below(500)));
}
} // namespace net
