// C16: wallets which tell each other their keys as text, over channels and by people who make mistakes, and keep them
// in text files that crashes tear. Nothing protects a key on its way but the key itself.
#include "../net.hpp"
#include "../repl.hpp"
#include "../spoil.hpp"
#include "keytext_api.hpp"
#include "lab.hpp"

namespace {
using net::Peer;
using model::B;
const B     kinds[]     = { B::public_key, B::private_key, B::signature };
const char* kind_name[] = { "public_key", "private_key", "signature" };

struct Item { int owner = 0, kind = 0; uint32_t idx = 0; std::string payload, bin, legacy; };
std::string key_payload(Rng& r, int kind, uint32_t idx, bool big) {
   size_t      n = kind == 0 ? 33 : kind == 1 ? 32 : 65;
   std::string p = gen::raw_bytes(r, n);
   switch (r.below(8)) {
      case 0: p.assign(n, 0); break;
      case 1: p.assign(n, char(0xff)); break;
      case 2: for (size_t i = 0, k = r.below(n + 1); i < k; ++i) p[i] = 0; break;          // leading zeros are digits, too
      case 3: { size_t k = r.below(n); p.assign(n, 0); p[k] = char(1 << r.below(8)); break; }
      case 4: for (auto& c : p) c = char(r.below(2)); break;
      default: if (kind == 0) p[0] = char(2 + r.below(2)); break;
   }
   if (idx == 2) {
      size_t most = big ? 400 : 20;
      if (kind == 0) { p += char(r.below(3)); model::put_str(p, r.chance(20) ? std::string() : r.chance(20) ? gen::raw_bytes(r, r.below(most)) : gen::utf8_text(r, int(most))); }
      else { model::put_str(p, gen::raw_bytes(r, r.below(most))); model::put_str(p, gen::utf8_text(r, int(most))); }
   }
   return p;
}
Plan gen_c16(Rng& r, const Tier& tier) {
   Plan p;
   int  n = int(r.range(2, 3)), m = int(r.range(3, tier.thorough ? 24 : 10));
   p.ops.push_back(Op("wallets").i("n", n).u("how", r.next() >> 1).u("oom", r.chance(25) ? r.range(2, 6) : 0));
   for (int i = 0; i < m; ++i) {
      int      kind = int(r.below(3));
      uint32_t idx  = uint32_t(r.below(kind == 1 ? 2 : 3));
      p.ops.push_back(Op("key").i("w", r.below(n)).i("kind", kind).u("idx", idx).i("old", idx == 0 && kind < 2 && r.chance(40)).s("data", key_payload(r, kind, idx, r.chance(tier.thorough ? 15 : 5))));
   }
   for (int i = 0, k = int(r.range(0, 4)); i < k; ++i) {
      auto b = gen::raw_bytes(r, r.chance(20) ? r.below(90) : r.below(12));
      if (r.coin()) b = std::string(r.below(5), '\0') + b;
      p.ops.push_back(Op("base58").s("data", b).u("slip", r.next() >> 1));
   }
   // slips of people who read, type and copy
   static const char* how[] = { "case", "swap", "drop", "twice", "alike", "digit", "other", "prefix", "kind", "blank", "cut", "more", "ones", "fewer", "long", "byte", "mix" };
   for (int i = 0, k = int(r.below(tier.thorough ? 80 : 40)); i < k; ++i)
      p.ops.push_back(Op("slip").u("k", r.below(6 * uint64_t(m))).s("how", how[r.below(17)]).u("a", r.next() >> 1));
   auto mx = net::some_mix(r);
   if (r.chance(70)) mx.flip = unsigned(r.below(30));
   if (r.chance(50)) mx.cut = unsigned(r.below(15));
   net::faults(r, p, mx, 40 + 10 * m, n, 2000);
   return p;
}
bool valid_utf8(std::string_view s) {
   for (size_t p = 0; p < s.size();) { size_t n = model::JsonParser::utf8len(s, p); if (!n) return false; p += n; }
   return true;
}
struct W16 {
   Run&              run;
   World             w;
   std::vector<Item> items;
   std::map<uint64_t, std::vector<Op>> slips; // by reading
   uint64_t          readings = 0, how = 0, oom = 0;
   explicit W16(Run& r) : run(r), w(r) {}
   bool fail(const char* cls, const Item& it, const std::string& msg) {
      run.fail(std::string(cls) + ":" + kind_name[it.kind], std::string(kind_name[it.kind]) + " " + model::key_prefix(kinds[it.kind], it.idx) + " of " + show(it.payload, 80) + ": " + msg);
      return false;
   }
   static std::string canonical(const Item& it) { return model::key_prefix(kinds[it.kind], it.idx) + model::key58(it.payload, model::key_suffix(it.idx)); }
   int way() { return int(mix(how, ++readings) % 4); }
   static std::string quoted(const std::string& s) {
      static const char* hex = "0123456789abcdef";
      std::string o = "\"";
      for (unsigned char c : s) { if (c < 0x20 || c == '"' || c == '\\') { o += "\\u00"; o += hex[c >> 4]; o += hex[c & 15]; } else o += char(c); }
      return o + "\"";
   }
   static std::string unquoted(const std::string& s) { model::JV v; return model::parse_json(s, v) == model::ok && v.kind == model::JV::str ? v.s : std::string("?"); }
   // binary to text, in one of the ways there are
   bool write(const Item& it, int ctx, std::string& text) {
      int how = way();
      api::R g;
      note_phase("write key");
      if (how == 0) g = keytext::to_text(it.kind, it.bin);
      else if (how == 1) {
         size_t used = 0;
         auto*  e    = nat::find(kind_name[it.kind]);
         auto   o    = e->decode(it.bin, g, used);
         if (g.ok) { auto x = o->emit(nat::JSON, nat::CONVERT, 0); g.ok = x.ok; g.err = x.err; g.out = unquoted(x.bytes); }
      } else {
         Op o(how == 2 ? "b2j" : "xb2j");
         o.i("c", ctx).u("con", 1).s("type", kind_name[it.kind]).s("data", it.bin);
         if (!w.exec(o)) return false;
         g = w.last;
         if (g.ok) g.out = unquoted(g.out);
      }
      run.ev("write " + g.err + g.out);
      if (!g.ok) return fail("not-written", it, "no text: " + g.err);
      if (g.out != canonical(it)) return fail("wrong-text", it, "written as " + show(g.out, 200) + ", expected " + canonical(it));
      text = g.out;
      return true;
   }
   // text to binary; got: whether it was taken
   bool read(int kind, std::string text, int ctx, bool& got, std::string& bin) {
      int    how = way();
      api::R g;
      Item   what;
      what.kind = kind;
      bool   faulty = oom && readings % oom == 0;
      note_phase("read key");
      std::string want;
      auto        t = model::key_from_text(kinds[kind], text, want);
      if (how >= 1 && !valid_utf8(text)) { t = model::bad; }
      if (how >= 2 && text.find('\0') != text.npos) how = 0; // not within a C string
      if (how == 0) {
         if (faulty) rt::arm(mix(readings, 1) % 8, 1);
         g = keytext::from_text(kind, text);
         uint64_t fired = rt::ts.fired;
         if (faulty) { rt::disarm(); run.add("fault.allocation_failure", fired); }
         if (fired && faulty && !g.ok) g = keytext::from_text(kind, text);
      } else if (how == 1) {
         auto o = nat::find(kind_name[kind])->parse(quoted(text), g);
         if (g.ok) g.out = o->emit(nat::BIN, nat::CONVERT, 0).bytes;
      } else {
         Op o(how == 2 ? "j2b" : "xj2b");
         o.i("c", ctx).u("con", 1).s("type", kind_name[kind]).s("data", quoted(text)).i("ord", mix(readings, 2) & 1);
         if (faulty) { Op f = o; f.u("fa", mix(readings, 1) % 20); if (!w.exec(f)) return false; }
         if (!w.exec(o)) return false;
         g = w.last;
      }
      run.ev("read " + std::to_string(g.ok) + text);
      auto bad = [&](const char* cls, const std::string& m) { run.fail(std::string(cls) + ":" + kind_name[kind], std::string(kind_name[kind]) + " " + show(text, 200) + ": " + m); return false; };
      if (t == model::ok && !g.ok) return bad("refused-valid", "refused: " + g.err);
      if (t == model::bad && g.ok) return bad("accepted-invalid", "accepted as " + show(g.out));
      if (t == model::ok && g.out != want) return bad("wrong-key", "read as " + show(g.out) + ", it is " + show(want));
      got = g.ok;
      bin = g.out;
      return true;
   }
   std::string slip(std::string s, bool guarded) {
      auto f = slips.find(readings);
      if (guarded && f == slips.end() && mix(how, readings * 8) % 6 == 0)
         f = slips.emplace(readings, std::vector<Op>{ Op("slip").s("how", mix(how, readings * 8 + 1) % 3 ? "mix" : mix(how, readings * 8 + 2) & 1 ? "long" : "fewer").u("a", mix(how, readings * 8 + 3)) }).first;
      if (f == slips.end()) return s;
      static const char* alike = "1lI|0OoQuvVwW5S2Z8B6bG9gq";
      for (auto& o : f->second) {
         uint64_t a = o.unum("a");
         auto&    h = o.str("how");
         if (s.empty()) break;
         if (guarded && h != "mix" && h != "long" && h != "fewer") continue; // known finding: only the channel protects it
         size_t   i = a % s.size(), body = s.size() > 7 && s[6] == '_' ? 7 : s.substr(0, 3) == "EOS" ? 3 : 0;
         uint64_t b = mix(a, 7);
         if (h == "case") { for (size_t k = 0; k < s.size(); ++k) { char& c = s[(i + k) % s.size()]; if (isalpha((unsigned char)c)) { c ^= 32; break; } } }
         else if (h == "swap") { if (s.size() > 1) { i %= s.size() - 1; std::swap(s[i], s[i + 1]); } }
         else if (h == "drop") s.erase(i, 1);
         else if (h == "twice") s.insert(i, 1, s[i]);
         else if (h == "alike") { const char* q = strchr(alike, s[i]); if (q && *q) s[i] = alike[(q - alike + 1) % 25]; else s[i] = alike[b % 25]; }
         else if (h == "digit") s[i] = model::b58[b % 58];
         else if (h == "other") s[i] = " _-.+/=0OIl\t\x01\x7f\xc3"[b % 15];
         else if (h == "prefix") { static const char* pre[] = { "EOS", "PUB_K1_", "PUB_R1_", "PUB_WA_", "", "pub_K1_", "PUB_K1", "PUB_" }; s = pre[b % 8] + s.substr(body); }
         else if (h == "kind") { static const char* pre[] = { "PUB_K1_", "PVT_K1_", "PVT_R1_", "SIG_K1_", "SIG_R1_", "SIG_WA_", "PVT_", "SIG_" }; s = pre[b % 8] + s.substr(body); }
         else if (h == "blank") { if (b & 1) s = " " + s; else s += b & 2 ? " " : "\n"; }
         else if (h == "cut") s.resize(i);
         else if (h == "more") for (uint64_t k = 0; k <= b % 4; ++k) s += model::b58[mix(b, k) % 58];
         else if (h == "ones") s.insert(body, 1 + b % 3, '1');
         else if (h == "byte") s[i] = char(b >> 8);
         else { // by someone who knows how checksums are made, but not what a key is
            std::string w;
            if (body == 7 && model::from58(s.substr(body), w) && w.size() > 8) {
               w.resize(w.size() - 4);
               if (h == "fewer") w.resize(w.size() - 1 - b % 3);
               else if (h == "long") w += gen_bytes(b, 1 + b % 3);
               else w[b % w.size()] ^= char(1 << (b >> 20) % 8); // another key, well written
               s = s.substr(0, 7) + model::key58(w, s.substr(4, 2));
            } else if (body == 0 && s[0] == '5' && model::from58(s, w) && w.size() == 37) { // another network's, or none
               if (h == "fewer") w.resize(37 - 1 - b % 3);
               else if (h == "long") w += gen_bytes(b, 1 + b % 3);
               else w[0] ^= char(1 << (b >> 20) % 8);
               s = model::to58(w);
               run.add("probe.legacy_version");
            }
         }
         run.add("fault.typing_error");
      }
      return s;
   }
   static std::string gen_bytes(uint64_t a, uint64_t n) { std::string s; for (uint64_t i = 0; i < n; ++i) s += char(mix(a, i)); return s; }
};
struct Wallet : net::Node {
   W16*                                w = nullptr;
   std::map<uint64_t, std::string>     book; // item -> binary
   std::set<std::pair<int, uint64_t>>  told; // wallet, item
   std::set<uint64_t>                  unsynced, durable; // items in files, and in files which a crash leaves alone
   uint64_t                            tries = 0;
   bool complete() { return book.size() == w->items.size(); }
   void start() override {
      if (!w->w.exec(Op("new").i("c", id))) return;
      model::AbiDef d;
      d.version = "eosio::abi/1.1";
      if (!w->w.exec(Op("load").i("c", id).u("con", 1).s("fmt", "bin").s("data", model::abi_to_bin(d)))) return;
      if (!w->w.exec(Op("xload").i("c", id).s("fmt", "bin").s("data", model::abi_to_bin(d)))) return;
      for (size_t i = 0; i < w->items.size(); ++i) if (w->items[i].owner == id) book[i] = w->items[i].bin;
      for (auto& name : net->files(id)) { // each a line of text: number, kind, key
         std::string line = *net->read(id, name);
         bool        whole = !line.empty() && line.back() == '\n';
         if (whole) line.pop_back();
         size_t      q = 0;
         uint64_t    k = Peer::num(line, q), kind = Peer::num(line, q);
         if (q >= line.size() || k >= w->items.size() || kind > 2) { net->run.add("probe.torn_line"); continue; }
         bool        got;
         std::string bin;
         if (!w->read(int(kind), line.substr(q), id, got, bin)) return;
         if (!got) { net->run.add("probe.torn_line"); continue; }
         if (bin != w->items[k].bin) { w->fail("wrong-key", w->items[k], "the file's text " + show(line) + " is taken for another key"); return; }
         net->run.add("probe.recovered_from_disk");
         book[k] = bin;
         if (whole) durable.insert(k);
      }
      net->at(id, 20, 1);
   }
   void stop() override {
      book.clear(); told.clear(); durable.clear(); unsynced.clear();
      w->w.exec(Op("del").i("c", id));
      w->w.exec(Op("xdel").i("c", id));
   }
   void save(uint64_t k) { // a file for each: another key's trouble must not lose this one
      auto&       it = w->items[k];
      std::string text;
      if (!w->write(it, id, text)) return;
      auto f = "key" + std::to_string(k);
      if (net->write(id, f, Peer::num(k) + Peer::num(uint64_t(it.kind)) + text + "\n")) unsynced.insert(k);
      else unsynced.erase(k);
   }
   void timer(int) override {
      for (auto k : unsynced) { net->sync(id, "key" + std::to_string(k)); durable.insert(k); }
      unsynced.clear();
      ++tries;
      for (int to = 0; to < int(net->nodes.size()); ++to) {
         int sent = 0;
         for (size_t k = 0; to != id && k < w->items.size() && sent < 4; ++k) {
            auto& it = w->items[k];
            if (it.owner != id || told.count({ to, k })) continue;
            std::string text;
            if (!w->write(it, id, text)) return;
            bool guarded = false;
            if (!it.legacy.empty() && (mix(tries, k) & 1)) { text = it.legacy; guarded = it.kind == 1; }
            std::string h = net::sealed("K" + Peer::num(k) + (guarded ? "g" : "-"));
            net->send(id, to, std::string(1, char(h.size())) + h + (guarded ? net::sealed(text) : text));
            ++sent;
         }
      }
      net->at(id, 150, 1);
   }
   void message(int from, const std::string& f) override {
      std::string h;
      if (f.empty() || f.size() < 1 + size_t((unsigned char)f[0]) || !net::unsealed(f.substr(1, (unsigned char)f[0]), h) || h.empty()) { net->run.add("probe.bad_frame"); return; }
      size_t   p = 1;
      uint64_t k = Peer::num(h, p);
      if (k >= w->items.size()) return;
      if (h[0] == 'A') { told.insert({ from, k }); return; }
      auto&       it = w->items[k];
      std::string text = f.substr(1 + h.size() + 8);
      if (h.back() == 'g') { std::string whole = text; if (!net::unsealed(whole, text)) { net->run.add("probe.bad_frame"); return; } }
      text = w->slip(text, h.back() == 'g');
      bool        intact = text == W16::canonical(it) || (!it.legacy.empty() && text == it.legacy), got;
      std::string bin;
      if (!w->read(it.kind, text, id, got, bin)) return;
      if (intact && !got) { w->fail("refused-valid", it, show(text) + " is refused"); return; }
      if (!intact) { net->run.add("fault.text_damaged"); net->run.add(got ? "probe.damaged_but_a_key" : "probe.damage_refused"); }
      net->run.state("texts", mix(fnv(text), got));
      if (!got) return;
      if (bin != it.bin) {
         // only someone who made a checksum for it can have done this
         bool forged = false;
         auto s = w->slips.find(w->readings - 1);
         if (s != w->slips.end()) for (auto& o : s->second) forged = forged || o.str("how") == "mix" || o.str("how") == "long" || o.str("how") == "fewer";
         if (!forged) { w->fail("wrong-key", it, show(text) + " is taken for " + show(bin)); return; }
         return;
      }
      book.emplace(k, bin);
      if (!durable.count(k)) { save(k); return; } // until a crash can't take it any more, ask again
      std::string a = net::sealed("A" + Peer::num(k) + "-");
      net->send(id, from, std::string(1, char(a.size())) + a);
   }
};
void run_c16(const Plan& p, Run& r) {
   W16      w(r);
   net::Net net(r);
   std::vector<std::unique_ptr<Wallet>> ws;
   note_phase("wallets");
   for (auto& o : p.ops) {
      if (o.name == "wallets") {
         w.how = o.unum("how"); w.oom = o.unum("oom");
         for (int i = 0; i < std::min<int64_t>(4, o.num("n")); ++i) { ws.push_back(std::make_unique<Wallet>()); ws.back()->net = &net; ws.back()->id = i; ws.back()->w = &w; net.nodes.push_back(ws.back().get()); }
      } else if (o.name == "key" && !ws.empty()) {
         Item it;
         it.owner = int(o.unum("w") % ws.size()); it.kind = int(o.unum("kind") % 3); it.idx = uint32_t(o.unum("idx") % (it.kind == 1 ? 2 : 3));
         std::string     got;
         model::Rd       rd{ o.str("data") };
         if (!model::read_key_payload(rd, kinds[it.kind], it.idx, got)) continue;
         it.payload = model::canon_payload(got, kinds[it.kind], it.idx);
         model::put_varuint(it.bin, it.idx);
         it.bin += it.payload;
         if (o.num("old") && it.idx == 0 && it.kind < 2) it.legacy = it.kind == 0 ? "EOS" + model::key58(it.payload, "") : model::wif(it.payload);
         w.items.push_back(it);
      } else if (o.name == "slip") w.slips[o.unum("k")].push_back(o);
      else if (o.name == "base58") {
         auto& d = o.str("data");
         auto  t = keytext::to_base58(d);
         auto  b = keytext::from_base58(t.out);
         r.ev("base58 " + t.out + b.err);
         if (!t.ok || t.out != model::to58(d)) { r.fail("base58:to", show(d) + " is written " + show(t.out) + t.err + ", expected " + model::to58(d)); return; }
         if (!b.ok || b.out != d) { r.fail("base58:from", show(t.out) + " is read as " + show(b.out) + b.err + ", expected " + show(d)); return; }
         uint64_t a = o.unum("slip");
         auto     s = t.out;
         if (s.empty()) s = "1";
         s[a % s.size()] = char(a >> 20);
         std::string want;
         bool        good = model::from58(s, want);
         auto        x    = keytext::from_base58(s);
         r.ev("base58 " + std::to_string(x.ok) + x.out);
         if (x.ok != good || (good && x.out != want)) { r.fail("base58:slip", show(s) + " is read as " + (x.ok ? show(x.out) : "nothing") + ", expected " + (good ? show(want) : "a refusal")); return; }
      }
   }
   if (ws.empty() || w.items.empty()) return;
   for (auto& o : p.ops) net.take(o);
   net.begin();
   auto done = [&] {
      if (net.now <= net.quiet_at) return false;
      for (auto& x : ws) if (!x->up || !x->complete()) return false;
      return true;
   };
   bool fin = net.go(net.quiet_at + 40000 + 2000 * w.items.size(), done, 200000);
   if (r.failed) return;
   if (!fin || !done()) { r.fail("no-progress:wallets", "keys have not arrived " + std::to_string(net.now - net.quiet_at) + " ms after the last fault"); return; }
   for (auto& x : ws)
      for (auto& [k, bin] : x->book)
         if (bin != w.items[k].bin) { w.fail("wrong-key", w.items[k], "a wallet has " + show(bin)); return; }
   net.finish();
   w.w.close();
}
void known_c16(Run& r) {
   auto a = model::wif(std::string(32, '\7'));
   a.back() = a.back() == 'x' ? 'y' : 'x';
   auto g = keytext::from_text(1, a);
   r.ev((g.ok ? "STILL " : "GONE ") + std::string("legacy-private-key-checksum"));
}
} // namespace
extern const Scenario sc_c16;
const Scenario sc_c16{ "C16", gen_c16, run_c16, known_c16 };
