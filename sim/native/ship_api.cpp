// uses the code under test
#include "impl.hpp"
#include "../api_abi.hpp"
#include "ship_api.hpp"

namespace shapes2 {
struct plain { uint16_t x = 0; std::string s; };
EOSIO_REFLECT(plain, x, s)
struct nested { plain p; std::vector<uint64_t> v; std::optional<std::string> o; std::variant<uint8_t, std::string, std::vector<uint16_t>> w; plain q; };
EOSIO_REFLECT(nested, p, v, o, w, q)
struct heir : plain { std::vector<std::string> more; std::optional<bool> b; };
EOSIO_REFLECT(heir, base plain, more, b)
struct mixed { eosio::name n; double d = 0; eosio::varuint32 u; std::optional<std::string> s; std::vector<uint8_t> b; bool flag = false; };
EOSIO_REFLECT(mixed, n, d, u, s, b, flag)
} // namespace shapes2
namespace ship {
namespace sp = eosio::ship_protocol;
namespace {
eosio::checksum256 id_of(const std::string& s) {
   eosio::checksum256  c;
   eosio::input_stream in{ s.data(), s.size() };
   from_bin(c, in);
   return c;
}
std::string text_of(const eosio::checksum256& c) { auto b = eosio::convert_to_bin(c); rt::Out o; return { b.data(), b.size() }; }
sp::block_position pos_of(const Pos& p) { return { p.num, id_of(p.id) }; }
Pos pos_of(const sp::block_position& p) { auto t = text_of(p.block_id); rt::Out o; return { p.block_num, t }; }
template <typename T>
std::string bin_of(const T& v) { auto b = eosio::convert_to_bin(v); rt::Out o; return { b.data(), b.size() }; }
std::string raw(const eosio::input_stream& s) { rt::Out o; return { s.pos, s.end }; }
template <typename F>
api::R run(F f) { api::R r; nat::guarded(r.ok, r.err, [&] { f(r); }); return r; }
template <typename T>
Item item(const T& v) {
   auto b = eosio::convert_to_bin(v);
   auto j = eosio::convert_to_json(v);
   rt::Out o;
   return { std::string(b.data(), b.size()), std::string(j.data(), j.size()) };
}
template <typename T>
void walk(eosio::opaque<std::vector<T>> o, int how, size_t n, std::vector<Item>& out) {
   if (how == 1) {
      size_t k = o.unpack_size();
      for (size_t i = 0; i < k && i < n; ++i) {
         if (i & 1) { T v; o.unpack_next(v); auto x = item(v); rt::Out w; out.push_back(x); }
         else { auto x = item(o.unpack_next()); rt::Out w; out.push_back(x); }
      }
      if (n >= k) eosio::check(o.empty(), "something is left behind the last element");
      return;
   }
   std::vector<T> v;
   if (how == 0) v = o.unpack();
   else { v.resize(1); o.unpack(v); }
   eosio::check(o.empty(), "something is left behind the elements");
   for (auto& t : v) { auto x = item(t); rt::Out w; out.push_back(x); }
}
api::R take(std::string_view d, bool deltas, int how, size_t n, std::vector<Item>& out) {
   api::Buf b(d, false);
   out.clear();
   return run([&](api::R&) {
      eosio::input_stream s{ b.p, b.n };
      sp::result          v;
      from_bin(v, s);
      if (auto* r = std::get_if<sp::get_blocks_result_v1>(&v)) {
         if (deltas) walk(r->deltas, how, n, out);
         else walk(r->traces, how, n, out);
      } else if (auto* r = std::get_if<sp::get_blocks_result_v0>(&v)) {
         auto& o = deltas ? r->deltas : r->traces;
         if (!o) return;
         // an opaque over the same bytes: one made from a stream which holds length and content, and one from plain content
         std::vector<char> content(o->pos, o->end), packed;
         {
            eosio::vector_stream ps{ packed };
            to_bin(*o, ps);
         }
         if (how & 1) {
            if (deltas) walk(eosio::opaque<std::vector<sp::table_delta>>(content), how, n, out);
            else walk(eosio::opaque<std::vector<sp::transaction_trace>>(content), how, n, out);
         } else {
            eosio::input_stream in{ packed };
            if (deltas) walk(eosio::opaque<std::vector<sp::table_delta>>(in), how, n, out);
            else walk(eosio::opaque<std::vector<sp::transaction_trace>>(in), how, n, out);
         }
      }
   });
}
} // namespace
api::R write(const Req& q) {
   return run([&](api::R& r) {
      sp::request v;
      if (q.kind == 1) {
         sp::get_blocks_request_v0 b;
         b.start_block_num = q.start;
         b.end_block_num = q.end;
         b.max_messages_in_flight = q.window;
         for (auto& p : q.have) b.have_positions.push_back(pos_of(p));
         b.irreversible_only = q.irr;
         b.fetch_block = q.block;
         b.fetch_traces = q.traces;
         b.fetch_deltas = q.deltas;
         v = b;
      } else if (q.kind == 2) v = sp::get_blocks_ack_request_v0{ q.acks };
      auto s = bin_of(v);
      rt::Out o;
      r.out = s;
   });
}
api::R read(std::string_view d, Req& q) {
   api::Buf b(d, false);
   q = Req{};
   return run([&](api::R& r) {
      eosio::input_stream s{ b.p, b.n };
      sp::request         v;
      from_bin(v, s);
      q.kind = int(v.index());
      if (auto* p = std::get_if<sp::get_blocks_request_v0>(&v)) {
         q.start = p->start_block_num; q.end = p->end_block_num; q.window = p->max_messages_in_flight;
         for (auto& x : p->have_positions) { auto y = pos_of(x); rt::Out o; q.have.push_back(y); }
         q.irr = p->irreversible_only; q.block = p->fetch_block; q.traces = p->fetch_traces; q.deltas = p->fetch_deltas;
      } else if (auto* p = std::get_if<sp::get_blocks_ack_request_v0>(&v)) q.acks = p->num_messages;
   });
}
api::R write(const Res& q) {
   return run([&](api::R& r) {
      sp::result v;
      auto base = [&](sp::get_blocks_result_base& b) {
         b.head = pos_of(q.head);
         b.last_irreversible = pos_of(q.lib);
         if (q.at) b.this_block = pos_of(*q.at);
         if (q.prev) b.prev_block = pos_of(*q.prev);
      };
      auto str = [](const std::string& s) { return eosio::input_stream{ s.data(), s.size() }; };
      if (q.kind == 0) {
         sp::get_status_result_v0 b;
         b.head = pos_of(q.head);
         b.last_irreversible = pos_of(q.lib);
         b.trace_begin_block = q.trace_begin; b.trace_end_block = q.trace_end;
         b.chain_state_begin_block = q.state_begin; b.chain_state_end_block = q.state_end;
         b.chain_id = id_of(q.chain);
         v = b;
      } else if (q.kind == 1) {
         sp::get_blocks_result_v0 b;
         base(b);
         if (q.block) b.block = str(*q.block);
         if (q.traces) b.traces = str(*q.traces);
         if (q.deltas) b.deltas = str(*q.deltas);
         v = b;
      } else {
         sp::get_blocks_result_v1 b;
         base(b);
         if (q.block) { auto s = str(*q.block); sp::signed_block_variant x; from_bin(x, s); b.block = x; }
         std::vector<char> t(q.traces->begin(), q.traces->end()), d(q.deltas->begin(), q.deltas->end());
         b.traces = eosio::opaque<std::vector<sp::transaction_trace>>(t);
         b.deltas = eosio::opaque<std::vector<sp::table_delta>>(d);
         v = b;
         auto s = bin_of(v); // while t and d exist
         rt::Out o;
         r.out = s;
         return;
      }
      auto s = bin_of(v);
      rt::Out o;
      r.out = s;
   });
}
api::R read(std::string_view d, Res& q) {
   api::Buf b(d, false);
   q = Res{};
   return run([&](api::R& r) {
      eosio::input_stream s{ b.p, b.n };
      sp::result          v;
      from_bin(v, s);
      q.kind = int(v.index());
      auto base = [&](const sp::get_blocks_result_base& b) {
         auto h = pos_of(b.head), l = pos_of(b.last_irreversible);
         q.head = h; q.lib = l;
         if (b.this_block) q.at = pos_of(*b.this_block);
         if (b.prev_block) q.prev = pos_of(*b.prev_block);
      };
      if (auto* p = std::get_if<sp::get_status_result_v0>(&v)) {
         q.head = pos_of(p->head); q.lib = pos_of(p->last_irreversible);
         q.trace_begin = p->trace_begin_block; q.trace_end = p->trace_end_block;
         q.state_begin = p->chain_state_begin_block; q.state_end = p->chain_state_end_block;
         q.chain = text_of(p->chain_id);
      } else if (auto* p = std::get_if<sp::get_blocks_result_v0>(&v)) {
         base(*p);
         if (p->block) q.block = raw(*p->block);
         if (p->traces) q.traces = raw(*p->traces);
         if (p->deltas) q.deltas = raw(*p->deltas);
      } else if (auto* p = std::get_if<sp::get_blocks_result_v1>(&v)) {
         base(*p);
         if (p->block) q.block = bin_of(*p->block);
         auto part = [&](auto& o) { // length and content
            std::string         t = bin_of(o);
            eosio::input_stream s{ t.data(), t.size() }, c;
            from_bin(c, s);
            return raw(c);
         };
         q.traces = part(p->traces);
         q.deltas = part(p->deltas);
      }
   });
}
api::R items(std::string_view d, bool deltas, int how, std::vector<Item>& out) { return take(d, deltas, how, ~size_t(0), out); }
api::R first_items(std::string_view d, bool deltas, size_t n, std::vector<Item>& out) { return take(d, deltas, 1, n, out); }

namespace {
struct Maker { Native n; std::string (*add)(eosio::abi&); };
template <typename T>
std::string add(eosio::abi& a) { auto* t = a.add_type<T>(); rt::Out o; return t->name; }
#define SHIP(T) { { #T, #T, #T }, add<sp::T> }
#define PLAIN "struct(x:uint16,s:string)"
const std::vector<Maker>& makers() {
   static std::vector<Maker> m = {
      SHIP(get_status_request_v0), SHIP(extension), SHIP(get_blocks_ack_request_v0), SHIP(row), SHIP(permission_level), SHIP(account_auth_sequence),
      SHIP(account_delta), SHIP(transaction_header), SHIP(account_v0), SHIP(contract_table_v0), SHIP(contract_row_v0), SHIP(contract_index64_v0),
      SHIP(contract_index128_v0), SHIP(contract_index_double_v0), SHIP(key_value_v0), SHIP(chain_config_v0), SHIP(permission_level_weight),
      SHIP(wait_weight), SHIP(permission_link_v0), SHIP(resource_limits_v0), SHIP(usage_accumulator_v0), SHIP(resource_limits_ratio_v0),
      { { "plain", PLAIN, "plain" }, add<shapes2::plain> },
      { { "nested", "struct(p:" PLAIN ",v:vec(uint64),o:opt(string),w:var(uint8,string,vec(uint16)),q:" PLAIN ")", "nested" }, add<shapes2::nested> },
      { { "heir", "struct(x:uint16,s:string,more:vec(string),b:opt(bool))", "heir" }, add<shapes2::heir> },
      { { "mixed", "struct(n:name,d:float64,u:varuint32,s:opt(string),b:vec(uint8),flag:bool)", "mixed" }, add<shapes2::mixed> },
      { { "vec", "vec(uint32)", "uint32[]" }, add<std::vector<uint32_t>> },
      { { "opt", "opt(int64)", "int64?" }, add<std::optional<int64_t>> },
      { { "var", "var(uint8,string,vec(uint16))", "variant_uint8_string_uint16[]" }, add<std::variant<uint8_t, std::string, std::vector<uint16_t>>> },
   };
   return m;
}
} // namespace
const std::vector<Native>& natives() {
   static std::vector<Native> v;
   if (v.empty()) for (auto& m : makers()) v.push_back(m.n);
   return v;
}
api::R abi_native(const std::vector<std::string>& names, api::AbiPtr& out, std::vector<std::string>& called) {
   called.clear();
   std::unique_ptr<api::Abi> a;
   auto r = run([&](api::R&) {
      a.reset(new api::Abi);
      eosio::abi_def d;
      convert(d, a->a);
      for (auto& n : names)
         for (auto& m : makers()) if (n == m.n.name) { auto t = m.add(a->a); rt::Out o; called.push_back(t); }
   });
   out.reset(a.release());
   if (!r.ok) out.reset();
   return r;
}
} // namespace ship
