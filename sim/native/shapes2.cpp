// uses the code under test
#include "impl.hpp"
using namespace nat;
namespace shapes {
enum class color : uint8_t { a, b, c };
enum class wide : uint16_t { a, b, c };
struct base { uint16_t x = 0; std::string s; };
EOSIO_REFLECT(base, x, s)
struct derived : base { std::optional<uint64_t> o; std::vector<base> v; };
EOSIO_REFLECT(derived, base base, o, v)
struct tree { uint8_t v = 0; std::vector<tree> kids; };
EOSIO_REFLECT(tree, v, kids)
struct mixed { eosio::name n; double d = 0; eosio::varuint32 u; std::optional<std::string> s; std::vector<uint8_t> b; bool flag = false; };
EOSIO_REFLECT(mixed, n, d, u, s, b, flag)
struct none {};
EOSIO_REFLECT(none)
} // namespace shapes
using namespace shapes;
#define BASE "struct(x:uint16,s:string)"
#define V(T) std::vector<T>
#define O(T) std::optional<T>
constexpr unsigned JPK = cJ | cP | cK;
NAT("vec(uint8)", "vec(uint8)", JPK, V(uint8_t))
NAT("vec(int8)", "vec(int8)", JPK, V(int8_t))
NAT("vec(char)", "vec(int8)", cJ | cK, V(char))
NAT("vec(uint16)", "vec(uint16)", JPK, V(uint16_t))
NAT("vec(uint64)", "vec(uint64)", JPK, V(uint64_t))
NAT("vec(float64)", "vec(float64)", JPK, V(double))
NAT("vec(color)", "vec(uint8)", cK, V(color))
NAT("vec(wide)", "vec(uint16)", cK, V(wide))
NAT("vec(string)", "vec(string)", JPK, V(std::string))
NAT("vec(name)", "vec(name)", JPK, V(eosio::name))
NAT("vec(varuint32)", "vec(varuint32)", JPK, V(eosio::varuint32))
NAT("vec(checksum256)", "vec(checksum256)", JPK, V(eosio::checksum256))
NAT("vec(vec(uint16))", "vec(vec(uint16))", JPK, V(V(uint16_t)))
NAT("vec(opt(uint32))", "vec(opt(uint32))", JPK, V(O(uint32_t)))
NAT("vec(opt(uint8))", "vec(opt(uint8))", JPK, V(O(uint8_t)))
NAT("vec(none)", "vec(struct())", cJ | cK, V(none))
NAT("opt(uint8)", "opt(uint8)", JPK, O(uint8_t))
NAT("opt(int8)", "opt(int8)", JPK, O(int8_t))
NAT("opt(bool)", "opt(bool)", JPK, O(bool))
NAT("opt(uint32)", "opt(uint32)", JPK, O(uint32_t))
NAT("opt(string)", "opt(string)", JPK, O(std::string))
NAT("opt(vec(uint16))", "opt(vec(uint16))", JPK, O(V(uint16_t)))
NAT("opt(opt(uint8))", "opt(opt(uint8))", cK, O(O(uint8_t)))
NAT("opt(color)", "opt(uint8)", cK, O(color))
NAT("var(uint8,string,uint16[])", "var(uint8,string,vec(uint16))", JPK, std::variant<uint8_t, std::string, V(uint16_t)>)
NAT("var(name,opt(int64))", "var(name,opt(int64))", JPK, std::variant<eosio::name, O(int64_t)>)
NAT("pair(uint16,string)", "tup(uint16,string)", cK, std::pair<uint16_t, std::string>)
NAT("tup(int8,string,float32)", "tup(int8,string,float32)", cK, std::tuple<int8_t, std::string, float>)
NAT("arr(3,uint16)", "arr(3,uint16)", cK, std::array<uint16_t, 3>)
NAT("arr(2,string)", "arr(2,string)", cK, std::array<std::string, 2>)
NAT("carr(3,uint16)", "carr(3,uint16)", 0, uint16_t[3])
NAT("carr(2,string)", "carr(2,string)", 0, std::string[2])
NAT("set(uint16)", "set(uint16)", cK, std::set<uint16_t>)
NAT("set(string)", "set(string)", cK, std::set<std::string>)
NAT("map(uint8,string)", "map(uint8,string)", cK, std::map<uint8_t, std::string>)
NAT("map(string,vec(uint16))", "map(string,vec(uint16))", cK, std::map<std::string, V(uint16_t)>)
NAT("list(uint32)", "list(uint32)", cK, std::list<uint32_t>)
NAT("list(string)", "list(string)", cK, std::list<std::string>)
NAT("deque(uint8)", "list(uint8)", cK, std::deque<uint8_t>)
NAT("deque(string)", "list(string)", cK, std::deque<std::string>)
NAT("color", "uint8", cK, color)
NAT("wide", "uint16", cK, wide)
NAT("base", BASE, JPK, base)
NAT("derived", "struct(x:uint16,s:string,o:opt(uint64),v:vec(" BASE "))", JPK, derived)
NAT("mixed", "struct(n:name,d:float64,u:varuint32,s:opt(string),b:vec(uint8),flag:bool)", JPK, mixed)
