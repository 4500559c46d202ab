// Integer sets over several domains, hashed sets.
#include "vh.hpp"
#include <set>
#include <hstd/stdlib/IntSet.hpp>
#include <hstd/stdlib/Set.hpp>
#include <hstd/stdlib/charsets.hpp>
#include <hstd/system/reflection.hpp>
using vh::json;
using namespace hstd;

enum class Flag : unsigned char { A = 3, B, C, D, E, F, G };
enum class Neg : short { A = -4, B, C, D, E, F };
template <> struct hstd::value_domain<Flag> : hstd::value_domain_ungapped<Flag, Flag::A, Flag::G> {};
template <> struct hstd::value_domain<Neg> : hstd::value_domain_ungapped<Neg, Neg::A, Neg::F> {};
enum class Gap : short { P = 1, Q = 4, R = 5, S = 20, T = 300 };
BOOST_DESCRIBE_ENUM(Gap, P, Q, R, S, T);

template <typename T> int out(T x) {
    if constexpr (std::is_same_v<T, char>) { return static_cast<unsigned char>(x); } else { return static_cast<int>(x); }
}
template <> int out<std::string>(std::string s) { return std::stoi(s.substr(20)); }
template <typename T> T in(int x) {
    if constexpr (std::is_same_v<T, std::string>) { return std::string(20, '0') + std::to_string(x); } else { return static_cast<T>(x); }
}

struct Any { virtual ~Any() = default; virtual json op(json const& o, std::vector<int> const& dom) = 0; };
template <typename Set, typename T> struct M : Any {
    static constexpr bool finite = requires(Set s) { ~s; };
    Set  a, b;
    json list(Set const& s) { json r = json::array(); for (auto it : s) { r.push_back(out<T>(it)); } return r; }
    json op(json const& o, std::vector<int> const& dom) override {
        std::string k = o["op"];
        json        v = "ok";
        if (k == "incl") { a.incl(in<T>(o["x"])); }
        else if (k == "excl") { a.excl(in<T>(o["x"])); }
        else if (k == "incls") { a.incl(b); }
        else if (k == "excls") { a.excl(b); }
        else if (k == "swap") { std::swap(a, b); }
        else if (k == "copy") { b = a; }
        else if (k == "plus") { a = a + b; }
        else if (k == "or") { a = a | b; }
        else if (k == "minus") { a = a - b; }
        else if (k == "and") { a = a & b; }
        else if (k == "xor") { a = a ^ b; }
        else if (k == "cmp") {
            v = json{{"eq", a == b}, {"lt", a < b}, {"le", a <= b}, {"gt", b < a}, {"ge", b <= a}, {"sup", a.contains(b)}};
        }
        else if (k == "has") { v = a.contains(in<T>(o["x"])); }
        else if constexpr (finite) {
            if (k == "inclr") { a.incl(slice(in<T>(o["lo"]), in<T>(o["hi"]))); }
            else if (k == "exclr") { a.excl(slice(in<T>(o["lo"]), in<T>(o["hi"]))); }
            else if (k == "compl") { a = ~a; }
            else if (k == "build") { a = Set{slice(in<T>(o["lo"]), in<T>(o["hi"])), in<T>(o["x"])}; }
            else { throw std::logic_error("op"); }
        } else { throw std::logic_error("op"); }
        int hits = 0, extra = 0;
        json la = list(a);
        std::set<int> seen(la.begin(), la.end());
        for (int x : dom) { if (a.contains(in<T>(x))) { ++hits; if (!seen.contains(x)) { ++extra; } } }
        if constexpr (!finite) {
            auto it = a.items();
            Set  c  = Set::FromVec(it), d = Set::FromIterable(a);
            if (it.size() != a.size() || !(c == a) || !(d == a)) { extra += 1000; }
            hits = (int)a.size(); // the universe probed need not hold every value
            for (int x : seen) { if (!a.contains(in<T>(x))) { ++extra; } }
        }
        return json{{"a", la}, {"b", list(b)}, {"n", (int)a.size()}, {"e", a.empty()}, {"v", v}, {"hits", hits}, {"extra", extra}};
    }
};

struct S {
    std::unique_ptr<Any> m;
    std::vector<int>     dom;
    void start(json const& sc) {
        std::string k = sc["cfg"]["kind"];
        dom           = sc["cfg"]["dom"].get<std::vector<int>>();
        if (k == "char") { m = std::make_unique<M<CharSet, char>>(); }
        if (k == "u8") { m = std::make_unique<M<IntSet<std::uint8_t>, std::uint8_t>>(); }
        if (k == "i8") { m = std::make_unique<M<IntSet<std::int8_t>, std::int8_t>>(); }
        if (k == "flag") { m = std::make_unique<M<IntSet<Flag>, Flag>>(); }
        if (k == "neg") { m = std::make_unique<M<IntSet<Neg>, Neg>>(); }
        if (k == "gap") { m = std::make_unique<M<IntSet<Gap>, Gap>>(); }
        if (k == "u16") { m = std::make_unique<M<IntSet<std::uint16_t>, std::uint16_t>>(); }
        if (k == "hash") { m = std::make_unique<M<UnorderedSet<int>, int>>(); }
        if (k == "hashs") { m = std::make_unique<M<UnorderedSet<std::string>, std::string>>(); }
    }
    json op(json const& o) { return m->op(o, dom); }
};
VH_MAIN(S)
