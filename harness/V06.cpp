// Ordinal domains, saturating arithmetic, bit helpers, dumps.
#include "vh.hpp"
#include <cmath>
#include <hstd/system/basic_templates.hpp>
#include <hstd/system/bit_utils.hpp>
#include <hstd/system/ptr_utils.hpp>
#include <hstd/system/string_base.hpp>
#include <hstd/system/string_convert.hpp>
#include <hstd/system/aux_utils.hpp>
#include <hstd/system/aux_templates.hpp>
#include <array>
#include <list>
using vh::json;
using i128 = __int128;

json wide(i128 x) {
    bool neg = x < 0;
    unsigned __int128 m = neg ? -(unsigned __int128)x : x;
    json d = json::array();
    while (m) { d.push_back((int)(m & 0xffff)); m >>= 16; }
    return json{{"neg", neg}, {"d", d}};
}
i128 narrow(json const& j) {
    i128 r = 0;
    auto const& d = j["d"];
    for (int i = (int)d.size() - 1; 0 <= i; --i) { r = (r << 16) | d[i].get<int>(); }
    return j["neg"].get<bool>() ? -r : r;
}
template <typename T> T unbits(json const& j) {
    T r = 0;
    for (int i = (int)j.size() - 1; 0 <= i; --i) { r = (T)((T)(r << 1) | (T)j[i].get<int>()); }
    return r;
}
template <typename T> json bits(T v) {
    json r = json::array();
    for (std::size_t i = 0; i < sizeof(T) * 8; ++i) { r.push_back((int)((v >> i) & 1)); }
    return r;
}

enum class E1 : short { A = -3, B, C, D, E, F };
enum class E2 : unsigned char { A, B, C, D = 3 };
enum E3 { E3_A = 2, E3_B, E3_C };
namespace hstd {
template <> struct value_domain<E1> : value_domain_ungapped<E1, E1::A, E1::F> {};
template <> struct value_domain<E2> : value_domain_ungapped<E2, E2::A, E2::D> {};
template <> struct value_domain<E3> : value_domain_ungapped<E3, E3_A, E3_C> {};
}
struct IntRange : hstd::value_domain_ungapped<int, -5, 7> {};

template <typename D, typename T> json dom(i128 x, bool is_char = false) {
    auto num = [&](T v) -> i128 { return is_char ? (i128)(unsigned char)v : (i128)v; };
    T    v  = (T)x;
    json r;
    r["lo"]   = wide(num(D::low()));
    r["hi"]   = wide(num(D::high()));
    r["ord"]  = wide((i128)D::ord(v));
    r["succ"] = v == D::high() ? wide(0) : wide(num(D::succ(v)));
    if constexpr (requires { D::prev(v); }) { r["prev"] = v == D::low() ? wide(0) : wide(num(D::prev(v))); }
    else { r["prev"] = v == D::low() ? wide(0) : wide(num(v) - 1); }
    return r;
}

template <typename F> json with_type(std::string const& n, F f) {
    if (n == "i8") { return f((signed char)0); }
    if (n == "u8") { return f((unsigned char)0); }
    if (n == "i16") { return f((short)0); }
    if (n == "u16") { return f((unsigned short)0); }
    if (n == "i32") { return f((int)0); }
    if (n == "u32") { return f((unsigned)0); }
    if (n == "i64") { return f((long)0); }
    if (n == "u64") { return f((unsigned long)0); }
    if (n == "ill") { return f((long long)0); }
    if (n == "ull") { return f((unsigned long long)0); }
    std::abort();
}
template <typename F> json with_unsigned(std::string const& n, F f) {
    if (n == "u8") { return f((unsigned char)0); }
    if (n == "u16") { return f((unsigned short)0); }
    if (n == "u32") { return f((unsigned)0); }
    return f((unsigned long)0);
}
template <int N, int K> int pw(int n, int k) {
    if (n == N && k == K) { return hstd::pow_v<N, K>::res; }
    if constexpr (K < 6) { return pw<N, K + 1>(n, k); }
    else if constexpr (N < 5) { return pw<N + 1, 0>(n, k); }
    else { std::abort(); }
}
template <int I> struct Ty {};
template <typename X, typename... P> bool pk(std::vector<int> const& rest) {
    if constexpr (sizeof...(P) < 3) {
        if (!rest.empty()) {
            std::vector<int> r(rest.begin() + 1, rest.end());
            if (rest[0] == 0) { return pk<X, P..., Ty<0>>(r); }
            if (rest[0] == 1) { return pk<X, P..., Ty<1>>(r); }
            return pk<X, P..., Ty<2>>(r);
        }
    }
    return hstd::is_in_pack_v<X, P...>;
}

struct S {
    json op(json const& o) {
        std::string k = o["op"];
        json        v;
        if (k == "dom") {
            std::string n = o["d"]["name"];
            i128        x = narrow(o["x"]);
            if (n == "char") { v = dom<hstd::value_domain<char>, char>(x, true); }
            else if (n == "E1") { v = dom<hstd::value_domain<E1>, E1>(x); }
            else if (n == "E2") { v = dom<hstd::value_domain<E2>, E2>(x); }
            else if (n == "E3") { v = dom<hstd::value_domain<E3>, E3>(x); }
            else if (n == "range") { v = dom<IntRange, int>(x); }
            else { v = with_type(n, [&](auto z) { return dom<hstd::value_domain<decltype(z)>, decltype(z)>(x); }); }
        } else if (k == "sadd" || k == "ssub" || k == "sany") {
            v = with_type(o["t"]["name"], [&](auto z) {
                using T = decltype(z);
                return with_type(o["u"]["name"], [&](auto y) {
                    using U = decltype(y);
                    T a = (T)narrow(o["a"]);
                    U b = (U)narrow(o["b"]);
                    if (k == "sadd") { return wide(hstd::saturating_add<T, U>(a, b)); }
                    if (k == "ssub") { return wide(hstd::saturating_sub<T, U>(a, b)); }
                    if constexpr (std::is_signed_v<U>) { return wide(hstd::saturating_add_any<T, U>(a, b)); }
                    else { return wide(hstd::saturating_add<T, U>(a, b)); }
                });
            });
        } else if (k == "bits") {
            v = with_unsigned(o["t"]["name"], [&](auto z) {
                using T = decltype(z);
                T a = unbits<T>(o["a"]), m = unbits<T>(o["m"]), s = unbits<T>(o["v"]);
                return json{{"eq", hstd::masked_equals<T>(a, m, s)}, {"as", bits<T>(hstd::assign_masked<T>(a, m, s))},
                            {"wo", bits<T>(hstd::without_masked_bits<T>(a, m))},
                            {"rt", bits<T>(hstd::masked_bits_right<T>(a, m, o["k"].get<unsigned>()))}};
            });
        } else if (k == "dump") {
            std::string n = o["t"]["name"];
            auto        f = [&](auto z) {
                using T = decltype(z);
                T x     = (T)narrow(o["x"]);
                return json{{"hex", vh::bytes(format_string_to_hex<T>(x))}, {"bin", vh::bytes(format_string_to_bin<T>(x))}};
            };
            if (n == "char") { v = f((char)0); }
            else if (n == "i8") { std::abort(); }
            else { v = with_type(n, [&](auto z) -> json {
                if constexpr (std::is_same_v<decltype(z), signed char>) { std::abort(); } else { return f(z); } }); }
        } else if (k == "ptr") {
            int p = o["p"], a = o["a"], n = o["n"];
            if (o["w"] == "int") {
                static int buf[64];
                v = json{{"in", hstd::is_within_memory_block<int>(buf + p, buf + a, n)}, {"ok", hstd::is_pointer_valid<int>(buf + p, buf + a, n)},
                         {"null", hstd::is_pointer_valid<int>(nullptr, buf + a, n)}, {"dist", hstd::pointer_distance<int>(buf + a, buf + p)}};
            } else {
                static char buf[64];
                v = json{{"in", hstd::is_within_memory_block<char>(buf + p, buf + a, n)}, {"ok", hstd::is_pointer_valid<char>(buf + p, buf + a, n)},
                         {"null", hstd::is_pointer_valid<char>(nullptr, buf + a, n)}, {"dist", hstd::pointer_distance<char>(buf + a, buf + p)}};
            }
        } else if (k == "join") {
            std::vector<std::string> l;
            std::string              sep = vh::text(o["sep"]);
            for (auto const& x : o["l"]) { l.push_back(vh::text(x)); }
            std::string r = o["w"] == "list" ? hstd::join(sep, std::list<std::string>(l.begin(), l.end())) : hstd::join(sep, l);
            v = vh::bytes(r);
        } else if (k == "close") {
            double a = o["a"].get<int>() / 8.0, b = o["b"].get<int>() / 8.0, rt = o["rt"].get<int>() / 8.0, at = o["at"].get<int>() / 8.0;
            v = hstd::isclose(a, b, rt, at);
        } else if (k == "pow") {
            v = pw<-3, 0>(o["n"], o["k"]);
        } else if (k == "pack") {
            std::vector<int> p = o["p"].get<std::vector<int>>();
            int              x = o["x"];
            v = x == 0 ? pk<Ty<0>>(p) : x == 1 ? pk<Ty<1>>(p) : pk<Ty<2>>(p);
        }
        return json{{"v", v}};
    }
};
VH_MAIN(S)
