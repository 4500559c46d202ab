// Maps, two-way maps, arrays indexed by a key domain.
#include "vh.hpp"
#include <set>
#include <hstd/ext/bimap_wrap.hpp>
#include <hstd/stdlib/Array.hpp>
#include <hstd/stdlib/Map.hpp>
using vh::json;
using namespace hstd;

struct Key { // a type with a hash of its own and every key in one of two buckets
    int  k;
    bool operator==(Key const& o) const { return k == o.k; }
};
struct KeyHash { std::size_t operator()(Key const& k) const { return k.k % 2; } };

template <typename T> T in(int x) {
    if constexpr (std::is_same_v<T, std::string>) { return x == 0 ? std::string{} : std::string(24, 'k') + std::to_string(x); }
    else { return T{x}; }
}
int out(int x) { return x; }
int out(Key const& x) { return x.k; }
int out(std::string const& s) { return s.empty() ? 0 : std::stoi(s.substr(24)); }
json outl(auto const& v) { json r = json::array(); for (auto const& x : v) { r.push_back(out(x)); } return r; }

struct Any { virtual ~Any() = default; virtual json op(json const& o) = 0; };

template <typename Map, typename K, typename V, bool Sorted>
struct M : Any {
    Map  m;
    json op(json const& o) override {
        std::string k = o["op"];
        auto x = [&] { return in<K>(o["x"]); };
        auto y = [&] { return in<V>(o["y"]); };
        json v  = "ok";
        bool ok = true;
        Map const& cm = m;
        if (k == "put") { m.insert_or_assign(x(), y()); }
        else if (k == "index") { m[x()] = y(); }
        else if (k == "adput") {
            if constexpr (std::is_same_v<K, Key>) { m.insert_or_assign(x(), y()); }
            else { AssociativeKvPairContainerAdapter<K, V, Map> ad(&m); const_cast<Map*>(ad.container)->insert_or_assign(x(), y());
                ok = ad.contains_impl(x()) && ad.at_impl(x()) == y(); }
        }
        else if (k == "seqadd") {
            if constexpr (std::is_same_v<K, Key>) { m.insert({x(), y()}); }
            else { SequentialKvPairContainerAdapter<K, V, Map> ad(&m); ad.add_impl({x(), y()}); ok = ad.size_impl() == (int)m.size(); }
        }
        else if (k == "getor") { V d = y(); v = out(m.get_or_insert(x(), d)); }
        else if (k == "unique") { try { m.insert_unqiue(x(), y()); } catch (hstd::key_error const&) { v = "err"; } }
        else if (k == "pop") { auto r = m.pop_opt(x()); if (r) { v = out(*r); } else { v = "none"; } }
        else if (k == "get") { auto r = cm.get(x()); if (r) { v = out(*r); } else { v = "none"; } }
        else if (k == "at") { try { v = out(cm.at(x())); ok = out(m.at(x())) == v.get<int>(); }
            catch (hstd::range_error const&) { v = "err"; } catch (std::out_of_range const&) { v = "err"; } }
        else if (k == "has") { v = cm.contains(x()); }
        else if (k == "erase") { m.erase(x()); }
        else if (k == "clear") { m.clear(); }
        else if (k == "same") {
            // equal contents built in another order are equal and hash the same
            Map c;
            auto ks = cm.keys();
            for (int i = ks.size() - 1; 0 <= i; --i) { c.insert_or_assign(ks.at(i), cm.at(ks.at(i))); }
            if constexpr (!std::is_same_v<K, Key>) { ok = c == m && std::hash<Map>{}(c) == std::hash<Map>{}(m); }
        }
        else { throw std::logic_error(k); }
        json pairs = json::array();
        for (auto const& [a, b] : cm) { pairs.push_back(json::array({out(a), out(b)})); }
        return json{{"v", v}, {"m", pairs}, {"n", (int)cm.size()}, {"k", outl(cm.keys())}, {"vs", outl(cm.values())}, {"sorted", Sorted}, {"ok", ok && cm.empty() == (cm.size() == 0)}};
    }
};

template <typename B, typename L, typename R, int Kind>
struct W : Any {
    B    m;
    json op(json const& o) override {
        std::string k = o["op"];
        auto x = [&] { return in<L>(o["x"]); };
        auto y = [&] { return in<R>(o["y"]); };
        json v  = "ok";
        bool ok = true;
        B const& cm = m;
        if (k == "unique") { try { m.add_unique(x(), y()); } catch (hstd::runtime_error const&) { v = "err"; } }
        else if (k == "get") { auto r = cm.get_right(x()); if (r) { v = out(*r); } else { v = "none"; } }
        else if (k == "at") { try { v = out(cm.at_right(x())); } catch (std::exception const&) { v = "err"; } }
        else if (k == "has") { v = cm.contains_left(x()); }
        else if (k == "hasr") { v = cm.contains_right(y()); }
        else if (k == "erase") { m.erase_left(x()); }
        else if (k == "eraser") { m.erase_right(y()); }
        else if (k == "left") {
            if constexpr (Kind == 1) { auto r = cm.get_left(y()); v = json::array(); if (r) { v.push_back(out(*r)); } } else { v = outl(cm.get_left(y())); }
        }
        else if (k == "atleft") {
            try { if constexpr (Kind == 1) { v = json::array({out(cm.at_left(y()))}); } else { v = outl(cm.at_left(y())); } } catch (std::exception const&) { v = "err"; }
        }
        else if (k == "move") { if constexpr (Kind != 1) { v = m.reassign(x(), y()); } else { throw std::logic_error(k); } }
        else { throw std::logic_error(k); }
        json pairs = json::array();
        for (auto const& p : cm.get_map()) { pairs.push_back(json::array({out(p.first), out(p.second)})); }
        return json{{"v", v}, {"m", pairs}, {"n", (int)cm.raw().size()}, {"k", outl(cm.left_keys())}, {"vs", outl(cm.right_keys())}, {"sorted", false}, {"ok", ok}};
    }
};

template <typename K, int Low, int High>
struct T : Any { // an array indexed by every value of K: kept as the map of the keys that were set
    TypArray<K, int> m;
    std::set<int>    set;
    T() { for (int i = Low; i <= High; ++i) { m[static_cast<K>(i)] = 0; } }
    json op(json const& o) override {
        std::string k = o["op"];
        json        v = "ok";
        TypArray<K, int> const& cm = m;
        auto x = [&] { return static_cast<K>(o["x"].get<int>()); };
        if (k == "unique") { if (cm[x()] != 0) { v = "err"; } else { m[x()] = o["y"]; } }
        else if (k == "get") { int r = cm[x()]; if (r) { v = r; } else { v = "none"; } }
        else if (k == "at") { int r = cm.at(x()); if (r) { v = r; } else { v = "err"; } }
        else if (k == "has") { v = m.at(x()) != 0; }
        else if (k == "erase") { m.at(x()) = 0; }
        else { throw std::logic_error(k); }
        json pairs = json::array(), ks = json::array(), vs = json::array();
        int  n = 0, seen = 0, next = Low;
        bool ok = true;
        auto ki = [](K q) { return std::is_same_v<K, char> ? (int)(unsigned char)q : (int)q; };
        for (auto const& [a, b] : cm.pairs()) {
            ok = ok && ki(a) == next++;
            ++seen;
            if (*b) { ++n; pairs.push_back(json::array({ki(a), *b})); ks.push_back(ki(a)); vs.push_back(*b); }
        }
        for (auto const& [a, b] : m.pairs()) { ok = ok && cm[a] == *b; --seen; }
        return json{{"v", v}, {"m", pairs}, {"n", n}, {"k", ks}, {"vs", vs}, {"sorted", true}, {"ok", ok && seen == 0 && next == High + 1}};
    }
};
enum class Small : unsigned char { A, B, C, D, E, F };
template <> struct hstd::value_domain<Small> : hstd::value_domain_ungapped<Small, Small::A, Small::F> {};

struct S {
    std::unique_ptr<Any> m;
    void start(json const& sc) {
        std::string k = sc["cfg"]["kind"];
        int         t = sc["cfg"]["t"];
        using Str = std::string;
        if (k == "map") {
            if (t == 0) { m = std::make_unique<M<UnorderedMap<int, int>, int, int, false>>(); }
            if (t == 1) { m = std::make_unique<M<UnorderedMap<Str, Str>, Str, Str, false>>(); }
            if (t == 2) { m = std::make_unique<M<SortedMap<int, Str>, int, Str, true>>(); }
            if (t == 3) { m = std::make_unique<M<SortedMap<Str, int>, Str, int, true>>(); }
            if (t == 4) { m = std::make_unique<M<UnorderedMap<Key, int, KeyHash>, Key, int, false>>(); }
        }
        if (k == "one") {
            if (t % 2 == 0) { m = std::make_unique<W<ext::Unordered1to1Bimap<int, int>, int, int, 1>>(); }
            else { m = std::make_unique<W<ext::Unordered1to1Bimap<Str, Key, std::hash<Str>, KeyHash>, Str, Key, 1>>(); }
        }
        if (k == "many") {
            if (t % 2 == 0) { m = std::make_unique<W<ext::UnorderedNto1Bimap<int, int>, int, int, 2>>(); }
            else { m = std::make_unique<W<ext::UnorderedNto1Bimap<Key, Str, KeyHash>, Key, Str, 2>>(); }
        }
        if (k == "stable") {
            if (t % 2 == 0) { m = std::make_unique<W<ext::StableNto1Bimap<int, int>, int, int, 3>>(); }
            else { m = std::make_unique<W<ext::StableNto1Bimap<Str, Key, KeyHash>, Str, Key, 3>>(); }
        }
        if (k == "arr") {
            if (t % 3 == 0) { m = std::make_unique<T<std::uint8_t, 0, 255>>(); }
            else if (t % 3 == 1) { m = std::make_unique<T<char, 0, 255>>(); }
            else { m = std::make_unique<T<Small, 0, 5>>(); }
        }
    }
    json op(json const& o) { return m->op(o); }
};
VH_MAIN(S)
