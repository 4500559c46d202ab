// Vec / SmallVec, slices, end-relative indices, spans, sequence algorithms.
#include "vh.hpp"
#include <hstd/stdlib/ContainerAPI.hpp>
#include <hstd/stdlib/Ranges.hpp>
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/algorithms.hpp>
#include <hstd/stdlib/sequtils.hpp>
using vh::json;
using namespace hstd;

template <typename T> struct Conv;
template <> struct Conv<int> { static int in(int x) { return x; } static int out(int x) { return x; } };
template <> struct Conv<std::string> { // long enough to live on the heap
    static std::string in(int x) { return x == 0 ? std::string{} : std::string(30, 'a' + x); }
    static int         out(std::string const& s) { return s.empty() ? 0 : s.back() - 'a'; }
};

template <typename V, typename T>
struct M {
    using C = Conv<T>;
    V v;

    static json list(auto const& r) { json o = json::array(); for (auto const& x : r) { o.push_back(C::out(x)); } return o; }
    static V vec(json const& j) { V r; for (auto const& x : j) { r.push_back(C::in(x.get<int>())); } return r; }
    json res(json x) {
        // contents read through four independent routes must agree
        json a = json::array();
        for (int k = 0; k < v.size(); ++k) { a.push_back(C::out(v.at(k))); }
        json b = list(v);
        V const& cv = v;
        json c = json::array();
        for (int k = cv.size(); 0 < k; --k) { c.push_back(C::out(cv.at(backIndex(k)))); }
        if (a != b || a != c || v.empty() != (v.size() == 0)) { return json{{"q", json::array({a, b, c})}, {"v", x}}; }
        return json{{"q", a}, {"v", x}};
    }
    template <typename F> auto pos(json const& p, F f) {
        return p["b"].get<bool>() ? f(backIndex(p["v"].get<int>())) : f(p["v"].get<int>());
    }
    template <typename F> json guard(F f) {
        try { return res(f()); } catch (hstd::range_error const&) { return res("err"); }
    }
    json op(json const& o) {
        std::string k = o["op"];
        V const&    cv = v;
        auto x = [&] { return C::in(o["x"].get<int>()); };
        return guard([&]() -> json {
            if (k == "push") { v.push_back(x()); return "ok"; }
            if (k == "pushidx") { return v.push_back_idx(x()); }
            if (k == "pop") { v.pop_back(); return "ok"; }
            if (k == "popv") { return C::out(v.pop_back_v()); }
            if (k == "back") { return C::out(cv.back()); }
            if (k == "at") { return pos(o["p"], [&](auto p) -> json { return C::out(v.at(p)); }); }
            if (k == "cat") { return pos(o["p"], [&](auto p) -> json { return C::out(cv.at(p)); }); }
            if (k == "index") { return pos(o["p"], [&](auto p) -> json { return C::out(v[p]); }); }
            if (k == "get") { return pos(o["p"], [&](auto p) -> json { auto r = v.get(p); if (!r) { return "err"; } return C::out(r->get()); }); }
            if (k == "cget") { return pos(o["p"], [&](auto p) -> json { auto r = cv.get(p); if (!r) { return "err"; } return C::out(r->get()); }); }
            if (k == "copy") { return pos(o["p"], [&](auto p) -> json { auto r = cv.get_copy(p); if (!r) { return "err"; } return C::out(*r); }); }
            if (k == "has") { return pos(o["p"], [&](auto p) -> json { return cv.has(p); }); }
            if (k == "ator") { T fb = x(); return pos(o["p"], [&](auto p) -> json { return C::out(cv.at_or(p, fb)); }); }
            if (k == "set") { return pos(o["p"], [&](auto p) -> json { v.at(p) = x(); return "ok"; }); }
            if (k == "insert") {
                if constexpr (requires { v.insert(1, T{}); }) { v.insert(o["k"].get<int>(), x()); }
                else { v.insert(v.begin() + o["k"].get<int>(), x()); }
                return "ok";
            }
            if (k == "resizeat") { v.resize_at(o["k"].get<int>()) = x(); if (C::out(v.at(o["k"].get<int>())) != o["x"]) { return "lost"; }
                return "ok"; }
            if (k == "resizeatv") { v.resize_at(o["k"].get<int>(), x()); return "ok"; }
            if (k == "append") { v.append(vec(o["l"])); return "ok"; }
            if (k == "appendspan") { V t = vec(o["l"]); std::span<T> sp(t.data(), (std::size_t)t.size()); v.append(sp); return "ok"; }
            if (k == "plus") { V t = vec(o["l"]); std::span<T> sp(t.data(), (std::size_t)t.size());
                json a = list(cv + t), b = list(cv + sp); return a == b ? a : json::array({a, b}); }
            if (k == "plusone") { return list(cv + x()); }
            if (k == "slice" || k == "fill") {
                return pos(o["a"], [&](auto a) -> json {
                    return pos(o["z"], [&](auto z) -> json {
                        HSlice<decltype(a), decltype(z)> h{a, z};
                        if (k == "fill") { for (auto& y : v.at(h)) { y = x(); } return "ok"; }
                        json r = list(v.at(h)), c = list(cv.at(h)), b = list(v[h]);
                        return r == c && r == b ? r : json::array({r, c, b});
                    });
                });
            }
            if (k == "indexof") { return cv.indexOf(x()); }
            if (k == "contains") { return cv.contains(x()); }
            if (k == "less") {
                V t = vec(o["l"]);
                return json{{"lt", cv < t}, {"gt", t < cv}, {"eq", cv == t}, {"hash", cv == t ? std::hash<V>{}(cv) == std::hash<V>{}(t) : false}};
            }
            if (k == "high") { return cv.high(); }
            if (k == "clear") { v.clear(); return "ok"; }
            if (k == "enum") { json r = json::array(); for (auto const& [i, y] : enumerate(cv)) { r.push_back(json::array({i, C::out(y)})); } return r; }
            if (k == "adapter") {
                SequentialContainerAdapter<V> ad(&v);
                ad.begin_insert();
                for (auto const& y : vec(o["l"])) { ad.add(y); }
                ad.end_insert();
                json r = json::array();
                for (auto it = ad.begin(); it != ad.end(); ++it) { r.push_back(C::out(*it)); }
                return ad.size() == v.size() ? r : json("size");
            }
            // the remaining operations exist for Vec only
            Vec<T> w;
            for (auto const& y : v) { w.push_back(y); }
            Vec<T> const& cw = w;
            if (k == "splice") {
                Vec<T> t;
                for (auto const& y : o["l"]) { t.push_back(C::in(y.get<int>())); }
                json a = list(Vec<T>::Splice(x(), cw, std::as_const(t), x())), b = list(as_vec(x(), Vec<T>(cw), t.toSpan(), x()));
                return a == b ? a : json::array({a, b});
            }
            if (k == "reverse") { hstd::reverse(w); V n; for (auto const& y : w) { n.push_back(y); } v = n; return "ok"; }
            if (k == "reversed") { return list(hstd::reversed(cw)); }
            if (k == "sorted") { auto r = hstd::map(hstd::sorted(hstd::map(cw, [](T const& y) { return C::out(y); })), [](int y) { return C::in(y); }); return list(r); }
            if (k == "sortedby") { return list(hstd::sortedBy(cw, [](T const& y) { return -C::out(y); })); }
            if (k == "sortedcmp") { return list(hstd::sorted(cw, [](T const& a, T const& b) { return C::out(b) < C::out(a); })); }
            if (k == "map") { return json(hstd::map(cw, [](T const& y) { return 2 * C::out(y) + 1; })); }
            if (k == "partition") {
                int  m = o["m"];
                json r = json::array();
                for (auto const& s : hstd::partition<T, int>(cw, [m](T const& y) { return C::out(y) % m; })) { r.push_back(list(s)); }
                return r;
            }
            if (k == "cart") {
                Vec<T> t;
                for (auto const& y : o["l"]) { t.push_back(C::in(y.get<int>())); }
                json r = json::array();
                for (auto const& [a, b] : hstd::carthesian(cw, t)) { r.push_back(json::array({C::out(*a), C::out(*b)})); }
                return r;
            }
            if (k == "windows") {
                json r = json::array();
                auto ints = hstd::map(cw, [](T const& y) { return C::out(y); });
                if (o["k"] == 2) { for (auto const& [a, b] : ints | rv_sliding_tuple2) { r.push_back(json::array({a, b})); } }
                if (o["k"] == 3) { for (auto const& [a, b, c] : ints | rv_sliding_tuple3) { r.push_back(json::array({a, b, c})); } }
                if (o["k"] == 4) { for (auto const& [a, b, c, d] : ints | rv_sliding_tuple4) { r.push_back(json::array({a, b, c, d})); } }
                return r;
            }
            throw std::logic_error("unknown op " + k);
        });
    }
};

struct S {
    int                                    kind = 0;
    M<Vec<int>, int>                       a;
    M<SmallVec<int, 2>, int>               b;
    M<Vec<std::string>, std::string>       c;
    M<SmallVec<std::string, 2>, std::string> d;
    void start(json const& sc) { kind = sc.value("cfg", 0); }
    json op(json const& o) {
        std::string k = o["op"];
        if (k == "spanmove") {
            int      tot = o["tot"];
            Vec<int> data;
            for (int i = 0; i < tot; ++i) { data.push_back(i); }
            Span<int> sp(data.data() + o["sp"]["f"].get<int>(), o["sp"]["n"].get<int>());
            if (o["w"] == "start") { sp.moveStart(o["k"], &data.back(), o["fix"]); } else { sp.moveEnd(o["k"], &data.back(), o["fix"]); }
            json r = json::array();
            for (int i = 0; i < sp.size(); ++i) { r.push_back(sp[i]); }
            if (sp.hasData() != (0 < sp.size()) || sp.empty() != (sp.size() == 0)) { r = "inconsistent"; }
            for (int i = 1; i <= sp.size(); ++i) { if (sp[backIndex(i)] != sp.at(sp.size() - i) || !sp.has(backIndex(i)) || sp.get(backIndex(i))->get() != sp.at(sp.index(backIndex(i)))) { r = "backwards"; } }
            if (sp.has(sp.size()) || sp.has(-1) || sp.get(sp.size()).has_value()) { r = "bounds"; }
            return json{{"v", r}};
        }
        if (k == "sl") {
            auto s = slice<int>(o["a"]["f"].get<int>(), o["a"]["l"].get<int>()), t = slice<int>(o["b"]["f"].get<int>(), o["b"]["l"].get<int>());
            int  x = o["x"];
            auto e = s;
            e.expand(x);
            auto n  = Slice<int>(s).narrow(t);
            auto ex = s.expanded(t);
            auto ov = s.overlap(t);
            json items = json::array();
            for (int y : s) { items.push_back(y); }
            return json{{"v", {{"contains", s.contains(x)}, {"inner", s.contains(t)}, {"point", s.isPoint()}, {"before", s.isBefore(x)}, {"after", s.isAfter(x)},
                               {"narrow", json::array({n.first, n.last})}, {"expand", json::array({e.first, e.last})}, {"expanded", json::array({ex.first, ex.last})},
                               {"overlap", ov ? json::array({ov->first, ov->last}) : json::array()}, {"items", items}}}};
        }
        if (k == "bi") {
            BackwardsIndex p = backIndex(o["a"]), q = backIndex(o["b"]);
            return json{{"v", {{"lt", p < q}, {"le", p <= q}, {"gt", p > q}, {"ge", p >= q}, {"eq", p == q}, {"ne", p != q}}}};
        }
        if (kind == 0) { return a.op(o); }
        if (kind == 1) { return b.op(o); }
        if (kind == 2) { return c.op(o); }
        return d.op(o);
    }
};
VH_MAIN(S)
