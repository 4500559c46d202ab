// Identifiers and value stores.
#include "vh.hpp"
#include <hstd/stdlib/dod_base.hpp>
#include <hstd/stdlib/dod_base_multi.hpp>
#include <hstd/stdlib/strutils.hpp>
using vh::json;
using namespace hstd;

struct IdA;
struct ValA { using id_type = IdA; int x; std::string pad = std::string(40, 'a'); };
DECL_ID_TYPE_MASKED(ValA, IdA, u8, 2);
struct IdB;
struct ValB { using id_type = IdB; int x; bool operator==(ValB const& o) const { return x == o.x; } };
template <> struct std::hash<ValB> { std::size_t operator()(ValB const& v) const { return v.x % 2; } };
DECL_ID_TYPE_MASKED(ValB, IdB, u64, 16);
DECL_ID_TYPE(ValC, IdC, u8);
DECL_ID_TYPE(ValD, IdD, u64);
DECL_ID_TYPE_MASKED(ValE, IdE, u16, 4);

template <typename I> I mk(int index, int mask) {
    I r = index < 0 ? I::Nil() : I(typename I::id_base_type(index));
    r.setMask(mask);
    return r;
}
template <typename I> json pr(I id) { return json::array({(long)id.getUnmasked(), (long)id.getMask()}); }
template <typename I> json idop(json const& o) {
    using B = typename I::id_base_type;
    auto make = [](long u, long m) { I r = I::FromValue(B(u)); if (m) { r.setMask(m); } return r; };
    I           id = make(o["u"], o["m"]);
    std::string k  = o["op"];
    if (k == "inc") { auto r = ++id; return json::array({pr(r), pr(id)}); }
    if (k == "dec") { auto r = --id; return json::array({pr(r), pr(id)}); }
    if (k == "posti") { auto r = id++; return json::array({pr(r), pr(id)}); }
    if (k == "postd") { auto r = id--; return json::array({pr(r), pr(id)}); }
    if (k == "add") { return pr(id + o["k"].get<int>()); }
    if (k == "mask") { try { id.setMask(o["k"].get<int>()); } catch (std::logic_error const&) { return pr(id) == json::array({o["u"], o["m"]}) ? "err" : "spoiled"; } return pr(id); }
    if (k == "base") { id.setUnmasked(B(o["k"].get<int>())); return pr(id); }
    if (k == "cmp") {
        I z = make(o["u2"], o["m2"]);
        if ((id == z) && std::hash<I>{}(id) != std::hash<I>{}(z)) { return "hash"; }
        return json{{"lt", id < z}, {"le", id <= z}, {"eq", id == z}, {"ne", id != z}, {"dist", (long)dod::distance(id, z)}};
    }
    if (k == "facts") {
        long ix = -1;
        try { ix = (long)id.getIndex(); } catch (hstd::range_error const&) {}
        return json{{"nil", id.isNil()}, {"index", ix}, {"mask", (long)id.getMask()}, {"text", id.format(dod::FormatConfig{.name = "", .mask_format = ' '})}};
    }
    throw std::logic_error(k);
}

struct S {
    using MS = dod::MultiStore<dod::Store<IdA, ValA>, dod::InternStore<IdB, ValB>>;
    MS   ms;
    json res(json v) {
        json a = json::array(), b = json::array();
        bool ok = true;
        auto& sa = ms.store<ValA>();
        auto& sb = ms.store<ValB>();
        int  n = 0;
        for (auto const& [id, p] : sa.pairs()) { ok = ok && id.getIndex() == n++ && &sa.at(id) == p && ms.at(id).x == p->x && sa.atIndex(n - 1).x == p->x; a.push_back(p->x); }
        for (auto const& [id, p] : sb.pairs()) { ok = ok && &sb.at(id) == p && sb.contains(*p) && sb.add(*p).getIndex() == id.getIndex(); b.push_back(p->x); }
        json i2 = json::array(), i3 = json::array();
        for (auto const& p : sa.items()) { i2.push_back(p->x); }
        for (auto const& p : sb.items()) { i3.push_back(p->x); }
        ok = ok && i2 == a && i3 == b && sa.empty() == a.empty() && sb.empty() == b.empty();
        return json{{"v", v}, {"a", a}, {"b", b}, {"na", sa.size()}, {"nb", sb.size()}, {"ok", ok}};
    }
    json op(json const& o) {
        std::string k = o["op"];
        if (o.contains("u")) {
            std::string t = o["t"];
            json        v;
            if (t == "a") { v = idop<IdA>(o); }
            if (t == "b") { v = idop<IdB>(o); }
            if (t == "c") { v = idop<IdC>(o); }
            if (t == "d") { v = idop<IdD>(o); }
            if (t == "e") { v = idop<IdE>(o); }
            return json{{"v", v}};
        }
        auto& sa = ms.store<ValA>();
        auto& sb = ms.store<ValB>();
        auto x = [&] { return o["x"].get<int>(); };
        auto rd = [&](auto id) { return json::array({(long)id.getIndex(), (long)id.getMask()}); };
        try {
            if (k == "adda") {
                ValA v{x()};
                if (o["m"] == 0) { return res(rd(ms.add(v))); }
                return res(rd(sa.add(v, o["m"].get<int>())));
            }
            if (k == "addb") { if (o["m"] == 0) { return res(rd(ms.add(ValB{x()}))); } return res(rd(sb.add(ValB{x()}, o["m"].get<int>()))); }
            if (k == "ata") { return res(ms.at(mk<IdA>(o["i"], o["m"])).x); }
            if (k == "atb") { return res(std::as_const(sb).at(mk<IdB>(o["i"], o["m"])).x); }
            if (k == "hasa") { return res(sa.contains(mk<IdA>(o["i"], o["m"]))); }
            if (k == "hasb") { return res(sb.contains(ValB{x()})); }
            if (k == "seta") { sa.at(mk<IdA>(o["i"], 1)).x = x(); return res("ok"); }
            if (k == "insa") { ms.insert(mk<IdA>(o["i"], o["m"]), ValA{x()}); return res("ok"); }
            if (k == "insb") { ms.insert(mk<IdB>(o["i"], o["m"]), ValB{x()}); return res("ok"); }
            if (k == "ends") { auto b = sa.back(), h = sa.high(); return res(json::array({(long)b.getUnmasked() - 1, (long)h.getUnmasked() - 1})); }
            if (k == "slicea") {
                HSlice<IdA, IdA> sl{mk<IdA>(o["i"], 1), mk<IdA>(o["j"], 1)};
                json r = json::array();
                for (auto const& v : sa.at(sl)) { r.push_back(v.x); }
                return res(r);
            }
        } catch (std::exception const& e) { return res("err"); }
        throw std::logic_error(k);
    }
};
VH_MAIN(S)
