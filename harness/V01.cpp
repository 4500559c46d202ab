// DynVariant: two families of tagged variants (macro defined and hand written).
#include "vh.hpp"
#include <hstd/stdlib/DynVariant.hpp>
#include <map>
using vh::json;

static int alive = 0;
struct Pad {
    virtual ~Pad() = default;
    long pad[3]{1, 2, 3};
};

namespace fam1 {
struct Base {
    DEFINE_DYN_VARIANT_BASE_TYPE_BODY(Base, Kind, getKind, A, B, C, D);
    Base() { ++alive; }
    Base(Base const& o) : v(o.v) { ++alive; }
    int v = 0;
};
struct BaseCounted : Base {
    ~BaseCounted() override { --alive; }
};
struct A : BaseCounted {
    A() = default;
    A(int x) { v = x; }
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(A, Kind, getKind);
    int own = 100;
};
struct B : Pad, BaseCounted { // base subobject at an offset
    B() = default;
    B(int x) { v = x; }
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(B, Kind, getKind);
    int own = 101;
};
struct C : BaseCounted {
    C() = default;
    C(int x) { v = x; }
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(C, Kind, getKind);
    std::string filler = "c";
    int         own    = 102;
};
struct D : Pad, BaseCounted {
    D() = default;
    D(int x) { v = x; }
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(D, Kind, getKind);
    int own = 103;
};
DEFINE_DYN_VARIANT_TAG(Tag, Base, Base::Kind, ptr->getKind(), A, B, C, D);
} // namespace fam1

namespace fam2 {
enum class K { One, Two, Three, Four };
struct Base {
    K   k;
    int v = 0;
    Base(K k) : k(k) { ++alive; }
    Base(Base const& o) : k(o.k), v(o.v) { ++alive; }
    virtual ~Base() { --alive; }
};
template <K kk, int o>
struct Alt : Base {
    static constexpr K staticKind = kk;
    int                own        = o;
    Alt() : Base(kk) {}
    Alt(int x) : Base(kk) { v = x; }
};
// Three is an ordinary C++ subclass of Two's class but a different alternative
struct One : Alt<K::One, 100> { using Alt::Alt; };
struct Two : Base {
    static constexpr K staticKind = K::Two;
    int                own        = 101;
    Two() : Base(K::Two) {}
    Two(int x) : Base(K::Two) { v = x; }
    Two(K k, int x) : Base(k) { v = x; }
};
struct Three : Two {
    static constexpr K staticKind = K::Three;
    Three() : Two(K::Three, 0) { own = 102; }
    Three(int x) : Two(K::Three, x) { own = 102; }
};
struct Four : Pad, Alt<K::Four, 103> { using Alt::Alt; };
struct Tag {
    using base_class                = Base;
    using kind_type                 = K;
    using types                     = std::tuple<One, Two, Three, Four>;
    using type_list                 = hstd::type_list_t<One, Two, Three, Four>;
    static constexpr int type_count = 4;
    static K             get_kind(Base const* p) { return p->k; }
};
} // namespace fam2

template <typename Tag>
struct Family {
    using V  = hstd::dyn_variant<Tag>;
    using Bs = typename Tag::base_class;
    template <int I>
    using T = std::tuple_element_t<I, typename Tag::types>;
    V                 slot[4];
    std::map<Bs*, int> ident; // not used for judging, only for labelling

    template <typename F>
    static auto pick(int k, F f) {
        switch (k) {
            case 0: return f.template operator()<T<0>>();
            case 1: return f.template operator()<T<1>>();
            case 2: return f.template operator()<T<2>>();
            default: return f.template operator()<T<3>>();
        }
    }

    static json seen(json r) { return r; }

    json dump_slot(V& v, int me) {
        V const& cv = v;
        json     r  = json::object();
        r["full"]   = (bool)v;
        r["vbe"]    = v.valueless_by_exception();
        r["null"]   = v.get() == nullptr;
        r["kind"]   = v.data ? (int)v.kind() : -1;
        r["index"]  = v.data ? v.index() : -1;
        // which slots refer to the same object
        json same = json::array();
        for (int i = 0; i < 4; ++i) { same.push_back(slot[i].get() == v.get()); }
        r["same"] = same;
        json alts = json::array();
        for (int k = 0; k < 4; ++k) {
            alts.push_back(pick(k, [&]<typename X>() -> json {
                json a = json::object();
                auto p1 = v.template get_if<X>();
                auto p2 = hstd::get_if<X>(&v);
                auto p3 = hstd::get_if<X>(&cv);
                a["member"] = p1 ? p1->own * 10 + p1->v : -1;
                a["free"]   = p2 ? p2->own * 10 + p2->v : -1;
                a["cfree"]  = p3 ? p3->own * 10 + p3->v : -1;
                a["holds"]  = hstd::holds_alternative<X>(v);
                a["nul"]    = hstd::get_if<X>((V*)nullptr) == nullptr
                        && hstd::get_if<X>((V const*)nullptr) == nullptr;
                try {
                    X& x     = hstd::get<X>(v);
                    a["get"] = x.own * 10 + x.v;
                } catch (std::bad_variant_access const&) { a["get"] = -1; }
                try {
                    X const& x = hstd::get<X>(cv);
                    a["cget"]  = x.own * 10 + x.v;
                } catch (std::bad_variant_access const&) { a["cget"] = -1; }
                return a;
            }));
        }
        r["alts"]   = alts;
        int  calls  = 0;
        int  vkind  = -1, vval = -1;
        bool thrown = false, sameobj = false;
        int  ret    = -1;
        try {
            ret = hstd::dyn_visit(
                [&](auto const& p) -> int {
                    ++calls;
                    using X = typename std::remove_cvref_t<decltype(p)>::element_type;
                    vkind   = (int)X::staticKind;
                    if (p) {
                        vval    = p->own * 10 + p->v;
                        sameobj = static_cast<Bs*>(p.get()) == v.get();
                    }
                    return 7 + vkind;
                },
                cv);
        } catch (std::bad_variant_access const&) { thrown = true; }
        r["visit"] = json{
            {"calls", calls}, {"kind", vkind}, {"val", vval}, {"thrown", thrown}, {"ret", ret}, {"sameobj", sameobj}};
        return r;
    }

    json dump() {
        json r     = json::object();
        r["alive"] = alive;
        json s     = json::array();
        for (int i = 0; i < 3; ++i) { s.push_back(dump_slot(slot[i], i)); }
        r["slots"] = s;
        return r;
    }

    json op(json const& o) {
        std::string n   = o["op"];
        bool        ret = true;
        if (n == "make") {
            int s = o["s"], k = o["k"], v = o["v"];
            pick(k, [&]<typename X>() { slot[s] = V::template make<X>(v); return 0; });
        } else if (n == "wrap") { // from an existing shared_ptr
            int s = o["s"], k = o["k"], v = o["v"];
            pick(k, [&]<typename X>() { slot[s] = V{std::make_shared<X>(v)}; return 0; });
        } else if (n == "fromidx") { // default value of the k-th alternative
            slot[o["s"].get<int>()] = hstd::from_index(Tag{}, o["k"].get<int>());
        } else if (n == "fromfac") {
            int v                   = o["v"];
            slot[o["s"].get<int>()] = hstd::from_index(
                Tag{}, o["k"].get<int>(), [v]<typename X>() { return X(v); });
        } else if (n == "clear") {
            slot[o["s"].get<int>()] = V{};
        } else if (n == "copy") {
            slot[o["d"].get<int>()] = slot[o["s"].get<int>()];
        } else if (n == "clone") { // copy construct, then move in
            V tmp{slot[o["s"].get<int>()]};
            slot[o["d"].get<int>()] = std::move(tmp);
        } else if (n == "move") {
            slot[o["d"].get<int>()] = std::move(slot[o["s"].get<int>()]);
        } else if (n == "swap") {
            std::swap(slot[o["d"].get<int>()], slot[o["s"].get<int>()]);
        } else if (n == "set") { // write through typed access
            int s = o["s"], k = o["k"], v = o["v"];
            pick(k, [&]<typename X>() {
                if (auto p = hstd::get_if<X>(&slot[s])) { p->v = v; } else { ret = false; }
                return 0;
            });
        } else if (n == "visitset") {
            int s = o["s"], v = o["v"];
            try {
                hstd::dyn_visit([&](auto const& p) { p->v = v; }, slot[s]);
            } catch (std::bad_variant_access const&) { ret = false; }
        } else { std::abort(); }
        json r   = dump();
        r["ret"] = ret;
        return r;
    }
    ~Family() {}
};

struct S {
    std::unique_ptr<Family<fam1::Tag>> a;
    std::unique_ptr<Family<fam2::Tag>> b;
    void start(json const& sc) {
        alive = 0;
        if (sc.contains("cfg") && sc["cfg"] == 2) {
            b = std::make_unique<Family<fam2::Tag>>();
        } else {
            a = std::make_unique<Family<fam1::Tag>>();
        }
    }
    json op(json const& o) { return a ? a->op(o) : b->op(o); }
};
VH_MAIN(S)
