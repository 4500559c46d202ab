// Scope-exit actions, shared handles, checked transfer of unique ownership.
#include "vh.hpp"
#include <functional>
#include <hstd/stdlib/Func.hpp>
#include <hstd/stdlib/Ptrs.hpp>
#include <stdexcept>
#include <vector>
using vh::json;

namespace prog {
static std::vector<int> log;
static int              cnt = 0;
enum Out { Fall, Ret };
static Out run(json const& body);

struct Big { int id; long filler[8]{}; };

static Out from(json const& body, size_t at) {
    if (at >= body.size()) { return Fall; }
    auto const& x = body[at];
    std::string k = x["k"];
    if (k == "guard") {
        int id = ++cnt;
        switch (id % 4) {
            case 0: {
                hstd::finally g{[id]() { log.push_back(200 + id); }};
                log.push_back(100 + id);
                return from(body, at + 1);
            }
            case 1: {
                hstd::finally_std g{[id]() { log.push_back(200 + id); }};
                log.push_back(100 + id);
                return from(body, at + 1);
            }
            case 2: {
                Big  b{id};
                auto g = hstd::finally_std::init([](Big const& v) { log.push_back(200 + v.id); }, b);
                b.id   = 50; // the captured value must not follow
                log.push_back(100 + id);
                return from(body, at + 1);
            }
            default: {
                auto              n = hstd::finally_std::nop();
                std::function<void()> f = [id]() { log.push_back(200 + id); };
                hstd::finally_std g{f};
                f = nullptr;
                log.push_back(100 + id);
                return from(body, at + 1);
            }
        }
    } else if (k == "ev") {
        log.push_back(1);
    } else if (k == "ret") {
        return Ret;
    } else if (k == "throw") {
        throw std::runtime_error("x");
    } else if (k == "scope") {
        if (run(x["b"]) == Ret) { return Ret; }
    } else if (k == "try") {
        try {
            if (run(x["b"]) == Ret) { return Ret; }
        } catch (std::runtime_error const&) { log.push_back(3); }
    } else if (k == "call") {
        run(x["b"]);
    } else if (k == "noexc") {
        bool r = hstd::no_exception([&]() { run(x["b"]); });
        log.push_back(r ? 4 : 5);
    } else { std::abort(); }
    return from(body, at + 1);
}
static Out run(json const& body) { return from(body, 0); }
} // namespace prog

static int alive = 0, ualive = 0, udead = 0;
struct Node : hstd::SharedPtrApi<Node> {
    int v = 0;
    Node(int x) : v(x) { ++alive; }
    Node(Node const& o) : hstd::SharedPtrApi<Node>(o), v(o.v) { ++alive; }
    ~Node() { --alive; }
};

struct Base {
    int v = 0;
    Base() { ++ualive; }
    virtual ~Base() { --ualive; ++udead; }
};
struct I1 { virtual ~I1() = default; long a = 1; virtual int get() = 0; };
struct D1 : virtual Base { long pad = 4; };
struct D2 : virtual Base { long pad = 5; };
struct D3 : D1, D2 {};
static void del_fn(Base* b) { delete b; }
struct DelState {
    int  id;
    DelState(int i = 0) : id(i) {}
    void operator()(Base* b) const { if (id != 7) { std::abort(); } delete b; }
};

template <typename Del>
struct U {
    std::unique_ptr<Base, Del> u;
    std::unique_ptr<D1, Del>   c1;
    std::unique_ptr<D2, Del>   c2;
};

struct S {
    std::shared_ptr<Node> h[3];
    std::weak_ptr<Node>   w[2];
    int                   mode = 0;
    U<std::default_delete<Base>> a;
    U<void (*)(Base*)>           b{{nullptr, del_fn}, {nullptr, del_fn}, {nullptr, del_fn}};
    U<DelState>                  c{{nullptr, DelState{7}}, {nullptr, DelState{7}}, {nullptr, DelState{7}}};

    void start(json const& sc) {
        alive = ualive = udead = 0;
        mode                   = sc["cfg"].get<int>();
    }
    template <typename X>
    static json ob(X const& p) {
        return json{{"full", p != nullptr}, {"v", p ? p->v : 0}};
    }
    template <typename UU>
    bool uop(UU& x, json const& o) {
        std::string n = o["op"];
        if (n == "newu") {
            std::string k = o["k"];
            Base*       p = k == "base" ? new Base() : k == "d1" ? new D1() : k == "d2" ? (Base*)new D2() : (Base*)new D3();
            p->v          = o["v"];
            x.u.reset(p);
            return true;
        } else if (n == "cast1") {
            x.c1 = hstd::dynamic_pointer_cast<D1>(std::move(x.u));
            return x.c1 != nullptr;
        } else if (n == "cast2") {
            x.c2 = hstd::dynamic_pointer_cast<D2>(std::move(x.u));
            return x.c2 != nullptr;
        } else if (n == "dropc") {
            x.c1.reset();
            x.c2.reset();
            return true;
        }
        std::abort();
    }
    json op(json const& o) {
        std::string n = o["op"];
        if (n == "prog") {
            prog::log.clear();
            prog::cnt = 0;
            int end   = 0;
            try {
                end = prog::run(o["b"]) == prog::Ret ? 11 : 10;
            } catch (std::runtime_error const&) { end = 12; }
            prog::log.push_back(end);
            return json{{"v", prog::log}};
        }
        bool ret = true;
        auto at  = [&](char const* f) { return o[f].get<int>(); };
        if (n == "shared") {
            h[at("s")] = Node::shared(at("v"));
        } else if (n == "copyh") {
            h[at("d")] = h[at("s")];
        } else if (n == "self") {
            if (h[at("s")]) { h[at("d")] = h[at("s")]->mshared_from_this(); } else { ret = false; }
        } else if (n == "cself") {
            if (h[at("s")]) {
                Node const& r = *h[at("s")];
                h[at("d")]    = r.mshared_from_this();
            } else { ret = false; }
        } else if (n == "clone") {
            if (h[at("s")]) { h[at("d")] = h[at("s")]->clone_this(); } else { ret = false; }
        } else if (n == "reset") {
            h[at("s")].reset();
        } else if (n == "set") {
            if (h[at("s")]) { h[at("s")]->v = at("v"); } else { ret = false; }
        } else if (n == "weak") {
            if (h[at("s")]) { w[at("d")] = h[at("s")]->mweak_from_this(); } else { ret = false; }
        } else if (n == "lock") {
            h[at("d")] = w[at("s")].lock();
        } else if (mode == 0) {
            ret = uop(a, o);
        } else if (mode == 1) {
            ret = uop(b, o);
        } else {
            ret = uop(c, o);
        }
        json r{{"ret", ret}, {"alive", alive}, {"ualive", ualive}, {"dead", udead}};
        json hs = json::array(), ws = json::array();
        for (auto& x : h) {
            json same = json::array();
            for (auto& y : h) { same.push_back(x == y); }
            hs.push_back(json{{"full", x != nullptr}, {"v", x ? x->v : -1}, {"uses", x.use_count()}, {"same", same}});
        }
        for (auto& x : w) { ws.push_back(json{{"expired", x.expired()}}); }
        r["h"]  = hs;
        r["w"]  = ws;
        auto put = [&](auto& x) { r["u"] = ob(x.u); r["c1"] = ob(x.c1); r["c2"] = ob(x.c2); };
        if (mode == 0) { put(a); } else if (mode == 1) { put(b); } else { put(c); }
        return r;
    }
};
VH_MAIN(S)
