// Enumeration views over several container types.
#include "vh.hpp"
#include <deque>
#include <hstd/stdlib/Enumerate.hpp>
#include <list>
#include <memory>
#include <string>
#include <vector>
using vh::json;

struct Runner {
    virtual json op(json const& o) = 0;
    virtual ~Runner()              = default;
};

template <typename C, bool random>
struct Over : Runner {
    C data;
    using E = decltype(hstd::enumerator(std::declval<C const&>()));
    std::unique_ptr<E>                                  e;
    std::unique_ptr<typename E::enumerate_iterator>     it;

    Over(json const& o) {
        int n = o["n"], a = o["a"], b = o["b"];
        for (int i = 0; i < n; ++i) { data.push_back((typename C::value_type)(10 + i * 3)); }
        std::string how = o["how"];
        auto        base = hstd::enumerator(std::as_const(data));
        if (how == "plain") {
            if (a) { base.skip_first(a); }
            if (b) { base.skip_last(b); }
            e = std::make_unique<E>(base);
        } else if (how == "fl") {
            e = std::make_unique<E>(base.skip_first(a).skip_last(b));
        } else {
            e = std::make_unique<E>(base.skip_last(b).skip_first(a));
        }
        it = std::make_unique<typename E::enumerate_iterator>(e->begin());
    }
    template <typename I>
    static json item(I& n) {
        json r = json{
            {"index", n.index()},
            {"base", n.base_index()},
            {"size", n.size()},
            {"first", n.is_first()},
            {"last", n.is_last()},
            {"value", (int)n.value()}};
        json p = json::array(), x = json::array();
        if constexpr (random) {
            for (int k = 0; k <= 6; ++k) {
                try {
                    p.push_back((int)n.prev(k));
                } catch (std::domain_error const&) { p.push_back(-1); }
                try {
                    x.push_back((int)n.next(k));
                } catch (std::domain_error const&) { x.push_back(-1); }
            }
            try {
                r["p"] = (int)n.prev();
            } catch (std::domain_error const&) { r["p"] = -1; }
            try {
                r["x"] = (int)n.next();
            } catch (std::domain_error const&) { r["x"] = -1; }
        }
        r["prev"] = p;
        r["next"] = x;
        return r;
    }
    json op(json const& o) override {
        std::string n = o["op"];
        if (n == "cur") {
            auto const c = **it;
            auto       m = **it;
            return json{{"c", item(c)}, {"m", item(m)}};
        } else if (n == "more") {
            return json{{"v", (*it != e->end())}};
        } else if (n == "step") {
            auto& r = ++*it;
            return json{{"v", &r == it.get()}};
        } else if (n == "restart") {
            it = std::make_unique<typename E::enumerate_iterator>(e->begin());
            return json{{"v", true}};
        } else if (n == "all") {
            json res = json::array();
            int  cap = 0;
            for (auto const& x : *e) {
                if (++cap > 50) { break; }
                res.push_back(item(x));
            }
            return json{{"v", res}, {"bsize", e->base_size()}};
        }
        std::abort();
    }
};

struct S {
    std::unique_ptr<Runner> r;
    json                    op(json const& o) {
        if (o["op"] == "open") {
            std::string c = o["c"];
            if (c == "vector") {
                r = std::make_unique<Over<std::vector<int>, true>>(o);
            } else if (c == "string") {
                r = std::make_unique<Over<std::string, true>>(o);
            } else if (c == "deque") {
                r = std::make_unique<Over<std::deque<long>, true>>(o);
            } else {
                r = std::make_unique<Over<std::list<int>, false>>(o);
            }
            return json{{"v", true}};
        }
        return r->op(o);
    }
};
VH_MAIN(S)
