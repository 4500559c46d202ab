// Generators, early-exit result chains, checked predicates and pointers.
#include "vh.hpp"
#include <hstd/stdlib/Exception.hpp>
#include <hstd/stdlib/Func.hpp>
#include <hstd/stdlib/Outcome.hpp>
#include <hstd/system/generator.hpp>
#include <memory>
#include <optional>
using vh::json;

static std::vector<int> log_;
struct Guard {
    Guard() { log_.push_back(0); }
    ~Guard() { log_.push_back(-1); }
};
struct Val { // not default constructible
    int v;
    explicit Val(int x) : v(x) {}
};
hstd::generator<Val> body(json p) {
    Guard g;
    for (auto const& x : p) {
        std::string k = x["k"];
        if (k == "y") { co_yield Val(x["v"].get<int>()); }
        else if (k == "e") { log_.push_back(x["v"].get<int>()); }
        else { throw std::runtime_error("boom"); }
    }
}

using R = hstd::Result<int, std::string>;
struct Obj {
    bool on;
    int  v;
    bool        isA() const { return on; }
    int         getA() const { return v; }
    std::string sub_variant_get_kind() const { return "other"; }
};
static std::vector<int> ev;
static std::optional<int> opt(json const& x, int i) {
    ev.push_back(i);
    return x["on"].get<bool>() ? std::optional<int>{x["v"].get<int>()} : std::nullopt;
}
static R chain(json const& c, std::size_t i, int sum) {
    if (i >= c.size()) { return sum; }
    json const& x = c[i];
    std::string k = x["k"], m = "step " + std::to_string(i + 1);
    if (k == "opt") {
        BOOST_OUTCOME_TRY_OPTIONAL(v, opt(x, i + 1), m);
        return chain(c, i + 1, sum + v);
    } else if (k == "get") {
        ev.push_back(i + 1);
        Obj o{x["on"], x["v"]};
        BOOST_OUTCOME_TRY_VALIDATE_GET(v, o, isA, getA, m);
        return chain(c, i + 1, sum + v);
    } else if (k == "dir") {
        ev.push_back(i + 1);
        Obj o{x["on"], x["v"]};
        BOOST_OUTCOME_TRY_VALIDATE_GET_DIRECT(v, o, isA, getA, m);
        return chain(c, i + 1, sum + v);
    } else {
        ev.push_back(i + 1);
        auto f = [&]() -> R {
            Obj o{x["on"], x["v"]};
            BOOST_OUTCOME_TRY_SUB_VARIANT(v, o, A);
            return v;
        };
        R r = f();
        if (!r) {
            if (r.error() != "Expected sub variant 'A' but got 'other'") { return hstd::outcome::failure(r.error()); }
            return hstd::outcome::failure(m);
        }
        return chain(c, i + 1, sum + r.value());
    }
}
static int err_line = 0;
static hstd::described_predicate_result pr(bool on, std::string const& t) {
    if (on) { return true; }
    auto e   = hstd::described_predicate_error::init(t);
    err_line = e.line;
    if (std::string(e.function) != "pr") { err_line = -1; }
    return e;
}
struct Base { virtual ~Base() = default; };
struct D1 : Base { int x = 1; int get() const { return x; } bool yes() const { return x == 1; } };
struct D2 : Base {};
template <typename F> bool passes(F f) {
    try { f(); } catch (hstd::logic_assertion_error const&) { return false; }
    return true;
}

struct S {
    std::optional<hstd::generator<Val>>           g[3];
    std::optional<hstd::generator<Val>::iterator> it[3];
    json take(json v) {
        json l = log_;
        log_.clear();
        return json{{"log", l}, {"v", v}};
    }
    json op(json const& o) {
        std::string k = o["op"];
        log_.clear();
        if (k == "chain") {
            ev.clear();
            R    r = chain(o["c"], 0, 0);
            json v{{"ok", r.has_value()}, {"v", r.has_value() ? r.value() : 0}, {"ev", ev}, {"at", 0}};
            if (!r) { v["at"] = r.error().starts_with("step ") ? std::stoi(r.error().substr(5)) : -1; }
            return json{{"v", v}};
        }
        if (k == "pred") {
            bool        on = o["on"];
            std::string t  = vh::text(o["t"]);
            try {
                LOGIC_ASSERTION_CHECK_DESCRIBED(pr(on, t));
            } catch (hstd::logic_assertion_error const& e) {
                return json{{"v", {{"ok", false}, {"same", e.msg == "pr(on, t): " + t && e.line == err_line}}}};
            }
            return json{{"v", {{"ok", true}, {"same", true}}}};
        }
        if (k == "live") {
            bool        on = o["on"];
            std::string w  = o["w"];
            D1          d1;
            D2          d2;
            Base*       b  = on ? (Base*)&d1 : (Base*)&d2;
            auto        sp = on ? std::make_shared<D1>() : std::shared_ptr<D1>();
            std::shared_ptr<Base> sb = on ? std::shared_ptr<Base>(std::make_shared<D1>()) : std::shared_ptr<Base>(std::make_shared<D2>());
            std::weak_ptr<D1> wp;
            auto keep = std::make_shared<D1>();
            wp        = keep;
            if (!on) { keep.reset(); }
            bool v;
            if (w == "raw") { v = passes([&] { hstd::logic_assertion_check_not_nil((D1 const*)(on ? &d1 : nullptr)); }); }
            else if (w == "unique") { v = passes([&] { hstd::logic_assertion_check_not_nil(on ? std::make_unique<D1>() : nullptr); }); }
            else if (w == "shared") { v = passes([&] { hstd::logic_assertion_check_not_nil(sp); }); }
            else if (w == "weak") { v = passes([&] { hstd::logic_assertion_check_not_nil(wp); }); }
            else if (w == "lock") { v = passes([&] { if (hstd::safe_wptr_lock(wp) != keep) { std::abort(); } }); }
            else if (w == "cast") { v = passes([&] { if (hstd::validated_dynamic_cast<D1>(b) != &d1) { std::abort(); } }); }
            else if (w == "ccast") { v = passes([&] { if (hstd::validated_dynamic_cast<D1>((Base const*)b) != &d1) { std::abort(); } }); }
            else if (w == "scast") { v = passes([&] { if (hstd::validated_dynamic_cast<D1>(sb) != sb) { std::abort(); } }); }
            else if (w == "noexc") { v = hstd::no_exception([&] { if (!on) { throw 1; } }); }
            else if (w == "check") { v = passes([&] { LOGIC_ASSERTION_CHECK(on, "m"); }); }
            else if (w == "checkfmt") { v = passes([&] { LOGIC_ASSERTION_CHECK_FMT(on, "m {}", 1); }); }
            else if (w == "filter") { d1.x = on ? 1 : 0; v = hstd::get_method_filter(&D1::yes)(d1); }
            else if (w == "field") { d1.x = on ? 12 : 13; v = hstd::get_field_get(&D1::x)(d1) == 12; }
            else { d1.x = on ? 12 : 13; v = hstd::get_getter_get(&D1::get)(d1) == 12; }
            return json{{"v", v}};
        }
        if (k == "msg") {
            std::string m = vh::text(o["m"]), f = vh::text(o["f"]), fn = vh::text(o["fn"]);
            int         l = std::stoi(vh::text(o["l"]));
            std::string r;
            try {
                if (o["w"] == "init") { throw hstd::key_error::init(m, l, fn.c_str(), f.c_str()); }
                auto e = hstd::range_error::init("first", 1, "a", "b");
                throw e.add_context(m, l, fn.c_str(), f.c_str());
            } catch (hstd::key_error const& e) {
                char const* c = e.get_fmt_message();
                r             = c;
                free((void*)c);
            } catch (hstd::range_error const& e) {
                char const* c = e.get_fmt_message();
                r             = c;
                free((void*)c);
            }
            return json{{"v", vh::bytes(r)}};
        }
        int i = o["i"];
        if (k == "new") { g[i].emplace(body(o["p"])); return take("ok"); }
        if (k == "move") { g[3 - i].emplace(std::move(*g[i])); g[i].reset(); it[3 - i] = it[i]; it[i].reset(); return take("ok"); }
        if (k == "drop") { it[i].reset(); g[i].reset(); return take("ok"); }
        if (k == "deref") { return take((i == 1 ? (*std::as_const(*it[i])) : **it[i]).v); }
        if (k == "set") { (**it[i]).v = o["v"]; return take("ok"); }
        if (k == "isend") {
            bool e = *it[i] == g[i]->end();
            if (e == (*it[i] != g[i]->end())) { return take("differ"); }
            return take(e);
        }
        try {
            if (k == "begin") { it[i].emplace(g[i]->begin()); } else { ++*it[i]; }
        } catch (std::runtime_error const&) { return take("err"); }
        return take("ok");
    }
};
VH_MAIN(S)
