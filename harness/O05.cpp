// Token cursors.
#include "vh.hpp"
#include <hstd/stdlib/Formatter.hpp>
#include <set>
#include <hstd/stdlib/SetFormatter.hpp>
#include <haxorg/lexbase/Lexer.hpp>
using vh::json;
using namespace org::parse;
enum class TK : hstd::u8 { T0, T1, T2, T3, T4 };
BOOST_DESCRIBE_ENUM(TK, T0, T1, T2, T3, T4);
template <> struct hstd::value_domain<TK> : public hstd::value_domain_ungapped<TK, TK::T0, TK::T4> {};
using Id = TokenId<TK, int>;
using Set = hstd::IntSet<TK>;

struct S {
    TokenGroup<TK, int>                   g;
    std::unique_ptr<LexerCommon<TK, int>> c;
    void start(json const& sc) {
        int n = 0;
        for (int k : sc["cfg"]["toks"]) { g.add(Token<TK, int>{(TK)k, ++n * 10}); }
        hstd::Vec<Id> sel;
        for (int k : sc["cfg"]["sel"]) { sel.push_back(Id{(hstd::u64)(k - 1)}); }
        if (sc["cfg"]["sub"].get<int>() == 1) {
            c = std::make_unique<SubLexer<TK, int>>(&g, sel);
        } else if (sc["cfg"]["sub"].get<int>() == 2) {
            Lexer<TK, int>    base{&g};
            SubLexer<TK, int> sub{base};
            for (auto const& x : sel) { sub.add(x); }
            sub.start();
            c = std::make_unique<SubLexer<TK, int>>(sub);
        } else {
            c = std::make_unique<Lexer<TK, int>>(&g);
        }
    }
    static int num(Id id) { return id.isNil() ? 0 : (int)id.getIndex() + 1; }
    json run(json const& o) {
        std::string k = o["op"];
        auto&       l = *c;
        auto set = [&](char const* f) { Set s; for (int x : o[f]) { s.incl((TK)x); } return s; };
        auto seq = [&](char const* f) { hstd::Vec<TK> s; for (int x : o[f]) { s.push_back((TK)x); } return s; };
        auto ids = [&](hstd::Vec<Id> const& v) { json r = json::array(); for (auto const& x : v) { r.push_back(num(x)); } return r; };
        TK  t = o.contains("k") ? (TK)o["k"].get<int>() : TK::T0;
        int n = o.contains("n") ? o["n"].get<int>() : 0;
        if (k == "next") { n == 1 ? l.next() : l.next(n); return "ok"; }
        if (k == "has") { return l.hasNext(n); }
        if (k == "get") {
            auto x = l.opt(n);
            if (!x) { return json::array(); }
            return json::array({(int)x->get().value / 10, (int)x->get().kind});
        }
        if (k == "tok") {
            // counting on from no position at all is not a request anybody may make
            if (l.finished() && n > 0) { return "err"; }
            auto const& cl = l;
            int a = (int)l.kind(n), b = (int)l.tok(n).kind, v = l.val(n), w = cl.val(n), q = num(l.get(n));
            return a == b && v == w && v == q * 10 ? json(a) : json("differs");
        }
        if (k == "at") { return l.at(t, n); }
        if (k == "atset") { return l.at(set("s"), n); }
        if (k == "atseq") { return l.at(seq("s"), n); }
        if (k == "can") { return l.can_search(t); }
        if (k == "pop") { return num(l.pop()); }
        if (k == "popk") { return num(l.pop(t)); }
        if (k == "popset") { return num(l.pop(set("s"))); }
        if (k == "popn") { return ids(l.pop(n)); }
        if (k == "skip") { l.skip(set("s")); return "ok"; }
        if (k == "try") { l.trySkip(t); return "ok"; }
        if (k == "expect") { return l.expect(t); }
        if (k == "find") { return l.find(t, n); }
        if (k == "ahead") { return l.ahead(set("s"), seq("q"), n); }
        if (k == "aheadset") { return l.ahead(set("s"), set("q"), n); }
        if (k == "findpast") { return l.find(set("s"), set("q"), n); }
        if (k == "inside") { return ids(l.getInside(set("s"), set("q"))); }
        if (k == "peek") {
            auto save = l.getPos();
            l.next(n);
            int r = l.finished() ? 0 : num(l.getPos());
            l.setPos(save);
            return r;
        }
        if (k == "goto") { l.setPos(Id{(hstd::u64)(n - 1)}); return "ok"; }
        if (k == "rest") {
            json r = json::array();
            auto w = l.whole();
            for (auto const& x : w.range_current()) { r.push_back((int)x.kind); }
            return r;
        }
        return "?";
    }
    json op(json const& o) {
        json v;
        try {
            v = run(o);
        } catch (UnexpectedEndError const&) {
            v = "end";
        } catch (UnexpectedCharError const&) {
            v = "char";
        } catch (std::exception const& e) { v = "err"; }
        return {{"v", v}, {"pos", c->finished() ? 0 : num(c->getPos())}, {"fin", c->finished()}};
    }
};
VH_MAIN(S)
