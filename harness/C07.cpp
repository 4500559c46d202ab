// Comparing two sequences.
#include "vh.hpp"
#include <set>
#include <hstd/stdlib/diffs.hpp>
using vh::json;
using namespace hstd;

Str      t(json const& j) { return Str(vh::text(j)); }
Vec<Str> strs(json const& j) { Vec<Str> r; for (auto const& x : j) { r.push_back(t(x)); } return r; }
json     script(Vec<SeqEdit> const& v) {
    json r = json::array();
    for (auto const& e : v) { r.push_back(json::array({(int)e.kind, e.sourcePos, e.targetPos})); }
    return r;
}
json column(Vec<ShiftedDiff::Item> const& v) {
    json r = json::array();
    for (auto const& e : v) { r.push_back(json::array({(int)e.kind, e.kind == SeqEditKind::None ? 0 : e.item})); }
    return r;
}
json view(ShiftedDiff const& s) { return json::array({column(s.oldShifted), column(s.newShifted)}); }
json ints(Vec<int> const& v) { json r = json::array(); for (int x : v) { r.push_back(x); } return r; }
json texts(Pair<ColText, ColText> const& p) { return json::array({vh::bytes(p.first.toString(false)), vh::bytes(p.second.toString(false))}); }

struct S {
    json run(json const& o) {
        std::string k = o["op"];
        if (k == "cmp") {
            Vec<int> a, b;
            for (int x : o["a"]) { a.push_back(x); }
            for (int x : o["b"]) { b.push_back(x); }
            int  g  = o["g"];
            Func<bool(int const&, int const&)> eq = [g](int const& x, int const& y) { return x % g == y % g; };
            auto lcs = longestCommonSubsequence<int>(a, b, eq);
            auto my  = g == 1000 ? myersDiffEqCmp<int>(a, b) : myersDiffCbCmp<int>(a, b, eq);
            auto lev = g == 1000 ? levenshteinDistance<int const>(std::as_const(a).toSpan(), std::as_const(b).toSpan())
                                 : levenshteinDistance(a.size(), b.size(), [&](int x, int y) { return eq(a[x], b[y]); });
            json z = json::array();
            for (auto const& p : zip<int>(a, b)) { z.push_back(json::array({p.first ? *p.first : -1, p.second ? *p.second : -1})); }
            json z2 = json::array();
            for (auto const& p : zipToMax<int>(a, b, -1)) { z2.push_back(json::array({p.lhs, p.rhs})); }
            return {{"lcs", {{"l", ints(lcs.at(0).lhsIndex)}, {"r", ints(lcs.at(0).rhsIndex)}}},
                    {"my", script(my)},
                    {"lev", {{"n", lev.score}, {"q", script(lev.operations)}}},
                    {"sl", view(ShiftedDiff{lcs.at(0), a.size(), b.size()})},
                    {"sm", view(ShiftedDiff{my})},
                    {"sv", view(ShiftedDiff{lev.operations})},
                    {"zip", z == z2 ? z : json(z2)}};
        }
        if (k == "table") {
            auto                a = strs(o["a"]), b = strs(o["b"]);
            FormattedDiff::Conf c;
            auto opt = [&](char const* n) -> Opt<int> { int v = o[n]; return v < 0 ? Opt<int>{} : Opt<int>{v}; };
            c.formatLine       = FormattedDiff::getSequenceFormatterCb(&a, &b);
            c.minLhsSize       = opt("minl");
            c.minRhsSize       = opt("minr");
            c.maxLhsSize       = opt("maxl");
            c.maxRhsSize       = opt("maxr");
            c.dropLeadingKeep  = o["dl"];
            c.dropTrailingKeep = o["dt"];
            c.maxUnchanged     = o["maxu"];
            auto q = o["rep"].get<bool>() ? levenshteinDistance<Str>(a.toSpan(), b.toSpan()).operations : myersDiffEqCmp<Str>(a, b);
            auto text = FormattedDiff{ShiftedDiff{q}, c}.format().toString(false);
            if (!o["rep"].get<bool>()) {
                auto again = formatDiffed<Str>(a, b, c).toString(false);
                if (again != text) { return {{"q", script(q)}, {"text", vh::bytes("differs")}, {"stack", json::array()}}; }
            }
            c.groupLine = true, c.sideBySide = false;
            json          st = json::array();
            FormattedDiff gd{ShiftedDiff{q}, c};
            for (auto const& l : gd.stackedLines()) { st.push_back(json::array({(int)l.prefix, l.isLhs ? 1 : 0, l.originalIndex})); }
            return {{"q", script(q)}, {"text", vh::bytes(text)}, {"stack", st}};
        }
        DiffFormatConf c;
        if (o.contains("sep") && o["sep"].is_array()) { c.inlineDiffSeparator = ColText{t(o["sep"])}; }
        if (k == "pair") {
            auto a = strs(o["a"]), b = strs(o["b"]);
            c.maxUnchanged = o["maxu"];
            auto q = o["rep"].get<bool>() ? levenshteinDistance<Str>(a.toSpan(), b.toSpan()).operations : myersDiffEqCmp<Str>(a, b);
            return {{"q", script(q)}, {"text", texts(formatDiffed<Str>(q, a.toSpan(), b.toSpan(), c))}};
        }
        if (k == "line") {
            Str a = t(o["a"]), b = t(o["b"]);
            c.explainInvisible = o["vis"];
            c.explainChar      = [](char ch) { return Str{std::string("<") + ch + ">"}; };
            c.lineSplit        = [](Str const& s) { return split_keep_separator(s, CharSet{' ', '\n'}); };
            auto x = c.lineSplit(a), y = c.lineSplit(b);
            return {{"q", script(levenshteinDistance<Str>(x.toSpan(), y.toSpan()).operations)}, {"text", texts(formatLineDiff(a, b, c))}};
        }
        if (k == "fuzzy") {
            Str          a = t(o["a"]), b = t(o["b"]);
            FuzzyMatcher m;
            m.recursionLimit = o["all"].get<bool>() ? 1000000 : 10;
            m.isEqual        = [&](int x, int y) { return a.at(x) == b.at(y); };
            std::set<int> seps;
            for (int x : o["seps"]) { seps.insert(x); }
            {
                FuzzyMatcher::LinearScoreConfig lc;
                lc.sequential_bonus = o["seq"], lc.separator_bonus = o["sep"].get<int>(), lc.first_letter_bonus = o["first"];
                lc.leading_letter_penalty = o["lead"], lc.max_leading_letter_penalty = o["leadmax"];
                lc.unmatched_letter_penalty = o["un"], lc.start_score = o["start"];
                lc.isSeparator = [&](int i) { return seps.contains(i); };
                m.matchScore   = m.getLinearScore(lc);
            }
            int  score = 0;
            bool ok    = m.fuzzy_match(slice(0, a.size() - 1), slice(0, b.size() - 1), score);
            return {{"ok", ok}, {"score", ok ? score : 0}, {"m", ok ? ints(m.matches) : json::array()}};
        }
        return "?";
    }
    json op(json const& o) { return {{"v", run(o)}}; }
};
VH_MAIN(S)
