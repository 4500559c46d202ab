// Text helpers.
#include "vh.hpp"
#include <hstd/stdlib/Str.hpp>
#include <hstd/stdlib/strutils.hpp>
using vh::json;
using namespace hstd;

Str t(json const& j) { return Str(vh::text(j)); }
CharSet cs(json const& j) { CharSet r; for (auto const& c : j) { r.incl((char)c.get<int>()); } return r; }
json list(auto const& v) { json r = json::array(); for (auto const& x : v) { r.push_back(vh::bytes(x)); } return r; }
Vec<Str> strs(json const& j) { Vec<Str> r; for (auto const& x : j) { r.push_back(t(x)); } return r; }
generator<Str> gen(Vec<Str> v) { for (auto const& x : v) { co_yield x; } }

struct S {
    json run(json const& o) {
        std::string k = o["op"];
        Str s = o.contains("s") ? t(o["s"]) : Str{};
        auto c = [&] { return (char)o["c"].get<int>(); };
        if (k == "split") { return list(split(s, c())); }
        if (k == "splits") { return list(split(s, t(o["d"]))); }
        if (k == "keep") { return list(split_keep_separator(s, cs(o["l"]))); }
        if (k == "strip") { return vh::bytes(strip(s, cs(o["l"]), cs(o["t"]))); }
        if (k == "lstrip") { return vh::bytes(lstrip(s, cs(o["l"]))); }
        if (k == "rstrip") { return vh::bytes(rstrip(s, cs(o["l"]))); }
        if (k == "replace") { return vh::bytes(s.replaceAll(t(o["f"]), t(o["t"]))); }
        if (k == "replacein") { std::string x = s; replace_all(x, t(o["f"]), t(o["t"])); return vh::bytes(x); }
        if (k == "repeat") { return vh::bytes(repeat(s, o["n"])); }
        if (k == "repeated") { return vh::bytes(s.repeated(o["n"])); }
        if (k == "indent") { return vh::bytes(indent(s, o["n"], c(), t(o["t"]))); }
        if (k == "dropp") { return vh::bytes(s.dropPrefix(t(o["f"]))); }
        if (k == "drops") { return vh::bytes(s.dropSuffix(t(o["f"]))); }
        if (k == "slice") {
            int  a = o["a"]["v"], z = o["z"]["v"];
            bool ab = o["a"]["b"], zb = o["z"]["b"];
            Str const& q = s;
            auto both = [&](auto sl) -> json {
                std::string x{s.at(sl)}, y{q.at(sl)}, u{s[sl]}, w{q[sl]};
                if (x != y || x != u || x != w) { return "differs"; }
                return vh::bytes(x);
            };
            BackwardsIndex ba{a}, bz{z};
            if (ab && zb) { return both(HSlice<BackwardsIndex, BackwardsIndex>{ba, bz}); }
            if (ab) { return both(HSlice<BackwardsIndex, int>{ba, z}); }
            if (zb) { return both(HSlice<int, BackwardsIndex>{a, bz}); }
            return both(HSlice<int, int>{a, z});
        }
        if (k == "substr") { return vh::bytes(s.substr(o["a"], o["n"])); }
        if (k == "at") {
            int a = o["a"]["v"];
            if (o["a"]["b"]) { return (int)(unsigned char)s.at(BackwardsIndex{a}); }
            int x = (unsigned char)s.at(a);
            return x == (unsigned char)std::as_const(s).at(a) ? json(x) : json("differs");
        }
        if (k == "has") {
            Str f = t(o["f"]);
            bool r = s.contains(f);
            if (f.size() == 1 && s.contains(f[0]) != r) { return "differs"; }
            return r;
        }
        if (k == "left") { return vh::bytes(left_aligned(s, o["n"], c())); }
        if (k == "right") { return vh::bytes(right_aligned(s, o["n"], c())); }
        if (k == "ieq") { return iequals(s, t(o["f"])); }
        if (k == "normal") { return vh::bytes(normalize(s)); }
        if (k == "escw") { return vh::bytes(escape_for_write(s, o["q"].get<bool>())); }
        if (k == "escl") { std::string x = escape_literal(s.toBase()); return x == escape_literal(std::string_view{s}) ? json(vh::bytes(x)) : json("differs"); }
        if (k == "vis") { return list(visibleUnicodeName(s)); }
        if (k == "runelen") { return rune_length(s) == s.runeLen() ? json(s.runeLen()) : json("differs"); }
        if (k == "runes") { return list(rune_chunks(s)); }
        if (k == "utf8") { try { validate_utf8(s); return true; } catch (hstd::logic_assertion_error const&) { return false; } }
        if (k == "wrap") { return vh::bytes(wrap_text(strs(o["l"]), o["n"], o["q"].get<bool>())); }
        if (k == "table") {
            Vec<Vec<Str>> rows;
            for (auto const& r : o["l"]) { rows.push_back(strs(r)); }
            return vh::bytes(format_table(rows, t(o["f"]), t(o["t"]), c()));
        }
        if (k == "join") { auto l = strs(o["l"]); Str a = join(s, l); Str b = join(s, gen(l)); return a == b ? json(vh::bytes(a)) : json("differs"); }
        if (k == "bits") { return vh::bytes(format_integer_bits(o["n"].get<std::uint64_t>(), o["f"].get<std::string>()[0], o["c"])); }
        if (k == "int") { int x = s.toInt(); return x == s.toI64() && (x < 0 || (std::uint64_t)x == s.toU64()) ? json(x) : json("differs"); }
        if (k == "plus") { Str f = t(o["f"]); Str a = s + f, b = s.toBase() + f; Str d = s; d.append(f); return a == b && a == d ? json(vh::bytes(a)) : json("differs"); }
        throw std::logic_error(k);
    }
    json op(json const& o) {
        try { return json{{"v", run(o)}}; }
        catch (hstd::range_error const&) { return json{{"v", "err"}}; }
        catch (std::out_of_range const&) { return json{{"v", "err"}}; }
        catch (std::invalid_argument const&) { return json{{"v", "err"}}; }
    }
};
VH_MAIN(S)
