// Flat node storage.
#include "vh.hpp"
#include <sstream>
#include <hstd/stdlib/Formatter.hpp>
#include <hstd/stdlib/VariantFormatter.hpp>
#include <haxorg/lexbase/Node.cpp>
#include <haxorg/lexbase/NodeAdapter.hpp>
using vh::json;
enum class NK : hstd::u8 { N0, N1, N2, N3 };
enum class TK : hstd::u8 { T0, T1, T2, T3 };
BOOST_DESCRIBE_ENUM(NK, N0, N1, N2, N3);
BOOST_DESCRIBE_ENUM(TK, T0, T1, T2, T3);
using Grp  = org::parse::NodeGroup<NK, TK, int, std::monostate>;
using NodeT = Grp::NodeT;
using Id   = Grp::Id;

struct S {
    org::parse::TokenGroup<TK, int> toks;
    Grp                             g{&toks};
    json op(json const& o) {
        std::string k = o["op"];
        int         ret = 0;
        auto num = [](Id id) { return id.isNil() ? 0 : (int)id.getIndex() + 1; };
        auto make = [&]() -> NodeT {
            NK          nk = (NK)o["k"].get<int>();
            std::string t  = o["t"];
            if (t == "tok") { return NodeT{nk, toks.add(org::parse::Token<TK, int>{TK::T1, o["v"].get<int>()})}; }
            if (t == "mono") { return NodeT::Mono(nk); }
            return NodeT{nk};
        };
        if (k == "add") {
            std::string t = o["t"];
            auto        n = make();
            ret           = num(t == "sub" ? g.startTree(n) : t == "tok" && o["v"].get<int>() % 2 ? g.token(n.kind, n.getToken()) : g.token(n));
        } else if (k == "end") {
            ret = num(g.endTree());
        } else if (k == "fail") {
            ret = num(g.failTree(make()));
        } else if (k == "cut") {
            g.removeTail(Id{(hstd::u64)(o["i"].get<int>() - 1)});
            ret = g.size();
        }
        json dump = json::array(), trees = json::array();
        for (int i = 0; i < g.size(); ++i) {
            Id    id{(hstd::u64)i};
            auto& n = g.at(id);
            json  subs = json::array(), iter = json::array(), nth = json::array(), all = json::array();
            if (auto p = g.subnodesOf(id)) {
                for (auto [b, e] = *p; b != e; ++b) { subs.push_back(num(*b)); }
            }
            org::parse::NodeAdapter<NK, TK, int, std::monostate> a{&g, id};
            for (auto const& x : a) { iter.push_back(num(x.id)); }
            for (int j = 0; j < g.size(id); ++j) {
                int x = num(g.subnode(id, j));
                nth.push_back(x == num(a.at(j).id) && x == num(a[j].id) ? x : -1);
            }
            if (auto s = g.allSubnodesOf(id)) { all = json::array({num(s->first), num(s->last)}); }
            if (n.isNonTerminal()) {
                auto s = n.nestedNodes(id);
                if (s.has_value() != !all.empty() || (s && num(s->last) != all[1].get<int>())) { all.push_back("nested"); }
            }
            auto err = [&](int j) -> json { try { return num(g.subnode(id, j)); } catch (std::exception const&) { return "err"; } };
            dump.push_back({{"k", (int)n.kind}, {"t", n.isTerminal() ? "tok" : n.isMono() ? "mono" : "sub"}, {"v", n.isTerminal() ? g.val(id) : 0},
                            {"ext", n.getExtent()}, {"full", n.getFullSize()}, {"size", g.size(id)}, {"subs", subs}, {"iter", iter}, {"nth", nth}, {"all", all},
                            {"par", num(g.parent(id))}, {"past", err(g.size(id))}, {"before", err(-1)}});
            // the printed form, read back line by line
            json              tree = json::array();
            std::stringstream ss{g.treeRepr(id)};
            std::string       line;
            while (std::getline(ss, line)) {
                size_t sp = line.find_first_not_of(' '), br = line.find('['), en = line.find(']'), at = line.find("ID:");
                if (br == std::string::npos || at == std::string::npos) { tree.push_back(line); continue; }
                tree.push_back(json::array({(int)sp / 2, line[sp + 1] - '0', std::stoi(line.substr(br + 1, en - br - 1)), std::stoi(line.substr(at + 3))}));
            }
            trees.push_back(tree);
        }
        return {{"ret", ret}, {"depth", g.treeDepth()}, {"dump", dump}, {"tree", trees}};
    }
};
VH_MAIN(S)
