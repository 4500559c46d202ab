// Differences of two trees: mapping, changes and the eager edit script.
#include "vh.hpp"
#include <hstd/ext/astdiff/astdiff.hpp>
#include <hstd/ext/astdiff/astdiff_eager.hpp>
#include <memory>
using vh::json;
using namespace hstd;
using namespace hstd::ext::diff;

struct N {
    int                             k, v, at;
    std::vector<std::unique_ptr<N>> c;
};
struct Tree : NodeStore {
    std::unique_ptr<N> root;
    int                count = 0;
    explicit Tree(json const& j) { root = make(j); }
    std::unique_ptr<N> make(json const& j) {
        auto n = std::make_unique<N>();
        n->k   = j["k"];
        n->v   = j["v"];
        n->at  = ++count;
        for (auto const& x : j["c"]) { n->c.push_back(make(x)); }
        return n;
    }
    static N const* of(Id const& id) { return id.ToPtr<N>(); }
    int             getSubnodeCount(Id const& id) override { return of(id)->c.size(); }
    Id              getSubnodeAt(Id const& id, int j) override { return Id::FromPtr(of(id)->c.at(j).get()); }
    Id              getRoot() override { return Id::FromPtr(root.get()); }
    ASTNodeKind     getNodeKind(Id const& id) const override { return of(id)->k; }
};
static std::string name(ChangeKind k) {
    switch (k) {
        case ChangeKind::None: return "None";
        case ChangeKind::Delete: return "Delete";
        case ChangeKind::Update: return "Update";
        case ChangeKind::Insert: return "Insert";
        case ChangeKind::Move: return "Move";
        case ChangeKind::UpdateMove: return "UpdateMove";
    }
    return "?";
}
struct S {
    void start(json const&) {}
    static int  n(NodeIdx const& x) { return x.isValid() ? x.Offset + 1 : 0; }
    static json point(ASTDiff::Change::MovePoint const& p) { return json::array({n(p.under), p.position}); }
    template <typename Q>
    static json chain(Q const& q) {
        json r = json::array();
        for (auto const& x : q) { r.push_back(n(x)); }
        return r;
    }
    template <typename Q>
    static json path(Q const& q) {
        json r = json::array();
        for (auto const& x : q) { r.push_back(json::array({n(x.under), x.position})); }
        return r;
    }
    json op(json const& o) {
        Tree              a{o["a"]}, b{o["b"]};
        json const&       p = o["o"];
        ComparisonOptions opts;
        opts.MinHeight        = p["minh"];
        opts.MinSimilarity    = p["sim"].get<int>() / 100.0;
        opts.MaxSize          = p["maxs"];
        opts.StopAfterTopDown = p["stop"];
        opts.DeletionCost     = p["del"].get<int>() / 2.0;
        opts.InsertionCost    = p["ins"].get<int>() / 2.0;
        double upd            = p["upd"].get<int>() / 2.0;
        opts.firstPass        = p["first"] == "top" ? ComparisonOptions::FirstPassKind::TopDown : ComparisonOptions::FirstPassKind::Greedy;
        opts.isMatchingAllowed = [](Node const& x, Node const& y) { return x.getNodeKind() == y.getNodeKind(); };
        opts.areValuesEqual    = [](Node const& x, Node const& y) { return Tree::of(x.ASTNode)->v == Tree::of(y.ASTNode)->v; };
        opts.getUpdateCost     = [&](Node const&, Node const&) { return upd; };
        SyntaxTree sa{opts}, sb{opts};
        sa.FromNode(&a);
        sb.FromNode(&b);
        ASTDiff d{sa, sb, opts};
        json    z = json::array();
        json    r{{"m", z}, {"w", z}, {"cs", z}, {"cd", z}, {"all", z}, {"edits", z}};
        for (int k = 0; k < a.count; ++k) {
            r["m"].push_back(n(d.getMapped(sa, k)));
            r["cs"].push_back(name(sa.getNode(k).Change));
        }
        for (int k = 0; k < b.count; ++k) {
            r["w"].push_back(n(d.getMapped(sb, k)));
            r["cd"].push_back(name(sb.getNode(k).Change));
        }
        using C = ASTDiff::Change;
        for (auto const& c : d.getAllChanges(false)) {
            json x{{"s", n(c.src)}, {"d", n(c.dst)}, {"from", z}, {"to", z}, {"upd", false}, {"schain", z}, {"dchain", z}, {"spath", z}, {"dpath", z}};
            switch (c.getKind()) {
                case C::Kind::Delete: x["k"] = "Delete"; break;
                case C::Kind::None: x["k"] = "None"; break;
                case C::Kind::Update: x["k"] = "Update"; break;
                case C::Kind::Insert:
                    x["k"]  = "Insert";
                    x["to"] = point(c.getInsert().to);
                    break;
                case C::Kind::Move:
                    x["k"]    = "Move";
                    x["from"] = point(c.getMove().from);
                    x["to"]   = point(c.getMove().to);
                    x["upd"]  = c.getMove().update;
                    break;
            }
            if (c.src.isValid()) {
                x["schain"] = chain(c.getSrcChain());
                x["spath"]  = path(c.getSrcPath());
                int j       = 0;
                for (auto const& id : c.getBaseSrcChain()) {
                    if (Tree::of(id)->at != x["schain"].at(j++).get<int>()) { x["schain"].push_back(-1); }
                }
            }
            if (c.dst.isValid()) {
                x["dchain"] = chain(c.getDstChain());
                x["dpath"]  = path(c.getDstPath());
                int j       = 0;
                for (auto const& id : c.getBaseDstChain()) {
                    if (Tree::of(id)->at != x["dchain"].at(j++).get<int>()) { x["dchain"].push_back(-1); }
                }
            }
            r["all"].push_back(x);
        }
        r["some"] = d.getAllChanges(true).size();
        for (auto const& e : getEdits(a, b, [](NodeStore::Id const& x, NodeStore::Id const& y) { return Tree::of(x)->v == Tree::of(y)->v; })) {
            json x{{"s", e.hasSrc() ? Tree::of(e.getSrc())->at : 0}, {"d", e.hasDst() ? Tree::of(e.getDst())->at : 0}, {"si", -1}, {"di", -1}};
            if (e.isInsert()) {
                x["k"]  = "Insert";
                x["di"] = e.getInsert().dstIndex;
            } else if (e.isDelete()) {
                x["k"]  = "Delete";
                x["si"] = e.getDelete().srcIndex;
            } else if (e.isMove()) {
                x["k"]  = "Move";
                x["si"] = e.getMove().srcIndex;
                x["di"] = e.getMove().dstIndex;
            } else {
                x["k"]  = "Update";
                x["si"] = e.getUpdate().srcIndex;
                x["di"] = e.getUpdate().dstIndex;
            }
            r["edits"].push_back(x);
        }
        return r;
    }
};
VH_MAIN(S)
