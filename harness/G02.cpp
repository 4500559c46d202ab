// Vertex hierarchies: edits and every query over the result.
#include "vh.hpp"
#include <hstd/ext/graph/base/graph_base.hpp>
using vh::json;
using namespace hstd::ext::graph;

struct S {
    TrivialGraph                      g;
    std::shared_ptr<TrivialHierarchy> one = std::make_shared<TrivialHierarchy>();
    std::shared_ptr<IdOnlyHierarchy>  two = std::make_shared<IdOnlyHierarchy>();
    std::vector<VertexID>             vs;
    int                               made = 0;

    void start(json const&) {
        g.addHierarchy(one);
        g.addHierarchy(two);
    }
    IVertexHierarchy* hier(int k) { return k == 1 ? static_cast<IVertexHierarchy*>(one.get()) : two.get(); }
    int               num(VertexID const& x) {
        for (size_t k = 0; k < vs.size(); ++k) {
            if (vs[k] == x) { return (int)k + 1; }
        }
        return -1;
    }
    template <typename Q>
    json nums(Q const& q) {
        json r = json::array();
        for (auto const& x : q) { r.push_back(num(x)); }
        return r;
    }
    VertexID v(json const& o, char const* f = "v") { return vs.at(o[f].get<int>() - 1); }
    template <typename F>
    static bool works(F f) {
        try {
            f();
            return true;
        } catch (std::exception const&) { return false; }
    }
    // nesting edges are named by the pair they join
    json edge(IVertexHierarchy* h, EdgeID const& e) {
        int a = -1, b = -1;
        works([&] {
            a = num(h->getSource(e));
            b = num(h->getTarget(e));
        });
        return json::array({a, b});
    }
    template <typename Q>
    json edges(IVertexHierarchy* h, Q const& q) {
        json r = json::array();
        for (auto const& e : q) { r.push_back(edge(h, e)); }
        return r;
    }
    std::map<int, std::map<hstd::u64, std::pair<int, int>>> known;
    json                                                    del;
    void note(int k, IEdgeProvider::DependantDeletion const& d) {
        del[k - 1]["v"] = nums(d.vertices);
        json e          = json::array();
        for (auto const& id : d.edges) {
            auto it = known[k].find(id.getValue());
            e.push_back(it == known[k].end() ? json::array({-1, -1}) : json::array({it->second.first, it->second.second}));
        }
        del[k - 1]["e"] = e;
    }
    void act(json const& o) {
        std::string k = o["op"];
        if (k == "addV") {
            vs.push_back(g.addVertex());
        } else if (k == "delV") {
            for (auto const& [id, d] : g.untrackVertex(v(o))) { note(id == one->getCollectionID() ? 1 : 2, d); }
        } else if (k == "track") {
            hier(o["h"])->trackVertex(v(o));
        } else if (k == "untrack") {
            note(o["h"], hier(o["h"])->untrackVertex(v(o)));
        } else if (k == "nest") {
            auto p = v(o, "p"), s = v(o, "s");
            int  h = o["h"];
            if (o["via"] == "graph") {
                auto id = hier(h)->getNestingEdgeID(p, s);
                if (h == 1) {
                    one->addEdge(id, TrivialEdge{"made"});
                } else {
                    two->edgeStore.incl(id);
                }
                g.trackSubVertexRelation(hier(h)->getCollectionID(), id, p, s);
            } else if (h == 1) {
                std::ignore = one->trackSubVertexRelation(p, s);
            } else {
                std::ignore = two->trackSubVertexRelation(p, s);
            }
        } else if (k == "unnest") {
            if (made++ % 2) {
                hier(o["h"])->untrackSubVertexRelation(v(o, "p"), v(o, "s"));
            } else {
                g.untrackSubVertexRelation(hier(o["h"])->getCollectionID(), v(o, "p"), v(o, "s"));
            }
        }
    }
    json ask(json const& o) {
        auto* h = hier(o["h"]);
        auto  a = v(o, "a"), b = v(o, "b");
        json  z = json::array();
        json  r{{"cross", json::array({-1})}, {"until", nums(h->getParentChainUntil(a, b))}, {"segs", z}, {"ports", z}};
        works([&] { r["cross"] = nums(h->getHierarchyCrossings(a, b)); });
        VertexIDSet q;
        for (auto const& x : o["q"]) { q.incl(vs.at(x.get<int>() - 1)); }
        auto c      = h->getCommonAncestor(q);
        r["common"] = c ? num(*c) : 0;
        if (a != b) {
            auto e     = g.addEdge(a, b, "asked");
            auto segs  = std::make_shared<TrivialEdgeCollection>(EdgeCollectionID{139});
            auto ports = std::make_shared<TrivialPortCollection>();
            g.addPorts(ports);
            g.addCollection(segs);
            AutoSegmentingCollection as{segs.get(), ports.get(), h, &g};
            works([&] {
                as.addEdge(e);
                for (auto const& x : as.getSegments(e)) { r["segs"].push_back(json::array({num(segs->getSource(x)), num(segs->getTarget(x))})); }
                auto list = as.getSegments(e);
                int  j    = 0;
                for (auto const& p : as.getSegmentationPorts(e)) {
                    bool fits = ports->getEdgeForPort(p).contains(list.at(j)) && ports->getEdgeForPort(p).contains(list.at(j + 1))
                             && as.getOriginalEdge(list.at(j)) == e;
                    r["ports"].push_back(fits ? num(ports->getVertexForPort(p)) : -1);
                    ++j;
                }
            });
            g.delCollection(segs);
            g.delPorts(ports);
            g.edges->untrackEdge(e);
        }
        return r;
    }
    json op(json const& o) {
        json z = json::array();
        del    = json::array({{{"v", z}, {"e", z}}, {{"v", z}, {"e", z}}});
        json r;
        r["res"] = works([&] { act(o); }) ? "ok" : "err";
        r["del"] = del;
        r["hs"]  = z;
        for (int k = 1; k <= 2; ++k) {
            auto* h  = hier(k);
            auto  id = h->getCollectionID();
            json  x{{"all", nums(h->getAllVertices())}, {"count", h->getVertexCount()}, {"roots", nums(g.getRootVertices(id))}, {"edges", edges(h, h->getEdges())},
                   {"num", h->getNumEdges()}, {"level", g.getMaxNestingLevel(id)}};
            for (auto f : {"tracked", "par", "subs", "chain", "out", "in", "has"}) { x[f] = z; }
            for (auto const& e : h->getEdges()) { known[k][e.getValue()] = {num(h->getSource(e)), num(h->getTarget(e))}; }
            for (auto const& v : vs) {
                auto p = g.getParentVertex(id, v);
                x["tracked"].push_back(h->isTrackingVertex(v));
                x["par"].push_back(p ? num(*p) : 0);
                x["subs"].push_back(nums(g.getSubVertices(id, v)));
                x["chain"].push_back(nums(g.getParentChain(id, v)));
                json out = z, in = z;
                works([&] { out = edges(h, h->getOutgoing(v)); });
                works([&] { in = edges(h, h->getIncoming(v)); });
                x["out"].push_back(out);
                x["in"].push_back(in);
                json has = z;
                for (auto const& w : vs) { has.push_back(static_cast<IEdgeProvider*>(h)->hasEdge(v, w)); }
                x["has"].push_back(has);
            }
            r["hs"].push_back(x);
        }
        if (o["op"] == "ask") { r["ask"] = ask(o); }
        return r;
    }
};
VH_MAIN(S)
