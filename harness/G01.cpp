// Graph edits and every query over the result.
#include "vh.hpp"
#include <hstd/ext/graph/base/graph_base.hpp>
using vh::json;
using namespace hstd::ext::graph;

struct At : IAttribute {
    int x;
    At(int x) : x(x) {}
    virtual char const* kind() const = 0;
    std::string         getRepr() const override { return kind(); }
};
struct AtA : At {
    using At::At;
    char const* kind() const override { return "A"; }
};
struct AtB : At {
    using At::At;
    char const* kind() const override { return "B"; }
};
struct AtD : AtA {
    using AtA::AtA;
    char const* kind() const override { return "D"; }
};
template <>
struct hstd::value_metadata<AtA> { static std::string typeName() { return "A"; } static bool isEmpty(AtA const&) { return false; } };
template <>
struct hstd::value_metadata<AtB> { static std::string typeName() { return "B"; } static bool isEmpty(AtB const&) { return false; } };
template <>
struct hstd::value_metadata<AtD> { static std::string typeName() { return "D"; } static bool isEmpty(AtD const&) { return false; } };

static json told = json::array();
struct S;
static int vnum(S* s, VertexID id);
struct Trk : IAttributeTracker {
    S*  s;
    int id;
    Trk(S* s, int id) : s(s), id(id) {}
    void trackVertex(VertexID const& v) override { told.push_back(json::array({id, "track", vnum(s, v)})); }
    void untrackVertex(VertexID const& v) override { told.push_back(json::array({id, "untrack", vnum(s, v)})); }
    hstd::Vec<VertexID> getVertices(IAttribute const&) override { return {}; }
    AttributeTrackerID  getTrackerID() const override { return AttributeTrackerID(id); }
};

struct S {
    TrivialGraph                           g;
    std::shared_ptr<TrivialEdgeCollection> two   = std::make_shared<TrivialEdgeCollection>(EdgeCollectionID{2});
    std::shared_ptr<IdOnlyEdgeCollection>  three = std::make_shared<IdOnlyEdgeCollection>(EdgeCollectionID{3});
    std::shared_ptr<TrivialPortCollection> ports = std::make_shared<TrivialPortCollection>();
    std::shared_ptr<Trk>                   trk[2];
    std::vector<VertexID>                  vs;
    std::vector<EdgeID>                    es;
    std::vector<PortID>                    ps;

    void start(json const&) {
        g.addCollection(two);
        g.addCollection(three);
        g.addPorts(ports);
        trk[0] = std::make_shared<Trk>(this, 1);
        trk[1] = std::make_shared<Trk>(this, 2);
    }
    IEdgeCollection* coll(int c) {
        if (c == 1) { return g.edges.get(); }
        if (c == 2) { return two.get(); }
        return three.get();
    }
    template <typename T>
    static int num(std::vector<T> const& q, T const& x) {
        int n = 0;
        for (size_t k = 0; k < q.size(); ++k) {
            if (q[k] == x) { n = n ? -1 : (int)k + 1; }
        }
        return n;
    }
    template <typename T, typename Q>
    static json nums(std::vector<T> const& known, Q const& q) {
        json r = json::array();
        for (auto const& x : q) { r.push_back(num(known, T(x))); }
        return r;
    }
    template <typename F>
    static bool works(F f) {
        try {
            f();
            return true;
        } catch (std::exception const&) { return false; }
    }
    template <typename T>
    static std::shared_ptr<T> mk(json const& o) { return std::make_shared<T>(o["x"].get<int>()); }
    VertexID   v(json const& o, char const* f = "v") { return vs.at(o[f].get<int>() - 1); }
    EdgeID     e(json const& o) { return es.at(o["e"].get<int>() - 1); }
    PortID     p(json const& o) { return ps.at(o["p"].get<int>() - 1); }
    std::optional<std::string> n(json const& o) {
        std::string s = o["n"];
        return s.empty() ? std::nullopt : std::make_optional(s);
    }
    int act(json const& o) {
        std::string k = o["op"];
        if (k == "addV") {
            size_t before = vs.size();
            auto   id     = g.addVertex(n(o));
            if (vs.size() == before) { vs.push_back(id); }
            return num(vs, id);
        } else if (k == "delV") {
            g.untrackVertex(v(o));
        } else if (k == "addE") {
            int    c = o["c"];
            EdgeID id = EdgeID::Nil();
            if (c == 1) {
                id = g.addEdge(v(o, "s"), v(o, "t"), n(o));
            } else if (c == 2) {
                id = two->addEdge(v(o, "s"), v(o, "t"), n(o));
            } else {
                id = EdgeID::FromMasked(hstd::u64(es.size()), EdgeCollectionID{3});
                three->trackEdge(id, v(o, "s"), v(o, "t"));
            }
            es.push_back(id);
            return num(es, id);
        } else if (k == "delE") {
            auto id = e(o);
            g.getEdgeCollection(id)->untrackEdge(id);
        } else if (k == "addP") {
            ps.push_back(ports->addPort(v(o)));
            return num(ps, ps.back());
        } else if (k == "addPE") {
            ps.push_back(ports->addPort(v(o), e(o), o["src"].get<bool>()));
            return num(ps, ps.back());
        } else if (k == "conn") {
            ports->connectPort(IPortCollection::PortSpec{v(o), e(o), o["src"].get<bool>()}, p(o));
        } else if (k == "join") {
            ports->addEdgeToPort(p(o), e(o), o["src"].get<bool>());
        } else if (k == "delP") {
            ports->delPort(p(o));
        } else if (k == "track") {
            auto const& t = trk[o["t"].get<int>() - 1];
            if (o["on"].get<bool>()) {
                g.addTracker(t);
            } else {
                g.delTracker(t);
            }
        } else {
            auto*       x = g.getMVertex(v(o));
            std::string kind = o["k"];
            auto        put  = [&]<typename T>(std::shared_ptr<T> a) {
                if (k == "attr") {
                    x->addAttribute(a);
                } else if (k == "uniq") {
                    x->addUniqueAttribute(a);
                } else {
                    x->addOrResetUniqueAttribute(a);
                }
            };
            if (kind == "A") {
                put(mk<AtA>(o));
            } else if (kind == "B") {
                put(mk<AtB>(o));
            } else {
                put(mk<AtD>(o));
            }
        }
        return 0;
    }
    template <typename T>
    void kinds(IVertex const* x, json& r) {
        json all = json::array(), first = json::array(), only = json::array();
        for (auto const& a : x->getAllAttributes<T>()) { all.push_back(a->x); }
        if (auto a = x->getOptionalAttribute<T>()) { first.push_back((*a)->x); }
        works([&] { only.push_back(x->getUniqueAttribute<T>()->x); });
        r["kind"].push_back(all);
        r["first"].push_back(first);
        r["only"].push_back(only);
    }
    json op(json const& o) {
        told = json::array();
        json r;
        int  made = 0;
        r["res"]  = works([&] { made = act(o); }) ? "ok" : "err";
        r["new"]  = made;
        r["told"] = told;
        static char const* names[] = {"p", "q", "x", "y"};
        json               z       = json::array();
        r["all"]   = nums(vs, g.getAllVertices());
        r["count"] = g.getVertexCount();
        r["sum"]   = g.getSummedEdgeCount();
        r["vname"] = z;
        r["gname"] = z;
        for (auto n : names) {
            int k = g.hasVertexStableId(n) ? num(vs, g.getVertexIDByStableId(n)) : 0;
            r["vname"].push_back(k);
            bool f = false;
            works([&] {
                auto id = g.getEdgeIDByStableId(n);
                f       = g.getStableId(id) == n;
            });
            r["gname"].push_back(f);
        }
        for (auto k : {"tracked", "gout", "gin", "gdeg", "vports", "attrs", "ends", "ports", "eports", "coll"}) { r[k] = z; }
        for (auto const& id : vs) {
            r["tracked"].push_back(g.isTrackingVertex(id));
            r["gout"].push_back(nums(es, g.getOutgoing(id)));
            r["gin"].push_back(nums(es, g.getIncoming(id)));
            r["gdeg"].push_back(json::array({g.getInDegree(id), g.getOutDegree(id)}));
            r["vports"].push_back(nums(ps, ports->getPortsForVertex(id)));
            json a{{"all", z}, {"kind", z}, {"first", z}, {"only", z}};
            auto x = g.getVertex(id);
            for (auto const& it : x->getAttributes()) {
                auto q = std::dynamic_pointer_cast<At>(it);
                a["all"].push_back(json::array({q->kind(), q->x}));
            }
            kinds<AtA>(x, a);
            kinds<AtB>(x, a);
            kinds<AtD>(x, a);
            r["attrs"].push_back(a);
        }
        for (auto const& id : es) {
            int a = 0, b = 0;
            works([&] {
                a = num(vs, g.getSource(id));
                b = num(vs, g.getTarget(id));
            });
            r["ends"].push_back(json::array({a, b}));
            auto pr = ports->getPortsForEdge(id);
            json has = z, get = z;
            for (auto const& v : vs) {
                int s = 0, t = 0;
                works([&] { s = num(ps, ports->getSourcePort(v, id)); });
                works([&] { t = num(ps, ports->getTargetPort(v, id)); });
                has.push_back(json::array({ports->hasSourcePort(v, id), ports->hasTargetPort(v, id)}));
                get.push_back(json::array({s, t}));
            }
            r["eports"].push_back(
                {{"pair", json::array({pr.first.isNil() ? 0 : num(ps, pr.first), pr.second.isNil() ? 0 : num(ps, pr.second)})}, {"has", has}, {"get", get}});
        }
        for (auto const& id : ps) {
            json x{{"v", 0}, {"e", z}, {"side", "err"}};
            works([&] {
                x["v"] = num(vs, ports->getVertexForPort(id));
                x["e"] = nums(es, ports->getEdgeForPort(id));
                x["side"] = ports->isSourcePort(id) ? "source" : "target";
            });
            r["ports"].push_back(x);
        }
        hstd::UnorderedSet<VertexID> sub;
        for (auto const& k : o["q"]) {
            if (k.get<size_t>() <= vs.size()) { sub.incl(vs.at(k.get<size_t>() - 1)); }
        }
        for (int c = 1; c <= 3; ++c) {
            auto* q = coll(c);
            json  x{{"all", nums(es, q->getEdges())}, {"num", q->getNumEdges()}, {"tracked", z}, {"name", z}, {"v", z}};
            for (auto const& id : es) {
                bool t = false;
                works([&] { t = q->isTrackingEdge(id); });
                x["tracked"].push_back(t);
            }
            for (auto n : names) { x["name"].push_back(q->hasEdgeStableId(n) ? num(es, q->getEdgeIDByStableId(n)) : 0); }
            x["within"]   = nums(es, q->getFullyIncludedEdges(sub));
            x["reaching"] = nums(es, q->getPartiallyIncludedEdges(sub));
            for (auto const& v : vs) {
                json y{{"out", nums(es, q->getOutgoing(v))}, {"in", nums(es, q->getIncoming(v))}, {"adj", nums(es, q->getAdjacentEdges(v))},
                       {"outn", nums(vs, q->getOutNodes(v))}, {"inn", nums(vs, q->getInNodes(v))}, {"adjn", nums(vs, q->getAdjacentNodes(v))},
                       {"deg", json::array({q->getInDegree(v), q->getOutDegree(v)})}, {"to", z}};
                for (auto const& w : vs) { y["to"].push_back(static_cast<IEdgeProvider*>(q)->hasEdge(v, w)); }
                x["v"].push_back(y);
            }
            r["coll"].push_back(x);
        }
        return r;
    }
};
// a tracker hears of a new vertex before the caller learns its id
static int vnum(S* s, VertexID id) {
    if (S::num(s->vs, id) == 0) { s->vs.push_back(id); }
    return S::num(s->vs, id);
}
VH_MAIN(S)
