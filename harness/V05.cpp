// Boost graph visitor adaptors driven by real searches.
#include "vh.hpp"
#include <hstd/ext/graphwrap.hpp>
#include <boost/graph/bellman_ford_shortest_paths.hpp>
#include <set>
using vh::json;

struct EP { int id; int w; };
template <typename Dir>
using GraphT = boost::adjacency_list<boost::vecS, boost::vecS, Dir, boost::no_property, EP>;

template <typename G>
struct Run {
    using VD = typename boost::graph_traits<G>::vertex_descriptor;
    using ED = typename boost::graph_traits<G>::edge_descriptor;
    G                     g;
    json                  log = json::array();
    std::set<std::string> on;
    bool                  foreign = false;

    std::function<void(VD const&, G const&)> onv(std::string k) {
        return [this, k](VD const& v, G const& gr) {
            if (&gr != &g) { foreign = true; }
            log.push_back(json{{"k", k}, {"i", (int)v}});
        };
    }
    std::function<void(ED const&, G const&)> one(std::string k) {
        return [this, k](ED const& e, G const& gr) {
            if (&gr != &g) { foreign = true; }
            log.push_back(json{{"k", k}, {"i", gr[e].id}});
        };
    }
    void fill(json const& j) {
        g = G(j["n"].get<int>());
        int id = 0;
        for (auto const& e : j["e"]) {
            boost::add_edge(e["f"].get<int>(), e["t"].get<int>(), EP{++id, e["w"].get<int>()}, g);
        }
    }
    template <typename V>
    void attach(V& v) {
        V* self = &v;
        auto same = [&](V& r) { if (&r != self) { foreign = true; } };
        if (on.contains("initialize_vertex")) { same(v.set_initialize_vertex(onv("initialize_vertex"))); }
        if (on.contains("discover_vertex")) { same(v.set_discover_vertex(onv("discover_vertex"))); }
        if (on.contains("examine_vertex")) { same(v.set_examine_vertex(onv("examine_vertex"))); }
        if (on.contains("examine_edge")) { same(v.set_examine_edge(one("examine_edge"))); }
        if (on.contains("tree_edge")) { same(v.set_tree_edge(one("tree_edge"))); }
        if (on.contains("non_tree_edge")) { same(v.set_non_tree_edge(one("non_tree_edge"))); }
        if (on.contains("gray_target")) { same(v.set_gray_target(one("gray_target"))); }
        if (on.contains("black_target")) { same(v.set_black_target(one("black_target"))); }
        if (on.contains("finish_vertex")) { same(v.set_finish_vertex(onv("finish_vertex"))); }
    }
    template <typename V>
    void attach_bf(V& v) {
        if (on.contains("examine_edge")) { v.set_examine_edge(one("examine_edge")); }
        if (on.contains("edge_relaxed")) { v.set_edge_relaxed(one("edge_relaxed")); }
        if (on.contains("edge_not_relaxed")) { v.set_edge_not_relaxed(one("edge_not_relaxed")); }
        if (on.contains("edge_minimized")) { v.set_edge_minimized(one("edge_minimized")); }
        if (on.contains("edge_not_minimized")) { v.set_edge_not_minimized(one("edge_not_minimized")); }
    }
    template <typename V>
    void fire(V& v, json const& ev) {
        std::string k = ev["k"];
        int         i = ev["i"];
        auto        edge = [&]() {
            auto [b, e] = boost::edges(g);
            for (; b != e; ++b) { if (g[*b].id == i) { return *b; } }
            std::abort();
        };
        if constexpr (requires { v.initialize_vertex((VD)0, g); }) {
            if (k == "initialize_vertex") { v.initialize_vertex((VD)i, g); }
            else if (k == "discover_vertex") { v.discover_vertex((VD)i, g); }
            else if (k == "examine_vertex") { v.examine_vertex((VD)i, g); }
            else if (k == "finish_vertex") { v.finish_vertex((VD)i, g); }
            else if (k == "examine_edge") { v.examine_edge(edge(), g); }
            else if (k == "tree_edge") { v.tree_edge(edge(), g); }
            else if (k == "non_tree_edge") { v.non_tree_edge(edge(), g); }
            else if (k == "gray_target") { v.gray_target(edge(), g); }
            else if (k == "black_target") { v.black_target(edge(), g); }
            else { std::abort(); }
        } else {
            if (k == "examine_edge") { v.examine_edge(edge(), g); }
            else if (k == "edge_relaxed") { v.edge_relaxed(edge(), g); }
            else if (k == "edge_not_relaxed") { v.edge_not_relaxed(edge(), g); }
            else if (k == "edge_minimized") { v.edge_minimized(edge(), g); }
            else if (k == "edge_not_minimized") { v.edge_not_minimized(edge(), g); }
            else { std::abort(); }
        }
    }
    json op(json const& o) {
        fill(o["g"]);
        for (auto const& x : o["on"]) { on.insert(x.get<std::string>()); }
        std::string alg = o["alg"];
        using namespace hstd::ext;
        if (o["op"] == "search") {
            int root = o["r0"];
            if (alg == "bfs") {
                boost_lambda_bfs_visitor<G> v;
                attach(v);
                boost::breadth_first_search(g, boost::vertex(root, g), boost::visitor(v));
            } else if (alg == "dfs") {
                boost_lambda_dfs_visitor<G> v;
                attach(v);
                boost::depth_first_search(g, boost::visitor(v).root_vertex(boost::vertex(root, g)));
            } else {
                boost_lambda_bellman_ford_visitor<G> v;
                attach_bf(v);
                std::vector<int> dist(boost::num_vertices(g), std::numeric_limits<int>::max());
                dist[root] = 0;
                auto wm    = boost::get(&EP::w, g);
                boost::bellman_ford_shortest_paths(
                    g,
                    (int)boost::num_vertices(g),
                    boost::weight_map(wm)
                        .distance_map(boost::make_iterator_property_map(
                            dist.begin(), boost::get(boost::vertex_index, g)))
                        .distance_combine(boost::closed_plus<int>())
                        .visitor(v));
            }
        } else {
            auto both = [&](auto v, auto att) {
                att(v);
                auto copy = v;
                fire(copy, o["e"]);
            };
            auto att = [&](auto& v) { attach(v); };
            if (alg == "bfs") { both(boost_lambda_bfs_visitor<G>{}, att); }
            else if (alg == "dfs") { both(boost_lambda_dfs_visitor<G>{}, att); }
            else if (alg == "dijkstra") { both(boost_lambda_dijkstra_visitor<G>{}, att); }
            else if (alg == "astar") { both(boost_lambda_astar_visitor<G>{}, att); }
            else { both(boost_lambda_bellman_ford_visitor<G>{}, [&](auto& v) { attach_bf(v); }); }
        }
        if (foreign) { log.push_back(json{{"k", "foreign"}, {"i", 0}}); }
        return json{{"v", log}};
    }
};

struct S {
    json op(json const& o) {
        if (o["dir"] == "bi") { return Run<GraphT<boost::bidirectionalS>>{}.op(o); }
        return Run<GraphT<boost::directedS>>{}.op(o);
    }
};
VH_MAIN(S)
