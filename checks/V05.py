import vbuild

KINDS = ["initialize_vertex", "discover_vertex", "examine_vertex", "examine_edge", "tree_edge", "non_tree_edge", "gray_target", "black_target", "finish_vertex"]
BF = ["examine_edge", "edge_relaxed", "edge_not_relaxed", "edge_minimized", "edge_not_minimized"]


def run(c):
    inv = ["BfsExact", "DfsExact", "DfsNest", "EveryEdgeOnce", "BfSettled"]
    c.model_check("GraphSearchMC", c.cfg(constants=dict(N=2, MaxE=c.pick(3, 4)), invariants=inv))
    c.model_check("GraphSearchMC", c.cfg(constants=dict(N=3, MaxE=c.pick(2, 3)), invariants=inv), timeout=800)
    gs = c.generate("GraphSearchMC", c.cfg(constants=dict(N=3, MaxE=c.pick(2, 3)), invariants=["EmitGraph"]), workers=1)
    exe = vbuild.build("V05", ["V05.cpp"])
    r = c.rng
    ops = []

    def add(g, root, on=None):
        for alg in ("bfs", "dfs", "bf"):
            kinds = BF if alg == "bf" else KINDS
            o = list(kinds) if on is None else r.sample(kinds, r.randrange(1, len(kinds)))
            # bidirectional graphs list edges in insertion order: use them only where the order of out-edges is all that counts
            ops.append(dict(op="search", alg=alg, g=g, r0=root, on=o, dir=r.choice(["uni", "bi"]) if alg != "bf" else "uni"))
    for x in gs:
        add(x["g"], x["r"])
    for _ in range(c.pick(1200, 12000)):
        n = r.randrange(1, 7)
        e = [dict(f=r.randrange(n), t=r.randrange(n), w=r.choice([-2, -1, 0, 1, 2, 3, 5])) for _ in range(r.randrange(0, 2 * n + 2))]
        add(dict(n=n, e=e), r.randrange(n), on=r.choice([None, 1]))
    g = dict(n=2, e=[dict(f=0, t=1, w=1), dict(f=1, t=0, w=2)])
    for alg in ("bfs", "dfs", "dijkstra", "astar", "bf"):
        kinds = BF if alg == "bf" else KINDS
        for k in kinds:
            for on in ([k], [x for x in kinds if x != k], kinds, []):
                ops.append(dict(op="fire", alg=alg, g=g, on=list(on), e=dict(k=k, i=1), dir="uni"))
    recs = c.replay("GraphSearchTrace", [exe], [dict(ops=[o]) for o in ops])

    def mutate(x):
        e = x["ev"][0]
        if e["op"] == "search" and len(e["r"]["v"]) > 3:
            v = e["r"]["v"]
            v[0], v[-1] = v[-1], v[0]
            return v[0] != v[-1]
    c.binding_selftest("GraphSearchTrace", recs, mutate)
