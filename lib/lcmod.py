"""Local Clifford equivalence (P17) and the flow space (P27)."""
import itertools
import numpy as np
import vk, gen
import mentpy as mp
from mentpy.utils import are_lc_equivalent, FlowSpace
from mentpy.utils.expressivity import lc_cluster_flowspace


def build(rng, n, es, names, kind=None):
    g = mp.GraphState()
    order = list(range(n))
    rng.shuffle(order)
    es = [e if rng.random() < 0.5 else e[::-1] for e in rng.sample(es, len(es))]
    if rng.random() < 0.7:
        g.add_nodes_from(names[v] for v in order)
    g.add_edges_from((names[a], names[b]) for a, b in es)
    g.add_nodes_from(names[v] for v in order)
    gen.dress(rng, g)
    if names == list(range(n)) and rng.random() < 0.25:
        return mp.MBQCircuit(g, input_nodes=[], output_nodes=[])
    return g


def lc(es, v):
    """Local complementation (used to aim at equivalent pairs; the specification applies its own)."""
    nb = [w for e in es for w in e if v in e and w != v]
    out = {tuple(sorted(e)) for e in es}
    for p in itertools.combinations(sorted(nb), 2):
        out ^= {p}
    return sorted(out)


def tensors(q):
    try:
        return [[int(x) for x in (m[0][0], m[0][1], m[1][0], m[1][1])] for m in q]
    except Exception:
        return [[-1]]


def ask(rng, n, g, h, by, seq):
    names = rng.choice([list(range(n))] * 3 + [sorted(rng.sample(range(-30, 30), n)), sorted(rng.sample("abcdefghijkl", n))])
    G, H = build(rng, n, g, names), build(rng, n, h, names)
    e = {"op": "pair", "n": n, "g": [list(x) for x in g], "h": [list(x) for x in h], "by": by, "seq": list(seq), "res": "ok",
         "tensor": {"eq": False, "q": [], "none": True}, "global": {"eq": False, "q": [], "none": True, "diag": True}}
    r = vk.attempt(lambda: are_lc_equivalent(G, H) if rng.random() < 0.5 else are_lc_equivalent(G, H, clifford_form="tensor"))
    s = vk.attempt(lambda: are_lc_equivalent(G, H, clifford_form="global"))
    if r[0] != "ok" or s[0] != "ok":
        e["res"] = "error"
        return e
    e["tensor"] = {"eq": bool(r[1][0]), "none": r[1][1] is None, "q": tensors(r[1][1]) if r[1][1] is not None else []}
    M = s[1][1]
    d = {"eq": bool(s[1][0]), "none": M is None, "q": [], "diag": True}
    if M is not None:
        M = np.array(M)
        ok = M.shape == (2 * n, 2 * n)
        if ok:
            A, B, C, D = M[:n, :n], M[:n, n:], M[n:, :n], M[n:, n:]
            ok = all(np.array_equal(x, np.diag(np.diag(x))) for x in (A, B, C, D))
            d["q"] = [[int(x[i, i]) for x in (A, B, C, D)] for i in range(n)]
        d["diag"] = bool(ok)
    e["global"] = d
    return e


def p17(c):
    rng = c.rng
    c.model("MC_LC", "MC_LC.cfg")
    c.model("MC_LC", "MC_LC_4.cfg" if c.quick else "MC_LC_t.cfg")
    traces = []

    def add(n, g, h, by=False, seq=()):
        e = c.guard(ask, rng, n, g, h, by, seq, case=[n, g, h])
        if e:
            traces.append({"ev": [e], "case": e})
            c.count(f"{n} nodes" + (", by local complementations" if by else ""))

    def graphs(n):
        es = gen.edges_all(n)
        return [[e for i, e in enumerate(es) if k >> i & 1] for k in range(2 ** len(es))]
    # every pair of graphs on up to three nodes; on four nodes all, or every class against a sample
    for n in (1, 2, 3):
        for g in graphs(n):
            for h in graphs(n):
                add(n, g, h)
    g4 = graphs(4)
    for g in g4:
        for h in (rng.sample(g4, 12) if c.quick else g4):
            add(4, g, h)
    for _ in range(c.n(700, 6000)):
        n = rng.choice([4, 5, 5, 6])
        g = gen.rand_graph(rng, n)
        h, seq = [tuple(sorted(e)) for e in g], []
        for _ in range(rng.randint(0, 12)):
            v = rng.randrange(n)
            h = lc(h, v)
            seq.append(v)
        z = rng.random()
        if z < 0.45:
            add(n, g, h, True, seq)
        elif z < 0.8:      # close to the orbit
            h = sorted(set(h) ^ {rng.choice(gen.edges_all(n))})
            add(n, g, h)
        elif z < 0.9:
            add(n, g, gen.rand_graph(rng, n))
        else:              # the same graph up to an isomorphism
            p = rng.sample(range(n), n)
            add(n, g, [tuple(sorted((p[a], p[b]))) for a, b in h])
    for _ in range(c.n(150, 1500)):   # larger graphs, along sequences of local complementations
        n = rng.choice([6, 7, 8, 9])
        g = gen.rand_graph(rng, n, rng.choice([0.15, 0.3, 0.5]))
        h, seq = [tuple(sorted(e)) for e in g], []
        for _ in range(rng.randint(0, 25)):
            v = rng.randrange(n)
            h = lc(h, v)
            seq.append(v)
        add(n, g, h, True, seq)
    # graphs of different sizes are not equivalent
    for _ in range(20):
        a, b = rng.sample(range(1, 5), 2)
        r = vk.attempt(lambda: are_lc_equivalent(build(rng, a, gen.rand_graph(rng, a), list(range(a))), build(rng, b, gen.rand_graph(rng, b), list(range(b)))))
        if r[0] == "ok" and r[1][0]:
            c.fails.append({"clauses": ["different-sizes-equivalent"], "event": 0, "spec": "LC", "key": "sizes", "case": [a, b]})
    for lo in range(0, len(traces), 4000):
        c.validate("T_LC", traces[lo:lo + 4000], cfg="LCReplay.cfg", timeout=800)


def p27(c):
    rng = c.rng
    c.model("MC_LC", "MC_LC.cfg")
    c.model("MC_Flow", "MC_Flow.cfg")
    traces = []

    def space(n, I, O):
        g = mp.GraphState()
        g.add_nodes_from(range(n))
        g.add_edges_from(gen.rand_graph(rng, n))
        circ = mp.MBQCircuit(g, input_nodes=I, output_nodes=O)
        kw = {"allow_any_size_graphs": rng.random() < 0.5} if rng.random() < 0.5 else {}
        r = vk.attempt(lambda: FlowSpace(circ, **kw), 300)
        e = {"op": "space", "n": n, "I": I, "O": O, "res": "ok" if r[0] == "ok" else "error"}
        c.count(f"spaces of {n} nodes")
        if r[0] != "ok":
            traces.append({"ev": [e], "case": {**e, "error": r[2]}})
            return
        fs = r[1]
        T = fs.total_graph_space
        names = list(T.nodes)
        idx = {x: i + 1 for i, x in enumerate(names)}
        circs = [T.nodes[x]["mbqc_circuit"] for x in names]
        e["graphs"] = [[list(p) for p in x.graph.edges] for x in circs]
        e["joined"] = [[idx[a], idx[b]] for a, b in T.edges]
        e["withflow"] = [idx[x] for x in fs.flow_graph_space.nodes]
        e["noflow"] = [idx[x] for x in fs.no_flow_graph_space.nodes]
        e["flowjoined"] = [[idx[a], idx[b]] for a, b in fs.flow_graph_space.edges]
        e["noflowjoined"] = [[idx[a], idx[b]] for a, b in fs.no_flow_graph_space.edges]
        e["labelled"] = [idx[x] for x in names if T.nodes[x]["flow"]]
        e["circuits"] = all(list(x.input_nodes) == I and list(x.output_nodes) == O and sorted(x.graph.nodes) == list(range(n))
                            and (x.flow is not None) == bool(T.nodes[y]["flow"]) for x, y in zip(circs, names)) \
            and fs.number_nodes == n and list(fs.input_nodes) == I and list(fs.output_nodes) == O
        traces.append({"ev": [e], "case": {"n": n, "I": I, "O": O}})
        for sp in rng.sample([T, fs.flow_graph_space, fs.no_flow_graph_space], 1 if n == 5 else 2):
            nm = list(sp.nodes)
            if n == 5 or not nm:
                k = rng.sample(nm, min(len(nm), 60))
                sp = sp.subgraph(k)
                nm = list(sp.nodes)
            if not nm:
                continue
            ix = {x: i + 1 for i, x in enumerate(nm)}
            q = vk.attempt(lambda: lc_cluster_flowspace(sp) if rng.random() < 0.5 else lc_cluster_flowspace(sp, sanity_check=False), 300)
            f = {"op": "cluster", "n": n, "graphs": [[list(p) for p in sp.nodes[x]["mbqc_circuit"].graph.edges] for x in nm],
                 "res": "ok" if q[0] == "ok" else "error", "groups": [], "matching": True}
            if q[0] == "ok":
                ind, gs = q[1]
                f["groups"] = [[ix.get(x, 0) for x in v] for v in ind.values()]
                f["matching"] = list(ind) == list(gs) and all(
                    len(ind[k]) == len(gs[k]) and all(sp.nodes[x]["mbqc_circuit"].graph is y or
                                                      set(map(frozenset, sp.nodes[x]["mbqc_circuit"].graph.edges)) == set(map(frozenset, y.edges))
                                                      for x, y in zip(ind[k], gs[k])) for k in ind)
            c.count("clusterings")
            traces.append({"ev": [f], "case": {"cluster": f["graphs"][:10], "groups": f["groups"], "error": q[2] if q[0] == "raise" else ""}})

    ios = {n: list(gen.io_sets(n)) for n in (1, 2, 3, 4)}
    for n in (1, 2, 3):
        for I, O in (ios[n] if n < 3 or not c.quick else rng.sample(ios[n], 12)):
            c.guard(space, n, rng.sample(I, len(I)), rng.sample(O, len(O)), seconds=300)
    for I, O in rng.sample(ios[4], c.n(8, 50)):
        c.guard(space, 4, rng.sample(I, len(I)), rng.sample(O, len(O)), seconds=300)
    # five nodes and disjoint pairs of inputs and outputs: the smallest spaces where some graphs have a generalised flow only
    for i in range(c.n(1, 3)):
        x = rng.sample(range(5), 4)
        c.guard(space, 5, x[:2], x[2:], seconds=300)
    for _ in range(c.n(0, 2)):
        k = rng.randint(1, 2)
        c.guard(space, 5, rng.sample(range(5), k), rng.sample(range(5), k), seconds=300)
    for n in (8, 9, 12):
        circ = mp.templates.linear_cluster(n)
        r = vk.attempt(lambda: FlowSpace(circ) if rng.random() < 0.5 else FlowSpace(circ, allow_any_size_graphs=False), 3)
        traces.append({"ev": [{"op": "limit", "res": "ok" if r[0] == "ok" or r[1] == "Timeout" else "error"}], "case": {"limit": n, "result": r[1:2]}})
    c.validate("T_LC", traces, cfg="LCReplay.cfg", timeout=800)
