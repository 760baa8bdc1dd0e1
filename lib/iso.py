"""Graph states compared with each other (P34)."""
import copy, itertools
import networkx as nx
import vk, gen
import mentpy as mp

# pairs with as many nodes and edges, and as many of each degree
TWINS = [
    ([(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]),
    ([(a, b) for a in range(3) for b in range(3, 6)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
    ([(i, (i + 1) % 8) for i in range(8)], [(i, (i + 1) % 4) for i in range(4)] + [(4 + i, 4 + (i + 1) % 4) for i in range(4)]),
    ([(0, 1), (1, 2), (2, 3), (3, 4), (1, 5)], [(0, 1), (1, 2), (2, 3), (3, 4), (2, 5)]),
    ([(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (2, 6)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (1, 6)]),
    ([(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (2, 5)]),
    ([(i, (i + 1) % 4) for i in range(4)] + [(4 + i, 4 + (i + 1) % 4) for i in range(4)] + [(i, i + 4) for i in range(4)],
     [(i, (i + 1) % 8) for i in range(8)] + [(i, i + 4) for i in range(4)]),
    ([(0, 1), (2, 3)], [(0, 1), (1, 2)]),
    ([(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3)]),
    ([(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 0)]),
]


def p34(c):
    rng = c.rng
    c.model("MC_Iso", "MC_Iso.cfg" if c.quick else "MC_Iso_t.cfg")
    PERM = {"node": "add_node", "edge": "add_edge", "del": "remove_node", "cut": "remove_edge"}

    def names():
        return rng.choice([list(range(12)), rng.sample(range(-50, 50), 12), list("bacdxyzuvmno"), [(i, 0) for i in range(12)]])

    def history():
        ev, L = [], [names(), names()]
        if rng.random() < 0.5:
            L[1] = L[0]
        inv = [{x: i for i, x in enumerate(l)} for l in L]
        n = rng.randint(1, 8)
        z = rng.random()
        if z < 0.35:
            two = rng.choice(TWINS)
            two = list(two) if rng.random() < 0.7 else [two[0], two[0]]
            n = max(max(max(e) for e in es) for es in two) + 1
        else:
            first = [p for p in itertools.combinations(range(n), 2) if rng.random() < rng.choice([0.2, 0.5, 0.8])]
            two = [first, first]
            if rng.random() < 0.25 and n > 2:
                second = rng.sample(list(itertools.combinations(range(n), 2)), len(first))
                two = [first, second]
        g = [None, None]
        for i in (0, 1):
            ids = rng.sample(range(12), n)
            es = [(ids[a], ids[b]) if rng.random() < 0.5 else (ids[b], ids[a]) for a, b in two[i]]
            rng.shuffle(es)
            g[i] = mp.GraphState()
            g[i].add_nodes_from(L[i][v] for v in ids)
            g[i].add_edges_from((L[i][a], L[i][b]) for a, b in es)
            gen.dress(rng, g[i])
            y = rng.random()
            if y < 0.15:
                g[i] = copy.deepcopy(g[i])
            elif y < 0.3:
                g[i] = mp.GraphState(g[i])
            elif y < 0.4:
                g[i] = g[i].copy()
            ev.append({"op": "build", "side": i + 1, "ok": True, "nodes": ids, "edges": [list(e) for e in es]})

        def look():
            i = rng.randrange(2)
            a, b = g
            if rng.random() < 0.15:
                b = nx.Graph(b)     # any graph can be compared with
            r = vk.attempt(lambda: (a == b, b == a, a != b, b in [a], g[0] == g[0] and g[1] == g[1], len(g[i]), str(len(g[i])) in repr(g[i])))
            e = {"op": "look", "side": i + 1, "ok": r[0] == "ok"}
            if e["ok"]:
                e.update(eq=bool(r[1][0]), qe=bool(r[1][1]), ne=bool(r[1][2]), isin=bool(r[1][3]), self=bool(r[1][4]), len=int(r[1][5]), text=r[1][6],
                         seen=[[x.number_of_nodes(), x.number_of_edges()] for x in g])
                c.count("equal" if e["eq"] else "different")
            ev.append(e)
        look()
        for _ in range(rng.randint(0, 6)):
            i = rng.randrange(2)
            op = rng.choice(["node", "edge", "edge", "del", "cut", "cut"])
            x = g[i]
            if op == "node":
                v, w = rng.randrange(12), 0
            elif op == "edge":
                v, w = rng.sample(range(12) if rng.random() < 0.3 or len(x) < 2 else [inv[i][y] for y in x.nodes], 2)
            elif op == "del" and len(x) > 1:
                v, w = inv[i][rng.choice(list(x.nodes))], 0
            elif op == "cut" and x.number_of_edges():
                v, w = (inv[i][y] for y in rng.choice(list(x.edges)))
            else:
                continue
            if len(x) > 8 and op in ("node", "edge"):
                continue
            one = L[i][v]
            r = vk.attempt(lambda: getattr(x, PERM[op])(one) if op in ("node", "del") else getattr(x, PERM[op])(one, L[i][w]))
            ev.append({"op": op, "side": i + 1, "ok": r[0] == "ok", "v": v, "w": w})
            if rng.random() < 0.7:
                look()
        look()
        return {"ev": ev, "case": [ev, [str(l) for l in L]]}

    traces = [t for t in (c.guard(history) for _ in range(c.n(500, 5000))) if t]
    for lo in range(0, len(traces), 2000):
        c.validate("T_Iso", traces[lo:lo + 2000], cfg="IsoReplay.cfg")
    c.assumptions.append("graphs of up to ten nodes")
