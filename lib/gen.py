"""Generators shared by the checks: open graphs, circuits, labels."""
import itertools, random


def edges_all(n):
    return list(itertools.combinations(range(n), 2))


def rand_graph(rng, n, p=None):
    p = rng.choice([0.2, 0.35, 0.5, 0.8]) if p is None else p
    return [e for e in edges_all(n) if rng.random() < p]


def planted(rng, n, k, extra=None, overlap=0.15, keep_flow=True):
    """Open graph with k disjoint paths through n nodes and extra edges; if keep_flow, an edge
    is only added when a causal flow along the paths survives. Returns edges, I, O (lists)."""
    nodes = list(range(n))
    rng.shuffle(nodes)
    k = min(k, n)
    wires = [[nodes[i]] for i in range(k)]
    for v in nodes[k:]:
        w = rng.randrange(k)
        if len(wires[w]) == 1 and rng.random() < overlap and k > 1:
            w = rng.randrange(k)
        wires[w].append(v)
    I = [w[0] for w in wires]
    O = [w[-1] for w in wires]
    es = {tuple(sorted(p)) for w in wires for p in zip(w, w[1:])}
    f = {a: b for w in wires for a, b in zip(w, w[1:])}
    extra = rng.randint(0, n) if extra is None else extra
    for _ in range(extra):
        if n < 2:
            break
        e = tuple(sorted(rng.sample(range(n), 2)))
        if e in es:
            continue
        if keep_flow and not acyclic(n, es | {e}, f):
            continue
        es.add(e)
    idx = list(range(k))
    rng.shuffle(idx)
    es = list(es)
    rng.shuffle(es)
    es = [e if rng.random() < 0.5 else (e[1], e[0]) for e in es]
    if rng.random() < 0.7:
        I, O = [I[i] for i in idx], [O[i] for i in idx]
    else:
        rng.shuffle(I)
        rng.shuffle(O)
    return es, I, O


def acyclic(n, es, f):
    nb = {v: set() for v in range(n)}
    for a, b in es:
        nb[a].add(b)
        nb[b].add(a)
    succ = {v: set() for v in range(n)}
    for v, w in f.items():
        succ[v].add(w)
        succ[v] |= nb[w] - {v}
    left = set(range(n))
    while left:
        src = [v for v in left if not any(v in succ[u] for u in left)]
        if not src:
            return False
        left -= set(src)
    return True


def io_sets(n, equal=True):
    subs = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
    for a in subs:
        for b in subs:
            if not equal or len(a) == len(b):
                yield list(a), list(b)


def labelings(rng, n):
    """Sorted-order-preserving relabelings of 0..n-1, as lists of labels."""
    kind = rng.choice(["id", "id", "gap", "neg", "str", "float", "tuple", "id10"])
    if kind == "id":
        return list(range(n))
    if kind == "gap":
        return sorted(rng.sample(range(100), n))
    if kind == "id10":
        return list(range(10 - n, 10)) if rng.random() < 0.5 else list(range(1, n + 1))
    if kind == "tuple":
        return sorted(rng.sample([(a, b) for a in range(-3, 5) for b in range(12)], n))
    if kind == "neg":
        return sorted(rng.sample(range(-50, 50), n))
    if kind == "str":
        return sorted(rng.sample([a + b for a in "abcxyz" for b in "0123456789"], n))
    return [x + 0.5 for x in sorted(rng.sample(range(60), n))]


def dress(rng, g, p=0.12):
    """Attributes that users may hang on the edges of a graph (none of them means anything to a graph state)."""
    if rng.random() < p:
        for a, b in g.edges:
            if rng.random() < 0.7:
                g[a][b][rng.choice(["weight", "weight", "weight", "color", "capacity"])] = rng.choice([0, 0.5, 2, 3, -1, 1])
    return g
