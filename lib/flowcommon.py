"""Recorder of the flow finders' answers (P01, P02)."""
import contextlib, io, itertools, random, warnings
import vk, gen
import mentpy as mp
from mentpy.mbqc import flow as mflow


def build(rng, n, es, labels):
    g = mp.GraphState()
    order = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(order)
    g.add_nodes_from(labels[v] for v in order)
    es = list(es)
    rng.shuffle(es)
    g.add_edges_from((labels[a], labels[b]) if rng.random() < 0.5 else (labels[b], labels[a]) for a, b in es)
    return gen.dress(rng, g)


def num(d):
    try:
        return int(d) if int(d) == d and abs(int(d)) < 10**6 else -99
    except Exception:
        return -99


def observe(r, idx, n, kind):
    """Projects (func, order, depth, layers dict) to integers."""
    if r[0] == "raise":
        return {"res": r[1], "f": [], "g": [], "ly": [], "po": [], "depth": -1, "listed": False, "layers": []}
    func, po, depth, ly, layers, dom = r[1]
    if func is None:
        return {"res": "none", "f": [], "g": [], "ly": [], "po": [], "depth": -1, "listed": False, "layers": []}
    inv = {l: i for i, l in enumerate(idx)}
    at = lambda x: inv.get(x, -1) if not isinstance(x, (set, list, dict)) else -1
    ev = {"res": "flow", "f": [], "g": [], "depth": num(depth), "listed": layers is not None}
    for l in dom:
        try:
            w = func(l)
        except Exception:
            continue
        if kind == "gflow":
            try:
                ev["g"].append([at(l), sorted({at(x) for x in w})])
            except Exception:
                ev["g"].append([at(l), [-2]])
        elif kind == "cflow":
            try:
                ev["f"].append([at(l), at(w)])
            except Exception:
                ev["f"].append([at(l), -2])
    ev["po"] = [[inv[a], inv[b]] for a in idx for b in idx if bool(po(a, b))]
    ev["ly"] = [] if ly is None else [[at(l), num(x)] for l, x in ly.items()]
    ev["layers"] = [] if layers is None else [[at(l) for l in layer] for layer in layers]
    return ev


def quiet(fn, *a):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a)


def old_finder(g, labels, Il, Ol, dom, n):
    def call():
        f, po = quiet(mflow.find_flow, g, list(Il), list(Ol))
        return f, po, 0, None, None, dom
    return dict(op="oldfinder", **observe(vk.attempt(call), labels, n, "cflow"))


def checker(rng, g, n, es, I, O, labels, Ol):
    """Asks check_if_flow about a function and an order, mostly a flow or one step away from it."""
    nb = {v: set() for v in range(n)}
    for a, b in es:
        nb[a].add(b)
        nb[b].add(a)
    Oc = [v for v in range(n) if v not in O]
    if any(not nb[v] for v in Oc):
        return None
    f = {v: rng.choice(sorted(nb[v])) for v in Oc}
    po = {(v, w) for v in Oc for w in ({f[v]} | nb[f[v]]) - {v}}
    if rng.random() < 0.4:
        po |= {(a, b) for a in range(n) for b in range(n) if rng.random() < 0.2}
    if rng.random() < 0.3:
        po |= {(v, v) for v in range(n)}
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if po and rng.random() < 0.7:
            po.discard(rng.choice(sorted(po)))
        elif Oc:
            v = rng.choice(Oc)
            w = f[v] = rng.choice(I) if I and rng.random() < 0.3 else rng.randrange(n)
            if rng.random() < 0.6:      # only the neighbour condition may fail
                po |= {(v, x) for x in ({w} | nb[w]) - {v}}
    num_of = {l: i for i, l in enumerate(labels)}
    r = vk.attempt(lambda: bool(quiet(
        mflow.check_if_flow, g, [labels[i] for i in I], list(Ol),
        lambda l: labels[f[num_of[l]]], lambda a, b: (num_of[a], num_of[b]) in po)))
    return {"op": "checker", "f": [list(p) for p in f.items()], "po": [list(p) for p in sorted(po)],
            "res": "ok" if r[0] == "ok" else r[1], "ans": r[0] == "ok" and r[1]}


def object_order(g, labels, Il, Ol):
    r = vk.attempt(lambda: mflow.Flow(g, list(Il), list(Ol)).measurement_order)
    if r[0] == "raise":
        return {"op": "order", "res": r[1], "seq": []}
    inv = {l: i for i, l in enumerate(labels)}
    return {"op": "order", "res": "none" if r[1] is None else "flow", "seq": [inv.get(x, -1) for x in r[1] or []]}


def trace(c, n, es, I, O, gflow, rng):
    labels = gen.labelings(rng, n)
    g = build(rng, n, es, labels)
    Il, Ol = [labels[i] for i in I], [labels[o] for o in O]
    dom = [l for l in labels if l not in Ol]
    kind = "gflow" if gflow else "cflow"
    evs = []
    finder = mflow.find_gflow if gflow else mflow.find_cflow
    if len(I) == len(O) or not gflow:
        def call():
            f, po, d, ly = finder(g, list(Il), list(Ol))
            return f, po, d, ly, None, dom
        evs.append(dict(op=kind, **observe(vk.attempt(call), labels, n, kind)))

    def obj():
        f = mflow.Flow(g, list(Il), list(Ol))
        return f.func, f.partial_order, f.depth, f.layers_dict, f.layers, dom
    evs.append(dict(op="object", **observe(vk.attempt(obj), labels, n, "object")) if gflow else
               None)
    if not gflow:
        evs.pop()

    def circ():
        m = mp.MBQCircuit(g, input_nodes=list(Il), output_nodes=list(Ol))
        if m.flow is None:
            if m.partial_order is not None or m.measurement_order is not None:
                raise AssertionError("order without a flow")
            if gflow:
                ls = m.ordered_layers()
                if ls is None:
                    return None, None, None, None, None, dom
                return m.gflow.func, m.gflow.partial_order, m.depth, None, ls, range(n)
            return None, None, None, None, None, dom
        return m.flow, m.partial_order, m.depth, None, m.ordered_layers(), [v for v in range(n) if v not in O]
    r = vk.attempt(circ)
    evs.append(dict(op="object" if gflow else "circuit", **observe(r, list(range(n)), n, "object" if gflow else "cflow")))
    if len(I) == len(O):
        if gflow or n <= 12:
            evs.append(object_order(g, labels, Il, Ol))
    if not gflow and n <= 12 and rng.random() < 0.6:
        evs.append(old_finder(g, labels, Il, Ol, dom, n))
        evs += [e for e in [checker(rng, g, n, es, I, O, labels, Ol)] if e]
    c.count("answers", len(evs))
    for e in evs:
        if e["op"] == "checker":
            c.count("checker says " + str(e["ans"]))
        c.count(e["op"] + ":" + e["res"])
    return {"n": n, "edges": [list(e) for e in es], "I": I, "O": O, "gflow": gflow, "ev": evs,
            "case": {"n": n, "edges": [list(e) for e in es], "I": I, "O": O, "labels": [str(x) for x in labels]}}


def chain(c, rng, n):
    """A chain too long for the general search of the specification."""
    labels = list(range(n))
    rng.shuffle(labels)
    g = mp.GraphState()
    g.add_edges_from(rng.sample(list(zip(labels, labels[1:])), n - 1))
    inv = {l: i for i, l in enumerate(labels)}
    r = vk.attempt(lambda: mflow.find_cflow(g, [labels[0]], [labels[-1]]), 60)
    e = {"op": "chain", "res": r[1] if r[0] == "raise" else "none", "f": [], "ly": [], "depth": -1}
    if r[0] == "ok" and r[1][0] is not None:
        f, _, d, ly = r[1]
        e.update(res="flow", f=[inv.get(f(v), -1) for v in labels[:-1]], ly=[num(ly[v]) for v in labels], depth=num(d))
    c.count("chains")
    return {"n": n, "edges": [], "I": [0], "O": [n - 1], "gflow": False, "ev": [e], "case": {"chain": n}}


def run(c, gflow):
    c.model("MC_Flow", "MC_Flow.cfg" if c.quick else "MC_Flow_t.cfg")
    rng = c.rng
    cases = []
    # every open graph with at most 3 nodes, unequal sizes included
    for n in (1, 2, 3):
        alle = gen.edges_all(n)
        for mask in range(2 ** len(alle)):
            es = [e for i, e in enumerate(alle) if mask >> i & 1]
            for I, O in gen.io_sets(n, equal=(n == 3)):
                cases.append((n, es, I, O))
    # four nodes: all of them, or a sample
    four = []
    alle = gen.edges_all(4)
    for mask in range(64):
        es = [e for i, e in enumerate(alle) if mask >> i & 1]
        for I, O in gen.io_sets(4):
            four.append((4, es, I, O))
    cases += rng.sample(four, 700) if c.quick else four
    for _ in range(c.n(900, 6000)):
        n = rng.randint(3, 12) if rng.random() < 0.85 else rng.randint(13, 18)
        k = rng.randint(1, max(1, n // 2))
        cases.append((n, *gen.planted(rng, n, k, keep_flow=rng.random() < 0.7)))
    for _ in range(c.n(300, 3000)):
        n = rng.randint(4, 8)
        k = rng.randint(1, n - 1)
        cases.append((n, gen.rand_graph(rng, n), rng.sample(range(n), k), rng.sample(range(n), k)))
    for _ in range(60):  # sizes differ
        n = rng.randint(2, 6)
        a, b = rng.sample(range(0, n + 1), 2)
        cases.append((n, gen.rand_graph(rng, n), rng.sample(range(n), a), rng.sample(range(n), b)))
    # long chains and grids with many layers
    for n in (15, 20, 30) if not gflow else (10, 14):
        cases.append((n, [(i, i + 1) for i in range(n - 1)], [0], [n - 1]))
    for r, w in ((2, 6), (3, 4), (3, 5)) if not gflow else ((2, 6), (3, 4), (3, 5)):
        es = [(a * w + b, a * w + b + 1) for a in range(r) for b in range(w - 1)]
        es += [(a * w + b, (a + 1) * w + b) for a in range(r - 1) for b in range(w)]
        cases.append((r * w, es, [a * w for a in range(r)], [a * w + w - 1 for a in range(r)]))
    traces = [t for t in (c.guard(trace, c, *cs, gflow, rng, case=cs) for cs in cases) if t]
    if not gflow:
        for n in c.n((101, 400, 1300), (101, 400, 990, 1010, 1300, 3000)):
            traces.append(c.guard(chain, c, rng, n, case={"chain": n}))
    c.validate("T_Flow", [t for t in traces if t])
    c.cov["exhaustive_up_to_nodes"] = 3 if c.quick else 4
    c.assumptions = ["graphs above the exhaustive bound are sampled", "TLC evaluates OpenGraph.tla correctly"]
