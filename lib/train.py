"""Costs over circuits, their gradients, kernels and gradient variances (P31)."""
import math
import numpy as np
import vk
import mentpy as mp
from mentpy.gradients import get_gradient, get_hessian
from sim import Batch, Angles, rand_pat, rand_state, random_extension, val, vec, bad, XYP, retrain

R2 = math.sqrt(2)


def num(p):
    return p[0] + p[1] * R2


def frac(f):
    return num(f["num"]) / (num(f["dens"][0]) * num(f["dens"][1]))


def avg_infidelity(fs):
    return 1 - sum(frac(f) for f in fs) / len(fs)


def pattern_event(pat, circ, train):
    order = [v for v in circ.measurement_order if v in pat.ments]
    ms = [{"p": pat.ments[v]["p"], "free": pat.ments[v]["free"], "t": pat.ments[v]["t"]} if v in pat.ments else
          {"p": "X", "free": False, "t": [0, 0]} for v in range(pat.n)]
    return {"n": pat.n, "edges": pat.edges, "I": pat.I, "O": pat.O, "order": order, "train": train, "ms": ms}


def pick(rng, nmax, backends, need=1, measured=0.1):
    """A circuit with a flow and a trainable angle, and a backend that can run it."""
    while True:
        be = rng.choice(backends)
        pat = rand_pat(rng, rng.choice(range(2, nmax + 1)), XYP, True, measured_out=0 if be == "pennylane" else measured, nmin=2, kmax=2,
                       ang=Angles(rng, 1))
        if not pat.qout():
            continue
        circ = pat.build(rng)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        if len(train) >= need:
            if rng.random() < 0.3:
                circ.measurement_order = random_extension(rng, circ)
            return be, pat, circ, train


def make_cost(rng, circ, be, ins, targets, how):
    """The cost of the tutorials, in the ways users write it."""
    kw = {"backend": be} if be != "pennylane" or rng.random() < 0.5 else {}
    ps = mp.PatternSimulator(circ, **kw)
    direct = how["direct"]

    def predict(x, st):
        if how["style"] == "reset":
            ps.reset(input_state=st)
            return ps(x)
        if how["style"] == "reset-pos":
            ps.reset(st)
            return ps.run(x)
        if how["style"] == "run":
            return ps.run(x, input_state=st)
        return mp.PatternSimulator(circ, input_state=st, **kw).run(x)

    def cost(x):
        tot = 0
        for st, t in zip(ins, targets):
            out = predict(x, st)
            if direct:
                tot += 1 - float(np.real(np.conj(t) @ np.asarray(out) @ t))
            else:
                tot += 1 - mp.calculator.fidelity(mp.calculator.pure2density(t), out)
        return tot / len(ins)
    return cost


def p31(c):
    rng = c.rng
    c.model("MC_Cost", "MC_Cost.cfg" if c.quick else "MC_Cost_t.cfg")
    b = Batch(c, "T_Cost")
    NP = ["numpy-sv", "numpy-dm"]

    def gradients():
        be, pat, circ, train = pick(rng, 5, NP * 3 + ["pennylane"], measured=0)
        k, q = len(pat.I), len(pat.qout())
        m = len(train)
        angles = [a() for a in [Angles(rng, 1)] for _ in range(m)]
        pairs = rng.choice([1, 2, 3]) if be != "pennylane" else 1
        ins, targets = [rand_state(rng, k) for _ in range(pairs)], [rand_state(rng, q) for _ in range(pairs)]
        hess = m <= 3 and be != "pennylane" and rng.random() < 0.25
        moves = [[]]
        for j in range(1, m + 1):
            moves += [[[j, 2]], [[j, -2]]]
        if hess:
            for i in range(1, m + 1):
                for j in range(1, m + 1):
                    moves += [[[i, s], [j, t]] for s in (2, -2) for t in (2, -2)]
        how = {"style": rng.choice(["reset", "reset-pos", "run", "new"]), "direct": rng.random() < 0.4}
        x = np.array([val(a) for a in angles])
        keep = x.copy()
        np_ins, np_t = [vec(s) for s in ins], [vec(s) for s in targets]
        fd = rng.random() < 0.2
        tol = 2e-3 if fd else 2e-5

        def go():
            cost = make_cost(rng, circ, be, np_ins, np_t, how)
            res = {"cost": cost(x)}
            res["grad"] = get_gradient(cost, x, "fd", h=1e-3) if fd else \
                rng.choice([lambda: get_gradient(cost, x), lambda: get_gradient(cost, x, "psr", rng.choice([0.7, math.pi / 2, 2.2]))])()
            if hess:
                res["hess"] = get_hessian(cost, x)
            if rng.random() < 0.3:
                rate = rng.choice([0.1, 0.5, 1.0])
                res["rate"] = rate
                res["step"] = mp.optimizers.SGDOptimizer(step_size=rate).optimize(cost, x, num_iters=1)
            res["again"] = cost(x)  # costs have no memory
            return res
        r = vk.attempt(go, 90)
        case = {"pattern": pat.desc(train, angles), "backend": be, "ins": ins, "targets": targets, "how": how, "fd": fd}
        c.count("gradients on " + be)

        def test(ans):
            if r[0] == "raise":
                return {"raised-" + r[1]}
            res, out = r[1], set()
            F = [avg_infidelity(f) for f in ans["f"]]
            g = np.array([(F[1 + 2 * j] - F[2 + 2 * j]) / 2 for j in range(m)])
            if not abs(res["cost"] - F[0]) < 2e-6:
                out.add("cost")
            if not abs(res["again"] - F[0]) < 2e-6:
                out.add("cost-changes")
            if np.shape(res["grad"]) != (m,) or not np.max(np.abs(res["grad"] - g)) < tol:
                out.add("gradient")
            if "step" in res and (np.shape(res["step"]) != (m,) or not np.max(np.abs(res["step"] - (x - res["rate"] * g))) < 1e-4):
                out.add("descent-step")
            if hess:
                at = 1 + 2 * m
                H = np.array([[(F[at + 4 * (i * m + j)] - F[at + 4 * (i * m + j) + 1] - F[at + 4 * (i * m + j) + 2] + F[at + 4 * (i * m + j) + 3]) / 4
                               for j in range(m)] for i in range(m)])
                c.count("hessians")
                if np.shape(res["hess"]) != (m, m) or not np.max(np.abs(res["hess"] - H)) < 5e-5:
                    out.add("hessian")
            if not np.array_equal(keep, x):
                out.add("point-modified")
            if any(not np.array_equal(a, vec(s)) for a, s in zip(np_ins + np_t, ins + targets)):
                out.add("data-modified")
            return out
        b.ask({"kind": "cost", "a": pattern_event(pat, circ, train), "angles": angles, "moves": moves, "ins": ins, "targets": targets},
              test, case)

    def kernels():
        be, pat, circ, train = pick(rng, 5, NP * 3 + ["pennylane"])
        m = len(train)
        nx, ny = (rng.randint(1, 3), rng.randint(1, 3)) if be != "pennylane" else (1, 2)
        xs, ys = [[[a() for _ in range(m)] for a in [Angles(rng, 1) for _ in range(n)]] for n in (nx, ny)]
        given = rng.random() < 0.6
        state = rand_state(rng, len(pat.I)) if given else [[1, 0, 0, 0]] * 2 ** len(pat.I)

        def go():
            ps = mp.PatternSimulator(circ, backend=be, **({"input_state": vec(state)} if given else {}))
            K = np.zeros((nx, ny))
            for i, a in enumerate(xs):
                ps.reset()
                s1 = ps([val(t) for t in a])
                for j, d in enumerate(ys):
                    ps.reset()
                    s2 = ps([val(t) for t in d])
                    K[i, j] = mp.calculator.fidelity(s1, s2)
            return K
        r = vk.attempt(go, 90)
        c.count("kernels")

        def test(ans):
            if r[0] == "raise":
                return {"raised-" + r[1]}
            want = np.array([[frac(f) for f in row] for row in ans["f"]])
            return set() if np.max(np.abs(want - r[1])) < 2e-6 else {"kernel"}
        b.ask({"kind": "kernel", "a": pattern_event(pat, circ, train), "xs": xs, "ys": ys, "in": state}, test,
              {"pattern": pat.desc(train), "xs": xs, "ys": ys, "backend": be, "in": state})

    def fidelities():
        k = rng.randint(1, 3)
        u = rand_state(rng, k)
        n = rng.randint(1, 4)
        vs, ws = [rand_state(rng, k) for _ in range(n)], [rng.randint(1, 3) for _ in range(n)]
        raw = [np.array([np.dot([1, np.exp(1j * np.pi / 4), 1j, np.exp(3j * np.pi / 4)], z) for z in v]) for v in vs]
        rho = sum(w * np.outer(v, v.conj()) for w, v in zip(ws, raw))
        rho = rho / np.trace(rho)
        t = mp.calculator.pure2density(vec(u))
        r1, r2 = vk.attempt(lambda: mp.calculator.fidelity(t, rho)), vk.attempt(lambda: mp.calculator.fidelity(rho, t))
        c.count("fidelities")

        def test(ans):
            if r1[0] == "raise" or r2[0] == "raise":
                return {"raised"}
            want = num(ans["num"]) / (num(ans["den"]) * num(ans["norm"]))
            return {cl for cl, r in (("fidelity", r1), ("fidelity-swapped", r2)) if not abs(r[1] - want) < 2e-6}
        b.ask({"kind": "mixed", "u": u, "ws": ws, "vs": vs}, test, {"u": u, "ws": ws, "vs": vs})

    def mixtures():
        k = rng.randint(1, 3)
        basis = np.eye(1)
        for _ in range(k):
            co, si = rng.choice([(1, 0), (0.6, 0.8), (0.8, 0.6), (1 / R2, 1 / R2)])
            ph = rng.choice([1, 1j, -1])
            basis = np.kron(basis, np.array([[co, -si * np.conj(ph)], [si * ph, co]]))
        p, q = [[rng.randint(0, 4) for _ in range(2 ** k)] for _ in range(2)]
        if not any(p) or not any(q):
            return
        mats = [sum(w * w * np.outer(basis[:, i], basis[:, i].conj()) for i, w in enumerate(ws)) / sum(w * w for w in ws) for ws in (p, q)]
        r1, r2 = vk.attempt(lambda: mp.calculator.fidelity(*mats)), vk.attempt(lambda: mp.calculator.fidelity(*mats[::-1]))
        c.count("mixed fidelities")

        def test(ans):
            if r1[0] == "raise" or r2[0] == "raise":
                return {"raised"}
            want = ans["num"] / (ans["dens"][0] * ans["dens"][1])
            return {cl for cl, r in (("mixed-fidelity", r1), ("mixed-fidelity-swapped", r2)) if not abs(r[1] - want) < 2e-6}
        b.ask({"kind": "commuting", "p": p, "q": q}, test, {"p": p, "q": q, "basis": np.round(basis, 3).tolist().__repr__()})

    def variances():
        from mentpy.optimizers.bp_tools import compute_gradient_variance
        n, d = rng.choice([rng.randint(1, 12), rng.randint(11, 32)]), rng.randint(1, 5)
        rows = [[rng.randint(-9, 9) for _ in range(d)] for _ in range(n)]
        it, seen = iter(rows), []
        extra = rng.choice([{}, {"shift": 0.3}, {"shift": 1, "type": "central"}])

        def f(x):
            return 0.0
        x = np.arange(d, dtype=float)
        keep = x.copy()

        def estimate(g, y, **kw):
            seen.append(g is f and np.array_equal(y, keep) and kw == extra)
            return np.array(next(it), dtype=float)
        r = vk.attempt(lambda: compute_gradient_variance(f, x, estimate, **({"num_samples": n} if n != 10 or rng.random() < 0.5 else {}), **extra))
        c.count("variances")

        def test(ans):
            if r[0] == "raise":
                return {"raised-" + r[1]}
            out = set()
            if len(seen) != n or not all(seen):
                out.add("samples-asked")
            want = np.array([a / q for a, q in ans["v"]])
            if np.shape(r[1]) != (d,) or not np.max(np.abs(r[1] - want)) < 1e-9:
                out.add("variance")
            return out
        b.ask({"kind": "variance", "samples": [list(z) for z in zip(*rows)]}, test, {"rows": rows, "kw": extra})

    for _ in range(c.n(170, 1800)):
        c.guard(gradients, seconds=200)
    for _ in range(c.n(60, 500)):
        c.guard(kernels, seconds=200)
    for _ in range(c.n(80, 800)):
        c.guard(fidelities)
        c.guard(mixtures)
    for _ in range(c.n(60, 600)):
        c.guard(variances)
    b.settle()


# --- P32: expressivity -----------------------------------------------------------------
def distances(counts, haar, bins):
    """The divergences between a histogram and densities at the midpoints of its bins."""
    n = sum(counts)
    p, q = [k / n for k in counts], [a / d / bins for a, d in haar]
    js_m = [(a / sum(p) + b / sum(q)) / 2 for a, b in zip(p, q)]

    def rel(a, b):
        return sum(x * math.log(x / y) for x, y in zip(a, b) if x > 0)
    return {"KL": rel(p, q) - sum(p) + sum(q), "RE": rel(p, q),
            "JS": math.sqrt(max(0, (rel([a / sum(p) for a in p], js_m) + rel([b / sum(q) for b in q], js_m)) / 2))}


def same_circuit(a, b):
    def key(x):
        return (sorted(x.graph.nodes), sorted(tuple(sorted(e)) for e in x.graph.edges), list(x.input_nodes), list(x.output_nodes))
    return isinstance(a, mp.MBQCircuit) and key(a) == key(b)


def small_circuit(rng, measured=False):
    while True:
        pat = rand_pat(rng, rng.choice([2, 3, 3, 4]), ["XY", "XY", "X", "Y"], True, measured_out=0, nmin=2, kmax=2, ang=Angles(rng, 0))
        if rng.random() < 0.4:
            for m in pat.ments.values():
                if m["free"] and rng.random() < 0.5:
                    m.update(p="X", free=False)
        circ = pat.build(rng)
        if len(circ.trainable_nodes) <= 2:
            return pat, circ


def long_wire(rng):
    """One wire whose trainable angles work together: the average over a part of their range is another one."""
    from sim import Pat, fixed_ment
    k = 3
    es = [(v, v + 1) for v in range(k)]
    fixed = rng.randrange(k)
    ments = {v: fixed_ment("XY", free=True) if v != fixed else fixed_ment("XY", (rng.choice([2, 6, -2]), 0)) for v in range(k)}
    pat = Pat(k + 1, es, [0], [k], ments)
    return pat, pat.build(rng)


def three_wires(rng):
    from sim import Pat, fixed_ment
    k, off, es, ends = 3, 0, [], []
    lens = [rng.choice([1, 2, 2]) for _ in range(k)]
    starts = []
    for m in lens:
        es += [(off + j, off + j + 1) for j in range(m - 1)]
        starts.append(off)
        ends.append(off + m - 1)
        off += m
    if rng.random() < 0.5:
        es.append((ends[0], ends[1]))
    if rng.random() < 0.5:
        es.append((ends[1], ends[2]))
    ments = {v: fixed_ment("XY", free=True) if rng.random() < 0.6 else fixed_ment("XY", (rng.choice([2, 6, -2]), 0))
             for v in range(off) if v not in ends}
    pat = Pat(off, es, starts, ends, ments)
    return pat, pat.build(rng)


def p32(c):
    from mentpy.utils import expressivity as X
    rng = c.rng
    c.model("MC_Expr", "MC_Expr.cfg" if c.quick else "MC_Expr_t.cfg")
    b = Batch(c, "T_Expr")
    UNIT = 2**20

    def seeded(fn):
        s = rng.randrange(2**31)

        def go():
            np.random.seed(s)
            return fn()
        return go

    def samples(wire=False):
        pat, circ = long_wire(rng) if wire else small_circuit(rng)
        n = 800 if wire else rng.choice([300, 300, 400]) if not c.quick or rng.random() < 0.7 else 250
        kw = rng.choice([{}, {"backend": "pennylane"}])
        r = vk.attempt(seeded(lambda: X.sample_probability_density_of_fidelities(circ, n_samples=n, **kw)), 120)
        c.count("sampled circuits")
        case = {"pattern": pat.desc(circ.trainable_nodes), "n_samples": n}

        def test(ans):
            if r[0] == "raise":
                return {"sampling-raised-" + r[1]}
            f, out = np.asarray(r[1], dtype=float), set()
            if f.shape != (n,):
                return {"number-of-samples"}
            if not (np.all(f >= -1e-9) and np.all(f <= 1)):
                out.add("samples-in-range")
            terms = [frac(z) for z in ans["f"]]
            mean = sum(terms) / len(terms)
            # the samples lie in [0, 1]: this is over seven standard deviations
            sd = max(f.std(), 0.02)
            if not abs(f.mean() - mean) < 7 * sd / math.sqrt(n) + 1e-6:
                out.add("mean-fidelity")
            if min(terms) > 1 - 1e-12 and f.min() < 1 - 1e-6:
                out.add("identity-circuit")
            return out
        b.ask({"kind": "mean", "a": pattern_event(pat, circ, list(circ.trainable_nodes))}, test, case)

    def histogram():
        pat, circ = small_circuit(rng) if rng.random() < 0.7 else three_wires(rng)
        n, bins, method = rng.choice([1, 2, 5, 20, 40]), rng.choice([1, 2, 3, 5, 10]), rng.choice(["KL", "KL", "RE", "JS"])
        q = len(pat.O)
        s = rng.randrange(2**31)

        def first():
            np.random.seed(s)
            return X.sample_probability_density_of_fidelities(circ, n_samples=n)

        def second():
            np.random.seed(s)
            return X.expressivity_with_histogram(circ, n_samples=n, n_bins=bins, **({"method": method} if method != "KL" or rng.random() < 0.5 else {}))
        r1, r2 = vk.attempt(first, 60), vk.attempt(second, 60)
        c.count("expressivities")
        case = {"pattern": pat.desc(circ.trainable_nodes), "n_samples": n, "n_bins": bins, "method": method}
        if r1[0] == "raise":
            return bad(c, "sampling-raised", case)
        f = np.asarray(r1[1], dtype=float)
        inner = f[f < 1 - 1e-9] * bins
        if np.any(np.abs(inner - np.round(inner)) < 1e-4):
            return  # on the edge of a bin

        def test(ans):
            if r2[0] == "raise":
                return {"expressivity-raised-" + r2[1]}
            want = distances(ans["counts"], ans["haar"], bins)[method]
            return set() if abs(float(r2[1]) - want) < 1e-6 else {"expressivity-" + method}
        b.ask({"kind": "hist", "xs": [min(UNIT, max(0, int(z * UNIT))) if z < 1 - 1e-9 else UNIT for z in f], "unit": UNIT, "bins": bins,
               "qubits": q}, test, case)

    def density():
        q, of = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 2, 4, 5, 10])
        at = list(range(of + 1))
        one = rng.random() < 0.5
        r = vk.attempt(lambda: [X.haar_probability_density_of_fidelities(a / of, q) for a in at] if one else
                       X.haar_probability_density_of_fidelities(np.array(at) / of, q))
        c.count("densities")

        def test(ans):
            if r[0] == "raise":
                return {"density-raised"}
            want = np.array([a / d for a, d in ans["haar"]])
            return set() if np.shape(r[1]) == want.shape and np.max(np.abs(np.asarray(r[1]) - want)) < 1e-9 else {"haar-density"}
        b.ask({"kind": "density", "at": at, "of": of, "qubits": q}, test, {"at": at, "of": of, "qubits": q})

    digraphs = []

    def digraph():
        n = rng.choice([2, 3, 3, 3, 4]) if not c.quick else rng.choice([2, 3, 3])
        k = rng.choice([1, 1, 2]) if n > 2 else 1
        nodes = list(range(n))
        I, O = rng.sample(nodes, k), rng.sample(nodes, k)
        g = mp.GraphState()
        g.add_nodes_from(nodes)
        g.add_edges_from((i, i + 1) for i in range(n - 1))
        space = mp.utils.FlowSpace(mp.MBQCircuit(g, input_nodes=I, output_nodes=O))
        if space.flow_graph_space.number_of_nodes() > 40:
            return
        method, ns, nb, s = rng.choice(["KL", "RE", "JS"]), rng.randint(2, 6), rng.choice([2, 4]), rng.randrange(2**31)

        def go():
            np.random.seed(s)
            return X.digraph_expressivity_of_flow_space(space, method=method, n_samples=ns, n_bins=nb)

        def alone():
            np.random.seed(s)
            return {v: X.expressivity_with_histogram(space.flow_graph_space.nodes[v]["mbqc_circuit"], method=method, n_samples=ns, n_bins=nb)
                    for v in space.flow_graph_space.nodes}
        r, w = vk.attempt(go, 120), vk.attempt(alone, 120)
        case = {"n": n, "I": I, "O": O, "method": method, "n_samples": ns, "n_bins": nb, "seed": s}
        c.count("digraphs")
        if r[0] == "raise" or w[0] == "raise":
            return bad(c, "digraph-raised", case)
        D, vals = r[1], w[1]
        got = {v: D.nodes[v].get("expr") for v in D.nodes}
        if set(got) == set(vals) and not all(x is not None and abs(x - vals[v]) < 1e-9 for v, x in got.items()):
            bad(c, "digraph-values", case)
        if any(not same_circuit(D.nodes[v].get("mbqc_circuit"), space.flow_graph_space.nodes[v]["mbqc_circuit"])
               for v in D.nodes if v in space.flow_graph_space):
            bad(c, "digraph-circuits", case)
        order = sorted(set(float(x) for x in got.values() if x is not None))
        digraphs.append({"ev": [{"kind": "digraph", "space": list(space.flow_graph_space.nodes),
                                 "skeleton": [list(e) for e in space.flow_graph_space.edges],
                                 "nodes": [{"id": v, "rank": order.index(float(x)) if x is not None else -1} for v, x in got.items()],
                                 "edges": [list(e) for e in D.edges]}], "case": case})

    def refused():
        _, circ = small_circuit(rng)
        name = rng.choice(["kl", "L2", "", "TV", None])
        c.count("unknown measures")
        if vk.attempt(lambda: X.expressivity_with_histogram(circ, n_samples=2, n_bins=2, method=name))[0] == "ok":
            bad(c, "unknown-measure-accepted", name)

    for _ in range(c.n(12, 120)):
        c.guard(samples, seconds=200)
    for _ in range(c.n(3, 20)):
        c.guard(samples, True, seconds=200)
    for _ in range(c.n(60, 600)):
        c.guard(histogram, seconds=200)
    for _ in range(c.n(30, 60)):
        c.guard(density)
    for _ in range(c.n(16, 100)):
        c.guard(digraph, seconds=300)
    for _ in range(5):
        c.guard(refused)
    b.settle()
    c.validate("T_Expr", digraphs)
