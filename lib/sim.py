"""Runs of the simulators against what the specification of patterns prescribes (P08-P13, P24)."""
import cmath, copy, math, random
import numpy as np
import vk, gen
import mentpy as mp
from mentpy.operators import Ment, ControlMent, MentOutcome

ALPHA = math.atan2(4, 3)
W = cmath.exp(1j * math.pi / 4)
BASIS = np.array([1, W, W**2, W**3])


def val(t):
    return t[0] * math.pi / 4 + t[1] * ALPHA


def vec(psi):
    v = np.array([np.dot(BASIS, x) for x in psi], dtype=complex)
    nn = np.linalg.norm(v)
    return v / nn if nn > 0 else v


# --- patterns -------------------------------------------------------------------
class Pat:
    """A pattern: open graph, measurements; ments[v] = dict(k,p,free,t,u,tp,tfree,tt,tu,cond)."""

    def __init__(self, n, edges, I, O, ments):
        self.n, self.edges, self.I, self.O, self.ments = n, [list(e) for e in edges], list(I), list(O), ments

    def qout(self):
        return [v for v in self.O if v not in self.ments]

    def desc(self, train=(), angles=(), outs=()):
        return {"n": self.n, "edges": self.edges, "I": self.I, "O": self.O,
                "ments": [dict(m, v=v) for v, m in sorted(self.ments.items())],
                "train": list(train), "angles": [list(a) for a in angles], "outs": [list(o) for o in outs]}

    def free(self):
        return [v for v, m in self.ments.items() if m["free"] or (m["k"] == "c" and m["tfree"])]

    def build(self, rng=None, labels=None, **kw):
        rng = rng or random.Random(0)
        L = labels or list(range(self.n))
        g = mp.GraphState()
        order = list(range(self.n))
        rng.shuffle(order)
        g.add_nodes_from(L[v] for v in order)
        es = list(self.edges)
        rng.shuffle(es)
        g.add_edges_from((L[a], L[b]) if rng.random() < 0.5 else (L[b], L[a]) for a, b in es)
        gen.dress(rng, g, 0.05)
        ms = {}
        vs = list(range(self.n))
        if rng.random() < 0.5:
            rng.shuffle(vs)
        for v in vs:
            ms[L[v]] = self.ment(self.ments[v], rng, L) if v in self.ments else None
        return mp.MBQCircuit(g, input_nodes=[L[v] for v in self.I], output_nodes=[L[v] for v in self.O], measurements=ms, **kw)

    @staticmethod
    def branch(p, free, t, u):
        if p in ("X", "Y", "Z"):
            return None, p
        if free:
            return None, p
        return ((val(u), val(t)) if p == "XYZ" else val(t)), p

    def ment(self, m, rng, L):
        a, p = self.branch(m["p"], m["free"], m["t"], m["u"])
        if m["k"] == "m":
            return Ment(p) if a is None else rng.choice([Ment(a, p), Ment(p, a)])
        ta, tp = self.branch(m["tp"], m["tfree"], m["tt"], m["tu"])
        cond = real_expr(m["cond"], L)
        return ControlMent(bool(cond) if isinstance(cond, int) else cond, ta, tp, a, p)


def fixed_ment(p, t=(0, 0), u=(0, 0), free=False):
    return {"k": "m", "p": p, "free": free, "t": list(t), "u": list(u), "tp": "X", "tfree": False, "tt": [0, 0], "tu": [0, 0],
            "cond": {"op": "const", "c": 0}}


class Angles:
    """Random angles; only a few per case have an atan(4/3) part, to keep exact values small."""

    def __init__(self, rng, budget=2):
        self.rng, self.budget = rng, budget

    def __call__(self):
        m = 0
        if self.budget > 0 and self.rng.random() < 0.35:
            m = self.rng.choice([-1, 1])
            self.budget -= 1
        if self.rng.random() < 0.15:
            return [0, 0]  # falsy angles are a case of their own
        far = 60 if self.rng.random() < 0.12 else 9  # many turns
        return [self.rng.randint(-far, far), m]


def rand_plain(rng, planes, ang, pfree=0.6):
    p = rng.choice(planes)
    if p in ("X", "Y", "Z"):
        return fixed_ment(p)
    if p == "XYZ":
        return fixed_ment(p, ang(), ang())
    if rng.random() < pfree:
        return fixed_ment(p, free=True)
    return fixed_ment(p, ang())


XYP = ["XY", "XY", "XY", "XY", "X", "Y"]
ALLP = ["XY", "XY", "XZ", "YZ", "X", "Y", "XYZ"]


def rand_pat(rng, nmax, planes, flow=True, measured_out=0.15, ang=None, nmin=1, kmax=3):
    ang = ang or Angles(rng)
    n = rng.randint(nmin, nmax)
    k = rng.randint(1, max(1, min(kmax, n // 2)))
    if flow:
        es, I, O = gen.planted(rng, n, k)
    else:
        es, I, O = gen.rand_graph(rng, n), rng.sample(range(n), k), rng.sample(range(n), k)
    ments = {}
    for v in range(n):
        if v not in O or rng.random() < measured_out:
            ments[v] = rand_plain(rng, planes, ang)
    return Pat(n, es, I, O, ments)


def broad_pat(rng, planes, ks=(4, 5), extra=3, ang=None):
    """A pattern with a flow on four or more wires, so that many outputs have to be put in order."""
    ang = ang or Angles(rng)
    k = rng.choice(list(ks))
    n = k + rng.randint(0, extra)
    es, I, O = gen.planted(rng, n, k)
    return Pat(n, es, I, O, {v: rand_plain(rng, planes, ang) for v in range(n) if v not in O or rng.random() < 0.05})


def hub_pat(rng, planes, ang=None):
    """A measured node whose successor on the wire has five or more other neighbours."""
    ang = ang or Angles(rng)
    k = rng.choice([5, 5, 6])
    edges, O = [[0, 1]], [1] + list(range(2, k + 1))
    I = [0] + list(range(2, k + 1))
    edges += [[1, w] for w in range(2, k + 1)]
    n = k + 1
    if rng.random() < 0.5:       # the hub is measured too
        edges.append([1, n])
        O[0] = n
        n += 1
    to = rng.sample(range(n), n)
    rng.shuffle(edges)
    p = rng.sample(range(k), k)
    I, O = [to[I[i]] for i in p], [to[O[i]] for i in p]
    return Pat(n, [[to[a], to[b]] for a, b in edges], I, O, {v: rand_plain(rng, planes, ang) for v in range(n) if v not in O})


def broad_schedule(rng, pat, circ):
    """The measurements in their order, then the outputs in their order but for two of them."""
    s = [v for v in circ.measurement_order if v in pat.ments]
    q = pat.qout()
    if len(q) > 1 and rng.random() < 0.8:
        i, j = rng.sample(range(len(q)), 2)
        q[i], q[j] = q[j], q[i]
    return s + q


def dev_kw(rng, pat, sched):
    """Developer mode: the nodes to measure are picked along the given wires, which in a window that holds
    the neighbours of every node it holds is the schedule."""
    order = [v for v in sched if v in pat.ments]
    at = {v: i for i, v in enumerate(order + [v for v in sched if v not in pat.ments])}
    wires = {}
    k = rng.randint(1, 3)
    for v in rng.sample(range(pat.n), pat.n):
        wires.setdefault(rng.randrange(k), []).append(v)
    if any(u < v and at[u] > at[v] for w in wires.values() for u in w for v in w if [u, v] in pat.edges or [v, u] in pat.edges
           or (u, v) in pat.edges or (v, u) in pat.edges):
        wires = {v: [v] for v in range(pat.n)}
    return {"dev_mode": True, "wires": [list(w) for w in wires.values()]}


def retrain(rng, circ):
    """Sometimes the user lists the trainable nodes in another order, which then is the order of the angles."""
    if rng.random() < 0.15 and len(circ.trainable_nodes) > 1:
        circ.trainable_nodes = rng.sample(list(circ.trainable_nodes), len(circ.trainable_nodes))


def min_window(pat, sched):
    at = {v: i for i, v in enumerate(sched)}
    return max([1] + [at[v] + 1 for v in pat.I] + [abs(at[a] - at[b]) + 1 for a, b in pat.edges])


def long_pat(rng, planes, nmin=9, nmax=16, ang=None):
    """A pattern with a flow and many nodes on one or two wires, of which few have to be held at once:
    (pattern, schedule)."""
    import circ as circmod
    ang = ang or Angles(rng)
    while True:
        n = rng.randint(nmin, nmax)
        k = rng.choice([1, 1, 2])
        es, I, O = gen.planted(rng, n, k, extra=rng.randint(0, n), overlap=0)
        ly = circmod.layers_py(n, es, I, O)
        if len(ly) < n:
            continue
        # nodes get consecutive numbers along the wires half of the time
        pat = Pat(n, es, I, O, {})
        if rng.random() < 0.5:
            order = sorted(range(n), key=lambda v: -ly[v])
            to = {v: i for i, v in enumerate(order)}
            pat = Pat(n, [[to[a], to[b]] for a, b in es], [to[v] for v in I], [to[v] for v in O], {})
        for v in range(n):
            if v not in pat.O or rng.random() < 0.1:
                pat.ments[v] = rand_plain(rng, planes, ang)
        circ = pat.build(rng)
        if circ.flow is None:
            raise AssertionError("a circuit with a flow has none")
        sched = [v for v in circ.measurement_order if v in pat.ments] + pat.qout()
        if min_window(pat, sched) <= 6:
            return pat, circ, sched


# --- input states ------------------------------------------------------------------
def rand_state(rng, k):
    """Coefficients in Z[w] of a state of k qubits."""
    while True:
        z = rng.random()
        if z < 0.2:
            s = [[0, 0, 0, 0] for _ in range(2**k)]
            s[rng.randrange(2**k)] = [1, 0, 0, 0]
        elif z < 0.4:
            s = [[1, 0, 0, 0] for _ in range(2**k)]
        else:
            s = [[rng.randint(-2, 2) if rng.random() < 0.5 else 0 for _ in range(4)] for _ in range(2**k)]
        if any(any(x) for x in s):
            return s


def near_state(rng, s):
    """A state that differs a little from a given one."""
    r = [[15 * x for x in a] for a in s]
    r[rng.randrange(len(r))][0] += 1
    return r


def plus_state(k):
    return [[1, 0, 0, 0] for _ in range(2**k)]


# --- comparison ------------------------------------------------------------------
def same_dm(rho, v, tol=1e-6):
    rho = np.asarray(rho)
    return rho.shape == (len(v), len(v)) and bool(np.all(np.isfinite(rho))) and np.max(np.abs(rho - np.outer(v, v.conj()))) < tol


def same_sv(x, v, tol=1e-6):
    x = np.asarray(x)
    return x.shape == v.shape and bool(np.all(np.isfinite(x))) and abs(np.linalg.norm(x) - 1) < tol and abs(abs(np.vdot(x, v)) - 1) < tol


class Batch:
    """Questions for the specification with the observations to compare with its answers."""

    def __init__(self, c, module="T_Sim", cfg="Replay.cfg"):
        self.c, self.module, self.cfg, self.traces, self.tests = c, module, cfg, [], []

    def ask(self, event, test, case):
        """test(answer) -> set of broken clauses"""
        self.traces.append({"ev": [event], "case": case})
        self.tests.append(test)

    def settle(self):
        c = self.c
        if not self.traces:
            return
        for lo in range(0, len(self.traces), 4000):
            part = self.traces[lo:lo + 4000]
            c.validate(self.module, part, cfg=self.cfg)
            for i, t in enumerate(part):
                if (i, 0) not in c.results:
                    c.machinery(f"no answer for {t['case']}")
                r = c.guard(self.tests[lo + i], c.results[i, 0], case=t["case"])
                if r:
                    c.fail(t, r, 1, self.module)
        self.traces, self.tests = [], []


def bad(c, clause, case):
    c.fails.append({"clauses": [clause], "event": 0, "spec": "Pattern", "key": clause, "case": case})


# --- real conditions from expression trees --------------------------------------------
def real_expr(e, L, mk=None):
    op = e["op"]
    if op == "node":
        if mk is not None:
            return mk(e["v"])
        m = Ment("X")
        m.node_id = L[e["v"]]
        return m.outcome
    if op == "const":
        return e["c"]
    if op == "not":
        return ~real_expr(e["a"], L, mk)
    a, b = real_expr(e["a"], L, mk), real_expr(e["b"], L, mk)
    import operator as o
    f = {"add": o.add, "sub": o.sub, "mul": o.mul, "xor": o.xor, "and": o.and_, "or": o.or_, "eq": o.eq, "ne": o.ne,
         "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge, "mod": o.mod, "floordiv": o.floordiv, "truediv": o.truediv, "pow": o.pow}[op]
    return f(a, b)


def rand_cond(rng, nodes):
    """A condition that reads some of the given nodes."""
    if not nodes:
        return None
    e = {"op": "node", "v": rng.choice(nodes)}
    for _ in range(rng.randint(0, 2)):
        z = rng.random()
        if z < 0.25:
            e = {"op": "not", "a": e}
        elif z < 0.4:
            e = {"op": rng.choice(["add", "xor", "eq", "mul"]), "a": e, "b": {"op": "const", "c": rng.randint(0, 3)}}
        else:
            e = {"op": rng.choice(["add", "xor", "mul", "and", "or", "sub", "eq", "ne", "lt", "ge"]), "a": e,
                 "b": {"op": "node", "v": rng.choice(nodes)}}
    return e


def zero_outs(pat, order):
    return [[v, 0] for v in order if v in pat.ments]


# --- P09 -----------------------------------------------------------------------------
def run_real(circ, backend, angles, state_np, **kw):
    h = 5 * len(angles) + len(circ) + len(backend)
    backend = (backend, backend, backend.upper(), backend.title())[h % 4]
    run_kw = {k: kw.pop(k) for k in list(kw) if k in ("output_form",)}
    ps = mp.PatternSimulator(circ, input_state=state_np, backend=backend, **kw) if state_np is not None else \
        mp.PatternSimulator(circ, backend=backend, **kw)
    out = ps(angles, **run_kw) if h % 3 == 0 else ps.run(angles, **run_kw)
    return ps, out


def p09(c):
    rng = c.rng
    c.model("MC_Pattern", "MC_Pattern.cfg" if c.quick else "MC_Pattern_t.cfg")
    b = Batch(c)

    def one(long=False, broad=False):
        flow = rng.random() < 0.8
        sv = rng.random() < 0.5
        if long:
            pat, circ, _ = long_pat(rng, XYP if sv else ALLP)
            c.count("long patterns")
        elif broad:
            pat = broad_pat(rng, XYP if sv else ALLP)
            circ = pat.build(rng)
            c.count("broad patterns")
        else:
            pat = rand_pat(rng, rng.choice([3, 5, 6, 7]), XYP if sv else ALLP, flow)
            circ = pat.build(rng)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        ang = Angles(rng)
        angles = [ang() for _ in train]
        x = [val(a) for a in angles]
        state = rand_state(rng, len(pat.I)) if rng.random() < 0.8 else None
        order = list(circ.measurement_order) if circ.flow is not None else None
        kw = {}
        if order is None:
            order = rng.sample(range(pat.n), pat.n)
            kw["schedule"] = order
            # all inputs have to fit in the first window
        elif broad and rng.random() < 0.8:
            kw["schedule"] = broad_schedule(rng, pat, circ)
        outs = zero_outs(pat, order)
        backends = ["numpy-dm"] + (["numpy-sv"] if all(m["p"] in ("X", "Y", "XY") for m in pat.ments.values()) else [])
        case = {"pattern": pat.desc(train, angles, outs), "state": state, **kw}
        got = []
        for be in backends:
            forms = ["dm"] if be == "numpy-dm" else [rng.choice(["dm", "sv", "statevector", "densitymatrix"])]
            for f in forms:
                k2 = dict(kw)
                if be == "numpy-sv":
                    k2["output_form"] = f
                st = vec(state) if state is not None else None
                before = None if st is None else st.copy()
                z = rng.random()
                xs = x if z < 0.5 else (np.array(x) if z < 0.8 else tuple(x))
                r = vk.attempt(lambda: run_real(circ, be, xs, st, **k2))
                if before is not None and not np.array_equal(before, st):
                    bad(c, "input-state-modified", case)
                got.append((be, f, r))
                c.count(be)
                if rng.random() < 0.2:
                    k3 = {**k2, **dev_kw(rng, pat, kw.get("schedule", order))}
                    got.append((be, f, vk.attempt(lambda: run_real(circ, be, xs, st, **k3))))
                    c.count("developer mode")
            # wrong numbers of angles
            if rng.random() < 0.15:
                for xs in (x + [0.1], x[:-1] if x else None):
                    if xs is not None and vk.attempt(lambda: run_real(circ, be, xs, None, **kw))[0] == "ok":
                        bad(c, "wrong-number-of-angles-accepted", {**case, "backend": be, "given": len(xs)})
                    c.count("wrong counts")
        if len(backends) == 1 and rng.random() < 0.3:
            if vk.attempt(lambda: run_real(circ, "numpy-sv", x, None, **kw))[0] == "ok":
                bad(c, "unsupported-plane-accepted", case)
            c.count("unsupported planes")

        def test(ans):
            out = set()
            if ans["zero"]:
                c.count("zero branch impossible")
                return out
            v = vec(ans["psi"])
            for be, f, r in got:
                if r[0] == "raise":
                    out.add(f"{be}-raised-{r[1]}")
                    continue
                ps, res = r[1]
                ok = same_sv(res, v) if f in ("sv", "statevector") else same_dm(res, v)
                if not ok:
                    out.add(f"{be}-state")
                o = getattr(ps.simulator, "outcomes", None)
                if o is None or {k: int(y) for k, y in o.items()} != dict(map(tuple, outs)):
                    out.add(f"{be}-outcomes")
            return out
        b.ask({"kind": "long" if long else "run", "a": pat.desc(train, angles, outs), "in": state or plus_state(len(pat.I))}, test, case)

    for _ in range(c.n(700, 6000)):
        c.guard(one)
    for _ in range(c.n(60, 600)):
        c.guard(one, True)
    for _ in range(c.n(40, 400)):
        c.guard(one, False, True)
    for _ in range(c.n(12, 60)):
        pat = rand_pat(rng, 5, XYP, True, measured_out=0, nmin=2)
        circ = pat.build(rng)
        x = [0.1] * len(circ.trainable_nodes)
        st = vec(rand_state(rng, len(pat.I)))
        be = rng.choice(["numpy-dm", "numpy-sv"])
        c.count("refused requests", 4)
        for what, fn in (("random-outcomes", lambda: mp.PatternSimulator(circ, backend=be, force0=False)),
                         ("output-form", lambda: run_real(circ, "numpy-sv", x, st, output_form=rng.choice(["", "matrix", "density", "svdm"]))),
                         ("input-list", lambda: mp.PatternSimulator(circ, input_state=list(st), backend=rng.choice(["numpy-dm", "numpy-sv", "pennylane"])))):
            if vk.attempt(fn)[0] == "ok":
                bad(c, "accepted-" + what, {"pattern": pat.desc(), "backend": be})
        pat = rand_pat(rng, 5, XYP, False, measured_out=0, nmin=3)
        circ = pat.build(rng)
        if circ.flow is None and vk.attempt(lambda: run_real(circ, be, [0.1] * len(circ.trainable_nodes), None))[0] == "ok":
            bad(c, "accepted-no-order", {"pattern": pat.desc(), "backend": be})
    for name in ("numpy", "", "cirq", "numpy-sv "):
        circ = mp.templates.linear_cluster(3)
        if vk.attempt(lambda: mp.PatternSimulator(circ, backend=name))[0] == "ok":
            bad(c, "unknown-backend-accepted", name)
    b.settle()


# --- P10 -----------------------------------------------------------------------------
def has_flow(n, edges, I, O):
    import circ as circmod
    return len(circmod.layers_py(n, edges, I, O)) == n


def random_extension(rng, circ):
    left, out = list(circ.graph.nodes), []
    po = circ.partial_order
    while left:
        v = rng.choice([v for v in left if not any(po(u, v) for u in left if u != v)])
        left.remove(v)
        out.append(v)
    return out


def p10(c):
    rng = c.rng
    c.model("MC_Pattern", "MC_Pattern.cfg" if c.quick else "MC_Pattern_t.cfg")
    b = Batch(c)

    def one(broad=False):
        if broad == "hub":
            pat = hub_pat(rng, XYP)
            c.count("hubs")
        elif broad:
            pat = broad_pat(rng, XYP, (4,), 2)
            pat.ments = {v: m for v, m in pat.ments.items() if v not in pat.O}
            c.count("broad patterns")
        else:
            pat = rand_pat(rng, rng.choice([3, 4, 5, 5, 6]), XYP, True, measured_out=0)
        circ = pat.build(rng)
        if circ.flow is None:
            return
        if rng.random() < 0.4:
            circ.measurement_order = random_extension(rng, circ)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        ang = Angles(rng)
        angles = [ang() for _ in train]
        x = [val(a) for a in angles]
        state = rand_state(rng, len(pat.I)) if rng.random() < 0.85 else None
        outs = zero_outs(pat, circ.measurement_order)
        case = {"pattern": pat.desc(train, angles, outs), "state": state}
        st = vec(state) if state is not None else None
        r = vk.attempt(lambda: run_real(circ, "pennylane", x, st), 60)
        c.count("runs")
        if rng.random() < 0.1:
            for xs in (x + [0.1], x[:-1] if x else None):
                if xs is not None and vk.attempt(lambda: run_real(circ, "pennylane", xs, st))[0] == "ok":
                    bad(c, "wrong-number-of-angles-accepted", case)

        def test(ans):
            if ans["zero"]:
                return {"zero-branch-impossible-with-flow"}
            if r[0] == "raise":
                return {"raised-" + r[1]}
            return set() if same_dm(r[1][1], vec(ans["psi"])) else {"density-matrix"}
        b.ask({"kind": "run", "a": pat.desc(train, angles, outs), "in": state or plus_state(len(pat.I))}, test, case)

    def unsupported():
        z = rng.random()
        if z < 0.2:
            pat = rand_pat(rng, 5, XYP, False, measured_out=0, nmin=3)
            circ = pat.build(rng)
            if has_flow(pat.n, pat.edges, pat.I, pat.O):
                return
            kind = "no causal flow"
        else:
            pat = rand_pat(rng, 4, XYP, True, measured_out=0, nmin=2)
            ms = [v for v in range(pat.n) if v not in pat.O]
            if not ms:
                return
            v = rng.choice(ms)
            if z < 0.45:
                pat.ments[v] = rand_plain(rng, ["XZ", "YZ", "Z", "XYZ"], Angles(rng))
                kind = "plane"
            elif z < 0.75:
                pat.ments[v] = {**fixed_ment("X"), "k": "c", "tp": "XY", "tfree": True, "cond": {"op": "node", "v": rng.choice(ms)}}
                kind = "control"
            else:
                pat.ments[rng.choice(pat.O)] = rand_plain(rng, XYP, Angles(rng))
                kind = "measured output"
            circ = pat.build(rng)
        c.count("unsupported: " + kind)
        if vk.attempt(lambda: run_real(circ, "pennylane", [0.3] * len(circ.trainable_nodes), None))[0] == "ok":
            bad(c, "unsupported-accepted-" + kind.replace(" ", "-"), pat.desc())

    for _ in range(c.n(260, 3000)):
        c.guard(one, seconds=120)
    for _ in range(c.n(15, 200)):
        c.guard(one, True, seconds=120)
    for _ in range(c.n(8, 120)):
        c.guard(one, "hub", seconds=120)
    for _ in range(c.n(60, 400)):
        c.guard(unsupported)
    b.settle()


# --- P30 -----------------------------------------------------------------------------
DAMP = ["amplitude_damping", "phase_damping"]
NOISES = ["depolarizing", "phase_flip", "generalized_amplitude_damping"] + DAMP


def rand_channel(rng):
    """A channel of the specification, and the arguments that ask the simulator for it."""
    name = rng.choice(NOISES + ["none"] * (rng.random() < 0.3))
    if name == "none":
        return {"name": "none"}, rng.choice([{}, {"circuit_noise": None}, {"circuit_noise": None, "p": 0.5}])
    a, b = rng.choice([(0, 1), (1, 4), (1, 2), (3, 4), (1, 1), (1, 3)])
    r, cc, s = rng.choice([(1, 1, 0), (5, 4, 3), (5, 3, 4), (5, 4, 3), (1, 0, 1)])
    ch, kw = {"name": name}, {"circuit_noise": name}
    if name in DAMP:
        ch.update(r=r, c=cc, s=s)
        kw["p"] = (s / r) ** 2
        if s == 0 and rng.random() < 0.5:
            kw.pop("p")  # the strength is zero unless given
    else:
        ch.update(a=a, b=b)
        kw["p"] = a / b
        if a == 0 and rng.random() < 0.5:
            kw.pop("p")
        if name == "generalized_amplitude_damping":
            ch.update(r=r, c=cc, s=s)
            kw["gamma"] = (s / r) ** 2
            if s == 0 and rng.random() < 0.5:
                kw.pop("gamma")
    return ch, kw


def mat(rows):
    m = np.array([[np.dot(BASIS, x) for x in row] for row in rows], dtype=complex)
    return m / np.trace(m)


def p30(c):
    rng = c.rng
    c.model("MC_Noise", "MC_Noise.cfg" if c.quick else "MC_Noise_t.cfg")
    b = Batch(c, "T_Noise")

    def one():
        ch, kw = rand_channel(rng)
        big = ch.get("r", 1) == 5
        pat = rand_pat(rng, rng.choice([2, 3] if big else [2, 3, 4, 4, 5]), XYP, True, measured_out=0, nmin=1, kmax=2)
        for m in pat.ments.values():
            m["t"] = [m["t"][0], 0]
        circ = pat.build(rng)
        if circ.flow is None:
            return
        if rng.random() < 0.4:
            circ.measurement_order = random_extension(rng, circ)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        angles = [[0, 0] if rng.random() < 0.1 else [rng.randint(-9, 9), 0] for _ in train]
        x = [val(a) for a in angles]
        k = len(pat.I)
        state = [[rng.randint(-1, 1) for _ in range(4)] for _ in range(2**k)] if rng.random() < 0.6 else \
            [[1, 0, 0, 0] if i == 0 or rng.random() < 0.3 else [0] * 4 for i in range(2**k)]
        if not any(any(v) for v in state):
            state[-1] = [1, 0, 0, 0]
        ms = []
        for v in circ.measurement_order:
            if v in pat.ments:
                m = pat.ments[v]
                ms.append({"v": v, "p": m["p"], "t": angles[train.index(v)] if v in train else m["t"]})
        ev = {"n": pat.n, "edges": pat.edges, "I": pat.I, "O": pat.O, "in": state, "ms": ms, "ch": ch}
        if ch["name"] == "none" and rng.random() < 0.5:
            kw.pop("circuit_noise", None)
            kw.pop("p", None)
        how = rng.random()

        def go():
            if how < 0.3:
                ps = mp.PatternSimulator(circ, backend="pennylane", device="default.mixed", **kw)
                return ps.run(x, input_state=vec(state))
            ps = mp.PatternSimulator(circ, input_state=vec(state), backend="pennylane", device="default.mixed", **kw)
            if how < 0.6:  # the same circuit run twice
                ps([0.1] * len(x))
            return ps.run(x)
        case = {"pattern": ev, "args": {q: kw[q] for q in sorted(kw)}}
        r = vk.attempt(go, 60)
        c.count("runs with " + ch["name"])

        def test(ans):
            if not ans["rho"]:
                return {"order-against-the-flow"}
            if r[0] == "raise":
                return {"raised-" + r[1]}
            want, got = mat(ans["rho"]), np.asarray(r[1])
            if got.shape != want.shape or not np.all(np.isfinite(got)):
                return {"shape"}
            return set() if np.max(np.abs(got - want)) < 1e-6 else {"density-matrix"}
        b.ask(ev, test, case)

    def refused():
        pat = rand_pat(rng, 3, XYP, True, measured_out=0, nmin=1)
        circ = pat.build(rng)
        name = rng.choice(["bitflip", "Depolarizing noise", "phaseflip", "amplitude", "damping", "noise", "x"])
        c.count("unknown noises")
        if vk.attempt(lambda: run_real(circ, "pennylane", [0.3] * len(circ.trainable_nodes), None,
                                       device="default.mixed", circuit_noise=name, p=0.1))[0] == "ok":
            bad(c, "unknown-noise-accepted", pat.desc())

    for _ in range(c.n(220, 2500)):
        c.guard(one, seconds=120)
    for _ in range(c.n(10, 60)):
        c.guard(refused)
    b.settle()


# --- P11 -----------------------------------------------------------------------------
def p11(c):
    rng = c.rng
    c.model("MC_Pattern", "MC_Pattern.cfg" if c.quick else "MC_Pattern_t.cfg")
    b = Batch(c)

    def one(long=False, broad=False):
        flow = rng.random() < 0.6
        sv = rng.random() < 0.6
        if long:
            pat, circ, good = long_pat(rng, XYP if sv else ALLP, 8, 14)
            c.count("long patterns")
        elif broad:
            pat = broad_pat(rng, XYP if sv else ALLP)
            circ = pat.build(rng)
            c.count("broad patterns")
        else:
            pat = rand_pat(rng, rng.choice([4, 5, 6]), XYP if sv else ALLP, flow, nmin=2)
            circ = pat.build(rng)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        ang = Angles(rng)
        angles = [ang() for _ in train]
        x = [val(a) for a in angles]
        state = rand_state(rng, len(pat.I))
        st = vec(state)
        seen = []
        for _ in range(3):
            kw = {}
            if long:
                kw["schedule"] = swapped(good)
            elif broad and rng.random() < 0.5:
                kw["schedule"] = broad_schedule(rng, pat, circ)
            elif circ.flow is None or rng.random() < 0.8:
                kw["schedule"] = rng.sample(range(pat.n), pat.n)
            elif rng.random() < 0.5:
                circ.measurement_order = random_extension(rng, circ)
            ws = [None] + rng.sample(range(2, 9 if long else pat.n + 2), min(3, pat.n))
            for w in ws:
                k2 = dict(kw)
                if w is not None:
                    k2["window_size"] = w
                elif rng.random() < 0.3:
                    k2.update(dev_kw(rng, pat, kw.get("schedule") or circ.measurement_order))
                    c.count("developer mode")
                be = "numpy-sv" if sv and rng.random() < 0.6 else "numpy-dm"
                if long and be == "numpy-dm" and w is None and min_window(pat, [v for v in kw["schedule"] if v in pat.ments] + pat.qout()) > 8:
                    continue
                r = vk.attempt(lambda: run_real(circ, be, x, st.copy(), **k2))
                seen.append((be, w, kw.get("schedule"), r))
                c.count("accepted" if r[0] == "ok" else "rejected")
        outs = zero_outs(pat, good if long else range(pat.n))
        case = {"pattern": pat.desc(train, angles, outs), "state": state, "windows": [[s[0], s[1], s[2], s[3][0]] for s in seen]}

        def test(ans):
            out = set()
            if ans["zero"]:
                c.count("zero branch impossible")
                return out
            v = vec(ans["psi"])
            for be, w, sched, r in seen:
                if r[0] == "raise":
                    if w is None or w == pat.n:
                        out.add(f"{be}-no-window-works" if w is None else f"{be}-full-window-rejected")
                elif not same_dm(r[1][1], v):
                    out.add(f"{be}-window-or-schedule-changes-the-state")
            return out
        b.ask({"kind": "long" if long else "run", "a": pat.desc(train, angles, outs), "in": state}, test, case)

    def swapped(sched):
        """The schedule with some neighbours exchanged."""
        s = list(sched)
        for _ in range(rng.randint(0, 5)):
            i = rng.randrange(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
        return s

    for _ in range(c.n(350, 3500)):
        c.guard(one)
    for _ in range(c.n(50, 500)):
        c.guard(one, True)
    for _ in range(c.n(20, 200)):
        c.guard(one, False, True)
    b.settle()


# --- P12 -----------------------------------------------------------------------------
def p12(c):
    rng = c.rng
    c.model("MC_Pattern", "MC_Pattern.cfg" if c.quick else "MC_Pattern_t.cfg")
    traces, looks = [], []

    def one():
        be = rng.choice(["numpy-dm", "numpy-sv", "numpy-sv", "pennylane"] if rng.random() < 0.4 else ["numpy-dm", "numpy-sv"])
        flow = be == "pennylane" or rng.random() < 0.7
        pat = rand_pat(rng, 4 if be == "pennylane" else rng.choice([3, 4, 5, 6]), ALLP if be == "numpy-dm" else XYP, flow,
                       measured_out=0 if be == "pennylane" else 0.15)
        circ = pat.build(rng)
        if be == "pennylane" and circ.flow is None:
            return
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        k = len(pat.I)
        state = rand_state(rng, k)
        kw = {}
        if be != "pennylane":
            if circ.flow is None or rng.random() < 0.5:
                kw["schedule"] = rng.sample(range(pat.n), pat.n)
            if rng.random() < 0.3:
                kw["window_size"] = pat.n
            if rng.random() < 0.15:     # there, a run starts from where the measurements are
                kw.update(dev_kw(rng, pat, kw.get("schedule") or circ.measurement_order))
                c.count("developer mode")
        given = vec(state)
        states = [(given, given.copy())]
        sim = mp.PatternSimulator(circ, input_state=given, backend=be, **kw)
        if be == "pennylane":
            sched, w = list(circ.measurement_order), 1
        else:
            sched, w = list(sim.simulator.schedule), sim.simulator.window_size
        outs = zero_outs(pat, sched)
        ang = Angles(rng, 3)
        ev, look = [], {}

        def base(op):
            return {"op": op, "hasin": False, "in": [], "angles": [], "angle": [0, 0], "res": "ok"}

        last = [state]

        def inp(e):
            s = rand_state(rng, k)
            if pat.n <= 5 and max(abs(x) for a in last[0] for x in a) <= 1 and rng.random() < 0.4:
                s = near_state(rng, last[0])
            last[0] = s
            e["hasin"], e["in"] = True, s
            g = vec(s)
            states.append((g, g.copy()))
            return g

        stuck = False
        for _ in range(rng.randint(2, 7)):
            op = rng.choice(["run", "run", "reset", "badrun"] + (["measure"] * 4 if be != "pennylane" else []))
            reps = rng.randint(1, pat.n + 1) if op == "measure" else 1
            if op == "run" and "dev_mode" in kw and ev and ev[-1]["op"] != "reset":
                e = base("reset")
                e["res"] = vk.attempt(lambda: sim.reset())[0]
                ev.append(e)
            for _ in range(reps):
                e = base(op)
                if op == "run":
                    e["angles"] = [ang() for _ in train]
                    x = [val(a) for a in e["angles"]]
                    if rng.random() < 0.6:
                        g = inp(e)
                        r = vk.attempt(lambda: sim.run(x, input_state=g), 60)
                    else:
                        if be == "pennylane" and not e["hasin"]:
                            pass
                        r = vk.attempt(lambda: sim.run(x), 60)
                    look[len(ev)] = ("dm", r[1]) if r[0] == "ok" else None
                elif op == "reset":
                    if rng.random() < 0.6:
                        g = inp(e)
                        r = vk.attempt(lambda: sim.reset(g) if rng.random() < 0.5 else sim.reset(input_state=g))
                    else:
                        r = vk.attempt(lambda: sim.reset())
                elif op == "badrun":
                    r = vk.attempt(lambda: sim.run([0.1] * (len(train) + rng.choice([1, 2]))))
                else:
                    done = sum(1 for q in ev if q["op"] == "measure" and q["res"] == "ok")
                    e["angle"] = ang()
                    j = cur[0] if (cur := position(ev)) else 0
                    node = outs[j][0] if j < len(outs) else None
                    free = node is not None and pat.ments[node]["free"]
                    r = vk.attempt(lambda: sim.measure(val(e["angle"]) if free else None))
                    if r[0] == "ok":
                        look[len(ev)] = ("q", np.array(r[1][0]).copy())
                e["res"] = "ok" if r[0] == "ok" else "error"
                ev.append(e)
                c.count(op + ":" + e["res"])
            if op == "badrun" or (op == "run" and rng.random() < 0.6):
                e = base("reset")
                e["res"] = vk.attempt(lambda: sim.reset())[0]
                ev.append(e)
        if any(not np.array_equal(a, b) for a, b in states):
            bad(c, "input-state-modified", pat.desc())
        if be == "pennylane":   # it holds no intermediate state: every run is a fresh one
            fresh = []
            for i, e in enumerate(ev):
                pass
        t = {"a": pat.desc(train, [], outs), "in": state, "sched": sched, "w": w, "ev": ev, "anytime": be == "pennylane",
             "case": {"backend": be, "pattern": pat.desc(train, [], outs), "sched": sched, "w": w, "events": ev}}
        traces.append(t)
        looks.append(look)

    def position(ev):
        """(measured so far, ) in the current pass, or () when a run has finished."""
        k = 0
        for e in ev:
            if e["op"] in ("reset", "badrun", "run"):
                k = 0
            elif e["res"] == "ok":
                k += 1
        return (k,)

    for _ in range(c.n(420, 4000)):
        c.guard(one, seconds=120)
    for lo in range(0, len(traces), 3000):
        part = traces[lo:lo + 3000]
        c.validate("T_SimHist", part, cfg="HistReplay.cfg")
        for i, t in enumerate(part):
            for j, lk in looks[lo + i].items():
                ans = c.results.get((i, j))
                if ans is None or lk is None or ans["zero"]:
                    continue
                v = vec(ans["psi"])
                x = lk[1]
                ok = same_dm(x, v) if np.ndim(x) == 2 else same_sv(x, v)
                c.count("states compared")
                if not ok:
                    c.fail(t, {t["case"]["backend"] + ("-run-after-history" if lk[0] == "dm" else "-state-after-measure")}, j + 1, "T_SimHist")


# --- P13 -----------------------------------------------------------------------------
def p13(c):
    rng = c.rng
    c.model("MC_Adaptive")
    b = Batch(c)

    def one(long=False):
        ang = Angles(rng)
        flow = rng.random() < 0.85
        planes = ["XY", "XY", "X", "Z", "Z", "XZ", "YZ", "Y"]
        if long:
            pat = long_pat(rng, planes, 8, 13, ang)[0]
            c.count("long patterns")
        else:
            pat = rand_pat(rng, rng.choice([3, 5, 6, 7]), planes, flow, ang=ang, nmin=2, measured_out=0.3)
        import circ as circmod
        ly = circmod.layers_py(pat.n, pat.edges, pat.I, pat.O)
        full = len(ly) == pat.n
        order = sorted(range(pat.n), key=lambda v: (-ly.get(v, 0), v)) if full else rng.sample(range(pat.n), pat.n)
        for i, v in enumerate(order):
            may = [u for u in (order[:i] if not full else [u for u in range(pat.n) if ly[u] > ly[v]]) if u in pat.ments]
            if v in pat.ments and may and rng.random() < 0.6:
                z = [u for u in may if pat.ments[u]["p"] == "Z"]
                f = rand_plain(rng, ["XY", "X", "Y", "Z", "XZ"], ang)
                t = rand_plain(rng, ["XY", "X", "Y", "Z", "YZ"], ang)
                cond = rand_cond(rng, z if z and rng.random() < 0.8 else may)
                if rng.random() < 0.12:
                    cond = {"op": "const", "c": rng.randint(0, 1)}
                if t["p"] == "XY" and f["p"] == "XY" and rng.random() < 0.4:  # one branch fixed, the other one free
                    t, f = rng.choice([(fixed_ment("XY", rng.choice([[0, 0], ang()])), fixed_ment("XY", free=True)),
                                       (fixed_ment("XY", free=True), fixed_ment("XY", rng.choice([[0, 0], ang()])))])
                pat.ments[v] = {**f, "k": "c", "tp": t["p"], "tfree": t["free"], "tt": t["t"], "tu": t["u"], "cond": cond}
        circ = pat.build(rng)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        angles = [ang() for _ in train]
        x = [val(a) for a in angles]
        state = rand_state(rng, len(pat.I))
        kw = {}
        if not full:
            kw["schedule"] = order
        if long and min_window(pat, [v for v in circ.measurement_order if v in pat.ments] + pat.qout()) > 8:
            return
        sim = mp.PatternSimulator(circ, input_state=vec(state), backend="numpy-dm", **kw)
        for rep in range(3):
            np.random.seed(rng.randrange(2**31))
            if rep:
                sim.reset()
            r = vk.attempt(lambda: sim.run(x))
            if r[0] == "raise":
                bad(c, "raised-" + r[1], {"pattern": pat.desc(train, angles, []), "state": state, "error": r[2]})
                return
            sched = list(sim.simulator.schedule_measure)
            oc = dict(sim.simulator.outcomes)
            if set(oc) != set(pat.ments) or any(y not in (0, 1) for y in oc.values()):
                bad(c, "outcomes-not-recorded", {"pattern": pat.desc(train, angles, []), "outcomes": str(oc)})
                return
            outs = [[v, int(oc[v])] for v in sched]
            a = pat.desc(train, angles, outs)
            c.count("runs")
            c.count("ones", sum(o for _, o in outs))
            c.count("controlled", sum(1 for m in pat.ments.values() if m["k"] == "c"))
            rho = r[1]

            def test(ans, rho=rho):
                if ans["zero"]:
                    return {"outcome-impossible"}
                return set() if same_dm(rho, vec(ans["psi"])) else {"state-of-the-recorded-branch"}
            b.ask({"kind": "long" if long else "run", "a": a, "in": state}, test, {"pattern": a, "state": state})

    for _ in range(c.n(450, 4500)):
        c.guard(one)
    for _ in range(c.n(40, 400)):
        c.guard(one, True)
    b.settle()


# --- P08 -----------------------------------------------------------------------------
def glue_maps(kind, ns, Is, Os):
    """For every part, the node of the composed circuit each of its nodes becomes."""
    if kind == "par":
        out, s = [], 0
        for n in ns:
            out.append({v: s + v for v in range(n)})
            s += n
        return out
    maps = [{v: v for v in range(ns[0])}]
    cur_n, cur_O = ns[0], list(Os[0])
    for n, I, O in zip(ns[1:], Is[1:], Os[1:]):
        keep = [v for v in range(cur_n) if v not in cur_O]
        new_of = {v: i for i, v in enumerate(keep)}
        new2 = {v: len(keep) + v for v in range(n)}
        for o, i in zip(cur_O, I):
            new_of[o] = new2[i]
        maps = [{v: new_of[w] for v, w in m.items()} for m in maps] + [new2]
        cur_n, cur_O = len(keep) + n, [new2[o] for o in O]
    return maps


def p08(c):
    rng = c.rng
    c.model("MC_Compose", "MC_Compose.cfg" if c.quick else "MC_Compose_t.cfg")
    b = Batch(c)

    def one():
        import circ as circmod
        kind = rng.choice(["seq", "seq", "par"])
        parts = rng.choice([2, 2, 2, 3])
        k = rng.choice([1, 1, 2, 2, 3]) if kind == "seq" else None
        z = rng.random()
        planes = XYP if z < 0.6 else ALLP
        ang = Angles(rng)
        pats, built = [], []
        total = 0
        for i in range(parts):
            while True:
                kk = k or rng.choice([1, 1, 2])
                n = rng.randint(kk, 5 if kind == "seq" else 4)
                es, I, O = gen.planted(rng, n, kk)
                if circmod.layers_py(n, es, I, O).keys() == set(range(n)) and len(set(I)) == kk:
                    break
            ments = {v: rand_plain(rng, planes, ang) for v in range(n) if v not in O or (i == parts - 1 and rng.random() < 0.1)}
            if planes is ALLP:
                ly = circmod.layers_py(n, es, I, O)
                for v in list(ments):
                    may = [u for u in ments if ly[u] > ly[v]]
                    if may and rng.random() < 0.3:
                        t = rand_plain(rng, ["XY", "X", "Y", "XZ"], ang)
                        ments[v] = {**ments[v], "k": "c", "tp": t["p"], "tfree": t["free"], "tt": t["t"], "tu": t["u"], "cond": rand_cond(rng, may)}
                        if ments[v]["p"] == "XYZ":
                            ments[v]["p"] = "XY"
            pats.append(Pat(n, es, I, O, ments))
            total += n
        if total > 11:
            return
        built = [p.build(rng) for p in pats]
        maps = glue_maps(kind, [p.n for p in pats], [p.I for p in pats], [p.O for p in pats])
        edges = [frozenset(m[x] for x in e) for p, m in zip(pats, maps) for e in p.edges]
        if len(set(edges)) < len(edges):
            c.count("identified edges skipped")
            return
        r = vk.attempt(lambda: (mp.hstack if kind == "seq" else mp.vstack)(built))
        case = {"kind": kind, "parts": [p.desc() for p in pats]}
        if r[0] == "raise":
            bad(c, "composition-raised-" + r[1], case)
            return
        whole = r[1]
        inv = [{w: v for v, w in m.items()} for m in maps]
        # an identified node belongs to the later part, except for its role as an output
        owner = {}
        for i, p in enumerate(pats):
            for v in p.ments:
                owner[maps[i][v]] = (i, v)
        train = list(whole.trainable_nodes)
        if any(w not in owner for w in train) or sorted(owner[w] for w in train) != sorted((i, v) for i, q in enumerate(pats) for v in q.free()):
            bad(c, "trainable-nodes-of-the-parts", {**case, "train": train})
            return
        angles = [ang() for _ in train]
        at = {w: a for w, a in zip(train, angles)}
        x = [val(a) for a in angles]
        descs = []
        for i, (p, q) in enumerate(zip(pats, built)):
            tr = p.free()
            descs.append(p.desc(tr, [at[maps[i][v]] for v in tr], zero_outs(p, q.measurement_order)))
        if kind == "seq":
            state = rand_state(rng, len(pats[0].I))
            st = vec(state)
            ask = {"kind": "seq", "parts": descs, "in": state}
        else:
            ins = [rand_state(rng, len(p.I)) for p in pats]
            st = vec(ins[0])
            for s in ins[1:]:
                st = np.kron(st, vec(s))
            ask = {"kind": "par", "parts": descs, "ins": ins}
        backends = ["numpy-dm"]
        plain = all(m["k"] == "m" and m["p"] in ("X", "Y", "XY") for p in pats for m in p.ments.values())
        if plain:
            backends.append("numpy-sv")
            if total <= 7 and not any(v in p.ments for p in pats[-1:] for v in p.O) and rng.random() < 0.4 and \
                    (kind == "seq" or not any(v in p.ments for p in pats for v in p.O)):
                backends.append("pennylane")
        got = [(be, vk.attempt(lambda: run_real(whole, be, x, st.copy()), 60)) for be in backends]
        for be in backends:
            c.count(kind + " " + be)
        case = {**case, "parts": descs, "angles": angles}

        def test(ans):
            if ans["zero"]:
                c.count("zero branch impossible")
                return set()
            v = vec(ans["psi"])
            out = set()
            for be, r in got:
                if r[0] == "raise":
                    out.add(f"{be}-raised-{r[1]}")
                elif not same_dm(r[1][1], v):
                    out.add(f"{be}-{kind}-state")
            return out
        b.ask(ask, test, case)

    for _ in range(c.n(420, 4000)):
        c.guard(one, seconds=120)
    b.settle()
