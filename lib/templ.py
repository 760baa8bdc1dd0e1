"""Templates (P23)."""
import random
import vk
import circ as C
import mentpy as mp
from mentpy.operators import Ment

XYD = {"k": "m", "p": "XY", "a": C.NOANGLE, "tp": "", "ta": C.NOANGLE, "cond": []}


def p23(c):
    c.model("MC_Templates", "MC_Templates.cfg" if c.quick else "MC_Templates_t.cfg")
    rng = c.rng
    traces = []
    T = mp.templates

    def options(n):
        """Keyword arguments of the circuit, abstract and real."""
        kw, e = {}, {"dflt": XYD, "given": []}
        if rng.random() < 0.3:
            e["dflt"] = C.rand_ment(rng)
            kw["default_measurement"] = C.real_ment(e["dflt"], rng, None)
        if rng.random() < 0.4:
            given = {v: C.rand_ment(rng) for v in rng.sample(range(n), rng.randint(1, n))}
            e["given"] = [[v, m] for v, m in given.items()]
            kw["measurements"] = {v: C.real_ment(m, rng, None) for v, m in given.items()}
        return kw, e

    def add(name, call, a=0, b=0, flag=False, ns=(), sized=True, opt=None):
        e = {"name": name, "a": a, "b": b, "flag": flag, "ns": list(ns), "sized": sized, "obs": []}
        e.update(opt or {"dflt": XYD, "given": []})
        r = vk.attempt(call, 250)
        e["res"] = "ok" if r[0] == "ok" else "error"
        case = [name, a, b, flag, list(ns), sized, e["dflt"], e["given"]]
        c.count(name)
        if r[0] == "ok" and sized:
            o = c.guard(lambda: C.see(r[1], list(range(len(r[1].graph))), po=False), case=case, seconds=200)
            if o is None:
                return
            e["obs"] = [o]
        traces.append({"scope": [], "ev": [e], "case": case})

    def opts(n):
        return options(n) if n >= 1 else ({}, None)

    for n in list(range(2, c.n(13, 20))) + [0, -1] + c.n([25], [25, 40]):
        for _ in range(3 if n < 13 else 1):
            kw, o = opts(n) if n > 0 else ({}, None)
            add("linear", lambda: T.linear_cluster(n, **kw), a=n, opt=o)
    for _ in range(c.n(60, 400)):
        ns = [rng.randint(2, 5) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15:
            ns = [rng.randint(2, 3) for _ in range(rng.randint(5, 8))]
        elif rng.random() < 0.15:
            ns = rng.sample([2, 3, rng.randint(6, 11)], rng.randint(1, 3))
        if rng.random() < 0.2:
            ns[rng.randrange(len(ns))] = rng.choice([1, 0, -1])
            add("wires", lambda: T.many_wires(ns), ns=ns)
        else:
            kw, o = options(sum(ns))
            arg = ns if rng.random() < 0.7 else tuple(ns)
            add("wires", lambda: T.many_wires(arg, **kw), ns=ns, opt=o)
            if list(arg) != ns:
                c.fails.append({"clauses": ["wires-argument-modified"], "event": 0, "spec": "T_Templates", "key": "arg", "case": ns})
    add("wires", lambda: T.many_wires([2, 2.0]), sized=False)
    add("wires", lambda: T.many_wires([2, "3"]), sized=False)
    add("wires", lambda: T.many_wires([]), ns=[])
    for n in range(1, c.n(5, 7)):
        for m in range(1, c.n(5, 7)):
            if n * m == 1:
                continue
            for flag in (False, True):
                kw, o = options(n * m)
                if flag or rng.random() < 0.5:
                    kw["periodic"] = flag
                add("grid", lambda: T.grid_cluster(n, m, **kw), a=n, b=m, flag=flag, opt=o)
    for n, m in ((1, 12), (2, 7), (7, 2), (3, 5), (5, 3), (6, 1)) + c.n((), ((2, 11), (11, 2), (4, 6), (8, 3))):
        for flag in (False, True):
            kw, o = options(n * m)
            add("grid", lambda: T.grid_cluster(n, m, periodic=flag, **kw), a=n, b=m, flag=flag, opt=o)
    for n, m in ((0, 2), (-1, 3), (3, 0), (2, -1)):
        add("grid", lambda: T.grid_cluster(n, m), a=n, b=m)
    for w in range(1, c.n(4, 5)):
        for l in range(1, c.n(3, 4)):
            for one in (False, True):
                for r in (False, True):
                    kw = {}
                    if one or rng.random() < 0.5:
                        kw["one_column"] = one
                    if not r or rng.random() < 0.5:
                        kw["restrict_trainable"] = r
                    add("muta", lambda: T.muta(w, l, **kw), a=w, b=l, flag=one)
    # few wires and many layers, and the other way round
    for w, l, one in [(1, 3, False), (1, 4, False), (1, 5, False), (1, 7, True), (2, 3, False), (2, 4, True), (2, 5, True),
                      (3, 3, True), (4, 1, True), (5, 1, True), (6, 1, True), (4, 2, True)] + \
            c.n([], [(1, 9, False), (2, 4, False), (2, 6, True), (4, 1, False), (3, 3, False), (7, 1, True), (4, 4, True)]):
        add("muta", lambda: T.muta(w, l, one_column=one), a=w, b=l, flag=one)
    for w, l in ((0, 1), (1, 0), (2, 0), (-1, 1), (3, -2)):
        add("muta", lambda: T.muta(w, l), a=w, b=l)
    for q, l, per in [(4, 0, False), (5, 0, True), (4, 1, False), (5, 1, False), (4, 1, True), (4, 2, False), (5, 1, True), (6, 1, False), (6, 1, True)] + \
            ([] if c.quick else [(4, 2, True), (7, 1, False), (7, 1, True), (6, 0, True), (4, 3, False), (5, 2, False)]):
        if True:
            add("spt", lambda: T.spturb(q, l, per) if rng.random() < 0.5 else T.spturb(q, l, periodic=per), a=q, b=l, flag=per)
    for q in (3, 2, 1, 0, -4):
        add("spt", lambda: T.spturb(q, 1), a=q, b=1)
    c.validate("T_Templates", traces, cfg="TemplatesReplay.cfg")
    c.assumptions.append("the trainable nodes of muta(1, 1) are not checked (its restriction is undocumented and has no effect on other sizes)")


# --- P24 ----------------------------------------------------------------------------
import itertools
import numpy as np
import sim
from mentpy.operators import PauliOp


def schedule_of(circ, n):
    if circ.flow is not None and circ.measurement_order is not None:
        return None
    # wires first, then the gadget's nodes, then the middles
    return [3 * q for q in range(n)] + [3 * n + 1, 3 * n] + [3 * q + 1 for q in range(n)] + [3 * q + 2 for q in range(n)]


def p24(c):
    c.model("MC_PauliExp", "MC_PauliExp.cfg" if c.quick else "MC_PauliExp_t.cfg")
    rng = c.rng
    traces, runs = [], []

    def make(word):
        z = rng.random()
        if z < 0.5:
            return PauliOp(word)
        if z < 0.7:
            return PauliOp([word])
        return PauliOp(np.array([[int(l in "XY") for l in word] + [int(l in "ZY") for l in word]]))

    def one(word, times):
        n = len(word)
        op = make(word)
        r = vk.attempt(lambda: mp.templates.from_pauli(op))
        ev = [{"op": "built", "ok": r[0] == "ok", "ins": 0, "outs": 0, "train": 0}]
        got = {}
        if r[0] == "ok":
            circ = r[1]
            ev[0].update(ins=len(circ.input_nodes), outs=len(circ.quantum_output_nodes), train=len(circ.trainable_nodes))
            sched = schedule_of(circ, n)
            for _ in range(times):
                h = [rng.randint(-8, 8), rng.choice([0, 0, 0, 1, -1])]
                if set(word) == {"I"}:
                    h = [rng.choice([1, 3, 5, -1]), 0]
                state = sim.rand_state(rng, n)
                be = "numpy-dm" if n <= 2 and rng.random() < 0.6 else "numpy-sv"
                kw = {"schedule": sched} if sched is not None else {}
                if be == "numpy-sv":
                    kw["output_form"] = "sv"
                r = vk.attempt(lambda: sim.run_real(circ, be, [sim.val([2 * h[0], 2 * h[1]])], sim.vec(state), **kw)[1], 60)
                if r[0] == "ok":
                    got[len(ev)] = (be, r[1])
                ev.append({"op": "run", "h": h, "in": state, "ok": r[0] == "ok"})
                c.count(be)
        traces.append({"w": list(word), "ev": ev, "case": [word, [e.get("h") for e in ev], [e.get("in") for e in ev] if n < 3 else "..."]})
        runs.append(got)
        c.count(f"{n} qubits")

    words = ["".join(w) for n in (1, 2) for w in itertools.product("IXYZ", repeat=n)]
    if not c.quick:
        words = words * 3
    for w in words:
        c.guard(one, w, 5 if len(w) < 2 else 3)
    for _ in range(c.n(14, 150)):
        n = rng.choice([3, 3, 3, 4] if not c.quick else [3, 3, 3, 3, 4])
        w = "".join(rng.choice("IXYYZ") for _ in range(n))
        c.guard(one, w, 2, seconds=200)
    for w in ["YYYY", "YYYYY", "YYYYYY", "YXYZYY"] + ["".join(rng.choice("IXYYZ") for _ in range(rng.choice([5, 5, 6]))) for _ in range(c.n(4, 16))]:
        c.guard(one, w, 2, seconds=200)
    c.guard(one, "YYY", 3, seconds=200)
    c.guard(one, "XYZ", 3, seconds=200)
    for bad in ("XX;YY", "X;Z", "X;X", "XYZ;ZZZ;III", "I;I"):
        op = PauliOp(bad)
        r = vk.attempt(lambda: mp.templates.from_pauli(op))
        traces.append({"w": ["I"], "ev": [{"op": "reject", "ok": r[0] == "ok"}], "case": [bad]})
        runs.append({})
    c.validate("T_PauliExp", traces, cfg="PauliExpReplay.cfg")
    signs = {}
    for i, (t, got) in enumerate(zip(traces, runs)):
        def test():
            word = "".join(t["w"])
            for pos, (be, res) in got.items():
                a = c.results.get((i, pos))
                if a is None:
                    return set()
                fits = set()
                for name in ("plus", "minus"):
                    v = sim.vec(a[name])
                    if (sim.same_sv if be == "numpy-sv" else sim.same_dm)(res, v):
                        fits.add(name)
                signs[word] = signs.get(word, {"plus", "minus"}) & fits
                c.count("states compared")
                if not fits:
                    return {"not-the-rotation"}
                if not signs[word]:
                    return {"sign-not-constant"}
            return set()
        r = c.guard(test, case=t["case"])
        if r:
            c.fail(t, r, 1, "T_PauliExp")
    c.assumptions.append("angles whose half is k*pi/4 + m*atan(4/3); without a causal flow, gadget nodes are measured between inputs and middles")
