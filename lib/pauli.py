"""Histories of Pauli operator objects (P14), stabilizers (P15), Lie algebras (P16)."""
import copy, itertools
import numpy as np
import networkx as nx
import galois
import vk, gen
import mentpy as mp
from mentpy.operators import PauliOp

GF = galois.GF(2)


def words_of(op):
    return [list(w) for w in repr(op).split("\n")]


def show(op):
    return {"txt": words_of(op), "mat": [[int(x) for x in r] for r in np.array(op.matrix)], "len": len(op),
            "nq": int(op.number_of_qubits), "items": [words_of(x) for x in op]}


class Heap:
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.o, self.ev = [], []

    def rec(self, op, r, keep=True, **kw):
        e = {"op": op, "res": "ok" if r[0] == "ok" else "error", **kw}
        if r[0] == "ok" and keep:
            self.o.append(r[1])
        e["obs"] = [show(x) for x in self.o]
        self.ev.append(e)
        self.c.count(op)

    def words(self, words, bad=False):
        rng = self.rng
        w = ["".join(x) for x in words]
        form = rng.choice(["str", "list"])
        if form == "str":
            t = rng.choice([";", "; ", " ;"]).join(w) + rng.choice(["", "", ";", "; "])
            if rng.random() < 0.2 and t:
                k = rng.randrange(len(t) + 1)
                t = t[:k] + " " + t[k:]
            if bad and (not t.strip(" ;") or t.strip(" ")[-1:] == ";"):   # these are other words
                t = ";".join(w)
                if not t.strip(" ;") or t[-1] == ";":
                    return
            arg = t
        else:
            arg = list(w)
        keep = copy.copy(arg)
        r = vk.attempt(lambda: PauliOp(arg))
        if keep != arg:
            self.c.fails.append({"clauses": ["argument-modified"], "event": 0, "spec": "Pauli", "key": "arg", "case": repr(arg)})
        self.rec("words", r, words=[list(x) for x in w])

    def matrix(self, rows):
        a = np.array(rows)
        if self.rng.random() < 0.4 and all(x in (0, 1) for r in rows for x in r):
            a = GF(a)
        b = a.copy()
        r = vk.attempt(lambda: PauliOp(a))
        if not np.array_equal(a, b):
            self.c.fails.append({"clauses": ["argument-modified"], "event": 0, "spec": "Pauli", "key": "arg", "case": repr(b)})
        self.rec("matrix", r, rows=[list(x) for x in rows])
        if r[0] == "ok" and self.rng.random() < 0.3:   # the object does not share the caller's matrix
            a[...] = 1 - np.array(b) if not isinstance(a, GF) else GF(1) - a
            self.ev[-1]["obs"] = [show(x) for x in self.o]


def p14(c):
    rng = c.rng
    c.model("MC_Pauli", "MC_Pauli.cfg" if c.quick else "MC_Pauli_t.cfg")
    L = "IXYZ"

    def word(n):
        return [rng.choice(L) for _ in range(n)]

    def history():
        h = Heap(c)
        wide = rng.random() < 0.25      # many qubits and many operators
        nq = rng.randint(5, 9) if wide else rng.randint(1, 4)
        pool = [word(nq) for _ in range(3)]
        related = []

        def equal(a, b, x, y):
            h.rec("equal", ("ok", None), keep=False, a=a + 1, b=b + 1, val=bool(x == y), ne=bool(x != y), hash=hash(x) == hash(y))

        def rword():
            return list(rng.choice(pool)) if rng.random() < 0.4 else word(nq)
        for k in range(rng.randint(2, 14)):
            z = rng.random()
            pick = lambda f=lambda x: True: rng.choice([i for i, x in enumerate(h.o) if f(x)] or [None])
            if len(h.o) < 2 or z < 0.2:
                y = rng.random()
                n = nq if rng.random() < 0.9 else rng.randint(1, 4)
                if y < 0.25 and h.o:         # a variation of an operator that is there
                    src = rng.randrange(len(h.o))
                    ws = [list(w) for w in repr(h.o[src]).split("\n")]
                    if wide and rng.random() < 0.4:
                        ws[-1][rng.randrange(len(ws[-1]))] = rng.choice(L)
                    elif rng.random() < 0.6:
                        rng.shuffle(ws)
                    else:
                        i = rng.randrange(len(ws))
                        v = rng.random()
                        if v < 0.35 and len(ws) > 1:
                            ws.pop(i)
                        elif v < 0.7:
                            ws.insert(i, list(rng.choice(ws)))
                        else:
                            ws[i][rng.randrange(len(ws[i]))] = rng.choice(L)
                    if len(ws) <= (12 if wide else 6):
                        n_o = len(h.o)
                        h.words(ws)
                        if len(h.o) > n_o:
                            related.append((src, n_o))
                            if rng.random() < 0.4:
                                equal(src, n_o, h.o[src], h.o[n_o])
                elif y < 0.5:
                    h.words([rword() if n == nq else word(n) for _ in range(rng.choice([1, 2, 5, 7, 9, 10] if wide else [1, 1, 2, 3, 4]))])
                elif y < 0.62:
                    ws = [rword() for _ in range(rng.randint(1, 3))]
                    i = rng.randrange(len(ws))
                    if rng.random() < 0.5:
                        ws[i][rng.randrange(nq)] = rng.choice(["x", "y", "z", "i", "A", "1", "+", "-"])
                    elif len(ws) > 1:
                        ws[i] = ws[i] + ["X"] if rng.random() < 0.5 else ws[i][:-1]
                    h.words(ws, bad=True)
                elif y < 0.92:
                    h.matrix([[rng.randint(0, 1) for _ in range(2 * n)] for _ in range(rng.randint(1, 10 if wide else 4))])
                elif y < 0.97:
                    if rng.random() < 0.5:
                        h.matrix([[rng.randint(0, 1) for _ in range(2 * n + 1)] for _ in range(rng.randint(1, 3))])
                    else:
                        rows = [[rng.randint(0, 1) for _ in range(2 * n)] for _ in range(rng.randint(1, 3))]
                        rows[-1][rng.randrange(2 * n)] = rng.choice([2, 3, -1])
                        h.matrix(rows)
                else:
                    x = rng.choice([3, None, ("X", "Z"), {"X"}, 1.5, "", [], [[0, 1]], b"X"])
                    h.rec("other", vk.attempt(lambda: PauliOp(x)), arg=repr(x))
                continue
            a, b = pick(), pick()
            if related and z >= 0.84 and rng.random() < 0.6:
                a, b = rng.choice(related)[::rng.choice([1, -1])]
            A, B = h.o[a], h.o[b]
            big = len(A) + len(B) > (16 if wide else 9)
            if z < 0.28:
                if big or len(A) != len(B) and (len(A) == 1 or len(B) == 1):
                    continue      # one operator against many is not specified
                h.rec("mul", vk.attempt(lambda: A * B), a=a + 1, b=b + 1)
            elif z < 0.36:
                a, b = pick(lambda x: len(x) == 1), pick(lambda x: len(x) == 1)
                if a is None or len(repr(h.o[a])) != len(repr(h.o[b])):
                    continue
                r = vk.attempt(lambda: h.o[a].commutator(h.o[b]))
                isop = r[0] == "ok" and isinstance(r[1], PauliOp)
                val = "error" if r[0] == "raise" else "op" if isop else "zero" if np.all(np.array(r[1]) == 0) else "?"
                h.rec("commutator", r, keep=isop, a=a + 1, b=b + 1, val=val)
            elif z < 0.44:
                r = vk.attempt(lambda: A.symplectic_prod(B))
                h.rec("sympl", r, keep=False, a=a + 1, b=b + 1, val=[[int(x) for x in q] for q in np.array(r[1])] if r[0] == "ok" else [])
            elif z < 0.58:
                if not big:
                    h.rec("append", vk.attempt(lambda: A.append(B)), keep=False, a=a + 1, b=b + 1)
            elif z < 0.68:
                i = rng.randint(-len(A) - 1, len(A))
                h.rec("get", vk.attempt(lambda: A[i] if rng.random() < 0.8 else A[np.int64(i)]), a=a + 1, i=i)
            elif z < 0.76:
                sl = slice(*(rng.choice([None, rng.randint(*((-9, 11) if wide else (-4, 5)))]) for _ in range(2)), rng.choice([None, None, 1, 2, -1, -2]))
                idx = list(range(len(A)))[sl]
                if idx:
                    h.rec("slice", vk.attempt(lambda: A[sl]), a=a + 1, idx=idx)
            elif z < 0.84:
                n = A.number_of_qubits
                idx = [rng.randrange(n) for _ in range(rng.randint(1, n))] if rng.random() < 0.3 else rng.sample(range(n), rng.randint(0, n))
                if rng.random() < 0.15:
                    idx.append(rng.choice([n, n + 1, -1]))
                keep = list(idx)
                h.rec("subset", vk.attempt(lambda: A.get_subset(idx)), a=a + 1, idx=keep)
                if keep != idx:
                    c.fails.append({"clauses": ["argument-modified"], "event": 0, "spec": "Pauli", "key": "arg", "case": [keep, idx]})
            elif z < 0.93:
                if A.number_of_qubits != B.number_of_qubits:
                    continue
                r = vk.attempt(lambda: B in A)
                h.rec("contains", r, keep=False, a=a + 1, b=b + 1, val=r[1] is True if r[0] == "ok" else False)
            else:
                x, y = A, B
                if rng.random() < 0.3:
                    b, y = a, PauliOp(np.array(A.matrix))     # another object with the same operators
                elif rng.random() < 0.3:
                    b, y = a, copy.deepcopy(A)
                equal(a, b, x, y)
        return {"ev": h.ev, "case": [{k: v for k, v in e.items() if k != "obs"} for e in h.ev]} if h.ev else None

    traces = [c.guard(history) for _ in range(c.n(700, 8000))]
    traces = [t for t in traces if t]
    for lo in range(0, len(traces), 2000):
        c.validate("T_Pauli", traces[lo:lo + 2000], cfg="PauliReplay.cfg")


# --- P15 -----------------------------------------------------------------------------
def p15(c):
    rng = c.rng
    c.model("MC_Stab", "MC_Stab.cfg" if c.quick else "MC_Stab_t.cfg")

    def history():
        ev = []
        M = rng.choice([9, 9, 9, 9, 14, 20])
        names = rng.choice([list(range(M)), rng.sample(range(-50, 50), M), rng.sample("bacdxyzuvmnopqrstwef", M), [x + 0.5 for x in range(M, 0, -1)]])
        inv = {x: i for i, x in enumerate(names)}

        def rec(op, r, g, **kw):
            e = {"op": op, "res": "ok" if r[0] == "ok" else "error", "stabs": [], "map": [], "seen": not blind[0] or rng.random() < 0.5, **kw}
            if not e["seen"]:           # nobody looks between this edit and the next
                ev.append(e)
                c.count("unseen " + op)
                return
            q = vk.attempt(lambda: g.stabilizers())
            if q[0] == "ok":
                e["stabs"] = words_of(q[1])
                rows = [[int(x) for x in y] for y in np.array(q[1].matrix)]
                if e["stabs"] != [["IXZY"[y[i] + 2 * y[i + len(y) // 2]] for i in range(len(y) // 2)] for y in rows]:
                    e["stabs"] = [["?"]]
                e["map"] = [[inv.get(k, -1), int(v)] for k, v in g.index_mapping().items()]
                if rng.random() < 0.2:  # what was returned belongs to the caller
                    vk.attempt(lambda: (q[1].append(PauliOp("X" * len(e["stabs"]))), g.index_mapping().clear()))
            else:
                e["res"] = "error"
            ev.append(e)
            c.count(op)

        blind = [False]
        n = rng.randint(1, 7) if M == 9 else rng.randint(8, M - 2)
        vs = rng.sample(range(M), n)
        es = [p for p in itertools.combinations(vs, 2) if rng.random() < rng.choice([0.2, 0.5, 0.9] if M == 9 else [0.1, 0.2, 0.5])]
        rng.shuffle(es)
        es = [p if rng.random() < 0.5 else p[::-1] for p in es]
        g = mp.GraphState()
        y = rng.random()
        first = vs if y < 0.6 else []
        g.add_nodes_from(names[v] for v in first)
        g.add_edges_from((names[a], names[b]) for a, b in es)
        left = [v for v in vs if names[v] not in g]
        if not len(g):
            g.add_node(names[vs[0]])
            left = [v for v in left if v != vs[0]]
            first = [vs[0]]
        gen.dress(rng, g)
        if y > 0.9:
            g = mp.GraphState(g)
        rec("start", ("ok", 0), g, nodes=first, edges=[list(p) for p in es])
        blind[0] = rng.random() < 0.6
        for _ in range(rng.randint(0, 8)):
            z = rng.random()
            inside = [inv[x] for x in g.nodes]
            if z < 0.2:
                v = rng.randrange(M)
                rec("node", vk.attempt(lambda: g.add_node(names[v])), g, v=v)
            elif z < 0.55:
                ps = [rng.sample(range(M) if rng.random() < 0.3 else inside if len(inside) > 1 else range(M), 2) for _ in range(rng.randint(1, 3))]
                att = {} if rng.random() < 0.93 else {"weight": rng.choice([0, 0.5, 2])}
                f = (lambda: [g.add_edge(names[a], names[b], **att) for a, b in ps]) if rng.random() < 0.5 else \
                    (lambda: g.add_edges_from([(names[a], names[b]) for a, b in ps]))
                rec("edges", vk.attempt(f), g, edges=[list(p) for p in ps])
            elif z < 0.7 and len(inside) > 1:
                v = rng.choice(inside)
                rec("del", vk.attempt(lambda: g.remove_node(names[v])), g, v=v)
            elif z < 0.85 and g.number_of_edges():
                a, b = rng.choice(list(g.edges))
                move = rng.random() < 0.5 and [p for p in itertools.combinations(list(g.nodes), 2) if not g.has_edge(*p)]
                rec("cut", vk.attempt(lambda: g.remove_edge(b, a)), g, v=inv[a], w=inv[b])
                if move:                # as many nodes and edges as before
                    x, w = rng.choice(move)
                    rec("edges", vk.attempt(lambda: g.add_edge(x, w)), g, edges=[[inv[x], inv[w]]])
            else:
                k = rng.random()
                if k < 0.4:
                    h = g.copy()
                elif k < 0.6:
                    h = copy.deepcopy(g)
                elif k < 0.8 and names == list(range(M)) and sorted(g.nodes) == list(range(len(g))) and list(g.nodes) == sorted(g.nodes):
                    h = mp.MBQCircuit(g, input_nodes=[], output_nodes=[])
                else:
                    h = nx.subgraph(g, list(g.nodes))
                rec("same", ("ok", 0), h)
                if k < 0.6 and rng.random() < 0.5:
                    g = h               # go on with the copy
        blind[0] = False
        rec("same", ("ok", 0), g)
        return {"ev": ev, "case": ev}

    traces = [c.guard(history) for _ in range(c.n(900, 10000))]
    traces = [t for t in traces if t]
    for lo in range(0, len(traces), 3000):
        c.validate("T_Stab", traces[lo:lo + 3000], cfg="StabReplay.cfg")


# --- P16 -----------------------------------------------------------------------------
def p16(c):
    rng = c.rng
    from mentpy.utils import lie_algebra as la
    c.model("MC_Stab", "MC_Stab.cfg" if c.quick else "MC_Stab_t.cfg")
    traces = []

    def one():
        n = rng.randint(2, 8)
        k = rng.randint(1, max(1, min(3, n // 2)))
        es, I, O = gen.planted(rng, n, k)
        if len(O) == n or not [v for v in range(n) if v not in O]:
            return
        g = mp.GraphState()
        g.add_nodes_from(range(n))
        g.add_edges_from(es)
        circ = mp.MBQCircuit(g, input_nodes=I, output_nodes=O)
        if circ.flow is None:
            return
        if rng.random() < 0.5:
            import sim
            circ.measurement_order = sim.random_extension(rng, circ)
        r = vk.attempt(lambda: (la.calculate_complete_gens_lie_algebra(circ), la.calculate_gens_lie_algebra(circ),
                                la.calculate_lie_algebra(circ, max_iter=10**6) if rng.random() < 0.6 else None), 60)
        e = {"op": "lie", "n": n, "edges": [list(x) for x in es], "I": I, "O": O, "res": "ok" if r[0] == "ok" else "error",
             "complete": [], "gens": [], "algebra": []}
        if r[0] == "ok":
            e["complete"], e["gens"] = words_of(r[1][0]), words_of(r[1][1])
            if list(circ.outputc) != sorted(circ.outputc):     # listed in the order of outputc
                e["complete"] = [w for _, w in sorted(zip(circ.outputc, e["complete"]))]
            if r[1][2] is not None:
                e["algebra"] = words_of(r[1][2])
        c.count("circuits")
        traces.append({"ev": [e], "case": {**e, "error": r[2] if r[0] == "raise" else ""}})

    def completion():
        nq = rng.choice([1, 2, 2, 3, 3, 3])
        words = ["".join(p) for p in itertools.product("IXYZ", repeat=nq)]
        gens = rng.sample(words, min(len(words), rng.randint(1, 5) if rng.random() < 0.9 else rng.randint(7, 10)))
        p = PauliOp(";".join(gens))
        mx = rng.choice([10**6, 10**6, 1000, 1, 2, 5, 20])
        r = vk.attempt(lambda: la.lie_algebra_completion(p, max_iter=mx), 60)
        e = {"op": "complete", "gens": [list(w) for w in gens], "res": "ok" if r[0] == "ok" else "error", "short": mx < 10**6,
             "result": words_of(r[1]) if r[0] == "ok" else [], "kept": words_of(p) == [list(w) for w in gens]}
        c.count("completions")
        c.count("cut short", int(r[0] != "ok"))
        traces.append({"ev": [e], "case": {**e, "max_iter": mx}})

    def distinct():
        nq = rng.randint(1, 2)
        gens = [[rng.choice("IXYZ") for _ in range(nq)] for _ in range(rng.randint(1, 8))]
        p = PauliOp(["".join(w) for w in gens])
        r = vk.attempt(lambda: la.remove_repeated_ops(p))
        e = {"op": "distinct", "gens": gens, "res": "ok" if r[0] == "ok" else "error", "result": words_of(r[1]) if r[0] == "ok" else [],
             "kept": words_of(p) == gens}
        traces.append({"ev": [e], "case": e})

    for n in range(1, 41):
        d = [vk.attempt(lambda: f(n)) for f in (la.dim_su, la.dim_so, la.dim_sp)]
        v = [x[1] if x[0] == "ok" and isinstance(x[1], int) else -1 for x in d]
        e = {"op": "dim", "n": n, "su": v[0], "so": v[1], "sp": v[2]}
        c.count("dimensions")
        traces.append({"ev": [e], "case": e})
    for _ in range(c.n(330, 3000)):
        c.guard(one, seconds=120)
    for _ in range(c.n(200, 2000)):
        c.guard(completion, seconds=120)
    for _ in range(c.n(150, 1500)):
        c.guard(distinct)
    c.validate("T_Stab", traces, cfg="StabReplay.cfg")
