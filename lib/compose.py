"""Histories of circuits that are composed and edited (P07)."""
import vk, gen
import circ as C
import mentpy as mp
from mentpy.operators import Ment

XYD = {"k": "m", "p": "XY", "a": C.NOANGLE, "tp": "", "ta": C.NOANGLE, "cond": []}


class Work:
    def __init__(self, c, rng, scope):
        self.c, self.rng, self.scope = c, rng, scope
        self.circs, self.ev, self.case = [], [], []

    def rec(self, e, look):
        e["obs"] = [[i + 1, C.see(self.circs[i], list(range(len(self.circs[i].graph))))] for i in sorted(set(look))]
        self.ev.append(e)
        self.case.append({k: v for k, v in e.items() if k != "obs"})
        self.c.count(e["op"])

    def layers(self, i):
        x = self.circs[i]
        n = len(x.graph)
        ly = C.layers_py(n, [list(e) for e in x.graph.edges], x.input_nodes, x.output_nodes)
        return ly if len(ly) == n else None

    def part(self, nmax=5, kk=None):
        rng = self.rng
        n = rng.randint(kk or 1, max(nmax, kk or 1))
        if rng.random() < 0.85:
            es, I, O = gen.planted(rng, n, kk or rng.randint(1, max(1, n // 2)))
        else:
            k = kk or rng.randint(0, n)
            es, I, O = gen.rand_graph(rng, n), rng.sample(range(n), k), rng.sample(range(n), k)
        if kk and rng.random() < 0.2 and n > kk:     # some outputs are inputs too
            j = rng.randrange(kk)
            if O[j] not in I:
                O2 = list(O)
                O2[j] = rng.choice([v for v in I if v not in O2] or [O[j]])
                O = O2
        ly = C.layers_py(n, es, I, O)
        full = len(ly) == n
        given = {}
        for v in rng.sample(range(n), rng.randint(0, n)):
            allowed = [w for w in range(n) if not full or ly[w] > ly[v]]
            allowed = [w for w in allowed if w != v]
            given[v] = dict(C.NONE) if rng.random() < 0.15 else C.rand_ment(rng, v, allowed, 0.35)
        g = mp.GraphState()
        g.add_nodes_from(range(n))
        g.add_edges_from(map(tuple, es))

        def outc(v):
            x = Ment("X")
            x.node_id = v
            return x.outcome
        kw = {}
        dflt = C.rand_ment(rng) if rng.random() < 0.25 else None
        if dflt:
            kw["default_measurement"] = C.real_ment(dflt, rng, None)
        circ = mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O),
                             measurements={v: C.real_ment(m, rng, outc) for v, m in given.items()}, **kw)
        self.circs.append(circ)
        self.rec({"op": "part", "n": n, "edges": [list(e) for e in es], "I": list(I), "O": list(O), "dflt": dflt or XYD,
                  "given": [[v, m] for v, m in given.items()], "res": "ok"}, [len(self.circs) - 1])
        return len(self.circs) - 1

    def compose(self, op, args, pairs=None):
        xs = [self.circs[i] for i in args]
        if op == "merge":
            al = [tuple(p) for p in pairs]
            r = vk.attempt(lambda: mp.merge(xs[0], xs[1], along=al))
        else:
            seq = xs if self.rng.random() < 0.7 else tuple(xs)
            r = vk.attempt(lambda: getattr(mp, op)(seq))
        e = {"op": op, "args": [i + 1 for i in args], "res": "ok" if r[0] == "ok" else "error"}
        if pairs is not None:
            e["pairs"] = [list(p) for p in pairs]
        look = list(args)
        if r[0] == "ok":
            self.circs.append(r[1])
            look.append(len(self.circs) - 1)
        self.rec(e, look)
        return r[0] == "ok"

    def edit(self, i):
        rng, x = self.rng, self.circs[i]
        if sum(x is y for y in self.circs) > 1:
            return      # a stack of one circuit is that circuit
        n = len(x.graph)
        v = rng.randrange(n)
        op = rng.choice(["set", "set", "del", "edges"])
        e = {"op": op, "c": i + 1}
        if op == "set":
            ly = self.layers(i)
            m = C.rand_ment(rng, v, [w for w in range(n) if w != v and (ly is None or ly[w] > ly[v])], 0.35)

            def outc(w):
                y = Ment("X")
                y.node_id = w
                return y.outcome
            e.update(v=v, m=m)
            real = C.real_ment(m, rng, outc)
            r = vk.attempt(lambda: x.__setitem__(v, real))
        elif op == "del":
            e["v"] = v
            r = vk.attempt(lambda: x.__delitem__(v))
        else:
            if n < 2:
                return
            a, b = rng.sample(range(n), 2)
            e["edges"] = [[a, b]]
            r = vk.attempt(lambda: x.add_edge(a, b))
        e["res"] = "ok" if r[0] == "ok" else "error"
        self.rec(e, range(len(self.circs)))


def history(c, rng):
    w = Work(c, rng, None)
    if rng.random() < 0.1:       # many small parts, stacked at once
        kk = rng.choice([1, 1, 2])
        for _ in range(rng.choice([2, 3, 4])):
            w.part(kk + 1, kk)
        tall = kk == 2 or rng.random() < 0.5
        for op in ("hstack", "vstack") if tall else ("vstack", "hstack"):
            m = rng.choice([4, 5, 6, 7]) if kk == 1 else rng.choice([4, 5])
            w.compose(op, [rng.randrange(len(w.circs)) if i else 0 for i in range(m)])
            if len(w.circs[-1].graph) > 8:
                break
        if rng.random() < 0.4:
            w.edit(len(w.circs) - 1)
        return {"scope": ["graph", "attr", "order"], "ev": w.ev, "case": w.case}
    kk = rng.choice([1, 1, 2, 2, 3])
    for _ in range(rng.choice([1, 2, 2, 3])):
        w.part(5, kk if rng.random() < 0.9 else None)
    for _ in range(rng.randint(1, 4)):
        idx = range(len(w.circs))
        small = [i for i in idx if len(w.circs[i].graph) <= 8]
        z = rng.random()
        if z < 0.05:
            w.compose(rng.choice(["hstack", "vstack"]), [])
        elif z < 0.4:
            m = rng.choice([1, 2, 2, 2, 3, 4])
            args, tot = [], 0
            for _ in range(m):
                i = rng.choice(small)
                if tot + len(w.circs[i].graph) <= 13:
                    args.append(i)
                    tot += len(w.circs[i].graph)
            w.compose("hstack", args)
        elif z < 0.58:
            args, tot = [], 0
            for _ in range(rng.choice([1, 2, 2, 3])):
                i = rng.choice(small)
                if tot + len(w.circs[i].graph) <= 12:
                    args.append(i)
                    tot += len(w.circs[i].graph)
            w.compose("vstack", args)
        elif z < 0.88:
            a, b = rng.choice(small), rng.choice(small)
            O, I = list(w.circs[a].output_nodes), list(w.circs[b].input_nodes)
            k = min(len(O), len(I))
            if k == 0:
                continue
            j = rng.randint(1, k)
            pairs = list(zip(rng.sample(O, j), rng.sample(I, j)))
            y = rng.random()
            if y < 0.12:      # twice the same node
                p = rng.choice(pairs)
                pairs.append((p[0], rng.choice(I)) if rng.random() < 0.5 else (rng.choice(O), p[1]))
            elif y < 0.24:    # not an output, or not an input
                p = rng.randrange(len(pairs))
                bad = [v for v in w.circs[a].graph if v not in O] + [99] if rng.random() < 0.5 else None
                if bad:
                    pairs[p] = (rng.choice(bad), pairs[p][1])
                else:
                    pairs[p] = (pairs[p][0], rng.choice([v for v in w.circs[b].graph if v not in I] + [-1, 99]))
            w.compose("merge", [a, b], pairs)
        else:
            w.edit(rng.choice(small))
    return {"scope": ["graph", "attr", "order"], "ev": w.ev, "case": w.case}


def p07(c):
    c.model("MC_Compose", "MC_Compose.cfg" if c.quick else "MC_Compose_t.cfg")
    traces = [c.guard(history, c, c.rng) for _ in range(c.n(600, 7000))]
    traces = [t for t in traces if t]
    for lo in range(0, len(traces), 2000):
        c.validate("T_Compose", traces[lo:lo + 2000], cfg="ComposeReplay.cfg")
