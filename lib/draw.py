"""Drawings (P29)."""
import math, random
import numpy as np
import vk
import circ as C
import mentpy as mp
from mentpy.mbqc.view import get_node_colors, process_labels

COLOURS = {"#ffbd59": "trainable", "#a88fe8": "controlled", "#add8e6": "blue", "#cccccc": "fixed", "#ffffff": "white"}
ARROWS = {r"$\uparrow$": "up", r"$\rightarrow$": "right", r"$\nearrow$": "ne", r"$\cdot$": "dot", r"$\nwarrow$": "nw",
          r"$\nwarrow \nearrow$": "nw-ne", "": "none"}
STYLES = ["default", "black_and_white", "blue_inputs"]
OPTIONS = ["planes", "arrows", "angles"]


def label(x, option, inv):
    """A label as a kind and a number."""
    if option == "indices":
        return ["index", inv.get(x, -1)]
    if x == "Ctrl":
        return ["ctrl", 0]
    if option == "planes":
        return [str(x), 0]
    if option == "arrows":
        return [ARROWS.get(x, "?" + str(x)), 0]
    if isinstance(x, str):
        if x == "":
            return ["none", 0]
        if x == r"$\theta$":
            return ["theta", 0]
        try:
            x = float(x)
        except ValueError:
            return ["?" + x, 0]
    return ["angle", C.enc(x)]


def shown(circ, labels):
    inv = {l: i for i, l in enumerate(labels)}
    o = C.see(circ, labels, po=False)
    o["col"] = {s: [[inv.get(v, -1), COLOURS.get(str(k).lower(), str(k))] for v, k in get_node_colors(circ, style=s).items()] for s in STYLES}
    o["lab"] = {}
    for k in OPTIONS:
        d = process_labels(circ, {"label": k})
        o["lab"][k] = [[inv.get(v, -1), label(x, k, inv)] for v, x in d.items()]
    return o


class Drawn(C.History):
    def look(self):
        return [shown(x, self.view) for x in self.circs]

    def draw(self):
        import matplotlib
        import matplotlib.pyplot as plt
        from matplotlib.colors import to_hex
        rng = self.rng
        i = rng.randint(1, len(self.circs))
        circ = self.circs[i - 1]
        style, option = rng.choice(STYLES), rng.choice(["indices", "indices"] + OPTIONS)
        kw = {}
        wires = []
        if rng.random() < 0.35:  # the caller's rows; "*" leaves a gap
            vs = rng.sample(self.view, rng.randint((self.n + 1) // 2, self.n))
            while vs:
                k = rng.randint(1, min(rng.choice([1, 2, 3]), len(vs)))
                row, vs = vs[:k], vs[k:]
                for _ in range(rng.choice([0, 0, 1])):
                    row.insert(rng.randint(0, len(row)), "*")
                wires.append(tuple(row))
            kw["fix_wires"] = wires
            option = "indices"
        if style != "default" or rng.random() < 0.5:
            kw["style"] = style
        if option != "indices" or rng.random() < 0.3:
            kw["label"] = option
        if rng.random() < 0.3:
            kw["show_flow"] = False
        if rng.random() < 0.3:
            kw["show_controls"] = False
        before = self.look()
        np.random.seed(rng.randrange(2**31))
        r = vk.attempt(lambda: mp.draw(circ, **kw), 60)
        e = {"op": "draw", "c": i, "style": style, "option": option, "res": "ok" if r[0] == "ok" else "error", "col": [], "pos": [], "texts": [],
             "lines": [], "dashed": [], "arrows": [], "showflow": kw.get("show_flow", True), "showctrl": kw.get("show_controls", True),
             "rows": [[self.view.index(v) if v != "*" else -1 for v in w] for w in wires]}
        try:
            if r[0] == "ok":
                fig, ax = r[1]
                spot = lambda p: (round(float(p[0]), 6), round(float(p[1]), 6))
                names = {str(v): v for v in self.view}
                inv = {l: k for k, l in enumerate(self.view)}
                cols = {}
                for col in ax.collections:
                    if type(col).__name__ == "PathCollection":
                        face, off = col.get_facecolors(), col.get_offsets()
                        for k, p in enumerate(off):
                            cols.setdefault(spot(p), set()).add(to_hex(face[k % len(face)]))
                texts = {(spot(t.get_position()), t.get_text()) for t in ax.texts}
                free = len({p for p, _ in texts}) == len(texts) == self.n
                if not free:      # nodes on top of each other cannot be told apart
                    return
                for p, t in sorted(texts):
                    x = names.get(t, t) if option == "indices" else t
                    e["texts"].append(label(x, option, inv))
                    if option == "indices":
                        v = inv.get(x, -1)
                        e["pos"].append([v, [round(100 * p[0]), round(100 * p[1])]])
                        for h in cols.get(p, {"nothing"}):
                            e["col"].append([v, COLOURS.get(h, h)])
                if option == "indices":
                    where = {p: inv.get(names.get(t, t), -1) for p, t in texts}
                    for col in ax.collections:
                        if type(col).__name__ == "LineCollection":
                            kinds = col.get_linestyle()
                            for k, seg in enumerate(col.get_segments()):
                                dash = kinds[k % len(kinds)][1] is not None
                                e["dashed" if dash else "lines"].append([where.get(spot(seg[0]), -1), where.get(spot(seg[-1]), -1)])
                    for p in ax.patches:
                        if type(p).__name__ == "FancyArrowPatch":
                            e["arrows"].append([where.get(spot(q), -1) for q in p._posA_posB])
        finally:
            plt.close("all")
        now = self.look()
        e["same"] = now == before
        self.rec(e)

    def bad(self):
        kw = self.rng.choice([{"style": "nope"}, {"label": "nope"}, {"style": "Default"}, {"pauliop": mp.PauliOp("X" * self.n + ";" + "Z" * self.n)},
                              {"style": ""}, {"label": ""}])
        import matplotlib.pyplot as plt
        r = vk.attempt(lambda: mp.draw(self.circs[0], **kw))
        plt.close("all")
        self.rec({"op": "badoption", "res": "ok" if r[0] == "ok" else "error", "kw": str(kw)})


def p29(c):
    import matplotlib
    matplotlib.use("Agg")
    c.model("MC_Draw", "MC_Draw.cfg" if c.quick else "MC_Draw_t.cfg")
    rng = c.rng
    traces = []

    def one(draws):
        h = C.start(c, rng, ["draw"], 7, 0.7)
        h.__class__ = Drawn
        h.new(C.rand_given(h, rng) if rng.random() < 0.6 else None, C.rand_ment(rng) if rng.random() < 0.3 else None)
        if h.circs:
            for _ in range(rng.randint(1, 3 if draws else 8)):
                h.randop(["set", "set", "set", "del", "setall", "copy", "edges"])
                if draws and h.O and rng.random() < 0.6:
                    h.draw()
                    c.count("drawings")
                    if rng.random() < 0.1:
                        h.bad()
        traces.append(h.trace())
    for i in range(c.n(450, 6000)):
        c.guard(one, False)
    for i in range(c.n(130, 1200)):
        c.guard(one, True)

    def pauli():
        """labels from a Pauli operator, and drawings of graph states"""
        import matplotlib.pyplot as plt
        n = rng.randint(1, 7)
        g = mp.GraphState()
        order = list(range(n))
        kw = {}
        if rng.random() < 0.4:      # operators are in the order of the nodes of the graph
            rng.shuffle(order)
            kw = {"relabel_indices": False}
        g.add_nodes_from(order)
        g.add_edges_from(e for e in [(i, j) for i in range(n) for j in range(i)] if rng.random() < 0.4)
        txt = "".join(rng.choice("IXYZ") for _ in range(n))
        circ = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[n - 1], **kw)
        d = process_labels(circ, {"label": "pauliop", "pauliop": mp.PauliOp(txt)})
        edges = sorted(map(sorted, g.edges))
        r = vk.attempt(lambda: mp.draw(g))
        ok = r[0] == "ok"
        texts = sorted({t.get_text() for t in r[1][1].texts}) if ok else []
        r2 = vk.attempt(lambda: mp.draw(circ, pauliop=mp.PauliOp(txt), fix_wires=[tuple(range(n))]))
        drawn = [t for _, t in sorted({(round(float(t.get_position()[0]), 6), t.get_text()) for t in r2[1][1].texts})] if r2[0] == "ok" else []
        plt.close("all")
        traces.append({"scope": [], "ev": [{"op": "pauli", "n": n, "order": order, "letters": list(txt), "d": [[k, v] for k, v in d.items()], "res": "ok" if ok else "error",
                                            "drawn": drawn, "texts": texts, "names": sorted(str(i) for i in range(n)), "same": edges == sorted(map(sorted, g.edges))}], "case": [txt, edges]})
    for _ in range(c.n(25, 250)):
        c.guard(pauli)
    c.validate("T_Circuit", traces)
    c.assumptions.append("circuits of up to 7 nodes with at least one output when drawn; angles are multiples of a quarter; pictures in which two nodes coincide are not compared")
