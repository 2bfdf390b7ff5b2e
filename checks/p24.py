"""P24: a state expression names exactly the value at the end of its path."""
import json

import numpy as np

from vlib.ctx import limited

CFG = "INIT Init\nNEXT Step\nCONSTANT MaxLen = {n}\nINVARIANTS Unique RootHasAttributesOnly Emit\n"


class Obj:
    pass


NAMES = ["w", "filt", "ir", "mic", "a_1", "B", "state2", "_x", "buffer", "idx", "name_with_underscores"]
KEYS = ["mic", "loudspeaker 1", "0", "a-b", "Käse", "x y z", "12", "p/q", "(a)", "-1", "key", "0.5", "[1]", "a]b", "", "v.w.x", "a.b[0]", "]["]


def tree(rng, nodes, depth_bias):
    """A random tree; children of a node are all attributes, all keys or all indices."""
    edges, kinds, depth = [], {1: "attr"}, {1: 0}
    used = {1: set()}
    for c in range(2, nodes + 2):
        cand = [n for n in kinds if kinds[n] != "leaf"]
        p = max((cand[int(k)] for k in rng.integers(0, len(cand), size=depth_bias)), key=lambda n: depth[n])
        kind = kinds[p]
        free = [x for x in (NAMES if kind == "attr" else KEYS) if x not in used[p]] if kind != "index" else [str(len(used[p]))]
        if not free:
            continue
        name = free[int(rng.integers(0, len(free)))]
        used[p].add(name)
        edges.append({"p": p, "c": c, "kind": kind, "name": name})
        kinds[c] = str(rng.choice(["attr", "key", "index", "leaf"]))
        used[c], depth[c] = set(), depth[p] + 1
    for e in edges:     # some are counted from the end
        if e["kind"] == "index" and e["c"] % 3 == 0:
            e["name"] = str(int(e["name"]) - sum(x["p"] == e["p"] for x in edges))
    return edges


def build(edges, root=1):
    kid = {}
    for e in edges:
        kid.setdefault(e["p"], []).append(e)
    objs = {}

    def make(n):
        if n in kid and kid[n][0]["kind"] == "attr":
            o = Obj()
            for e in kid[n]:
                setattr(o, e["name"], make(e["c"]))
        elif n in kid and kid[n][0]["kind"] == "key":
            o = {e["name"]: make(e["c"]) for e in kid[n]}
        elif n in kid:
            o = [make(e["c"]) for e in kid[n]]
            if n % 2:
                o = tuple(o)
        else:
            o = np.full((1, 1), float(n))
        objs[n] = o
        return o
    return make(root), objs


def replace(edges, objs, rng):
    """Puts new objects below the root, at a few places of the tree (never within a tuple)."""
    for e in [edges[int(k)] for k in rng.integers(0, len(edges), size=3)]:
        parent = objs[e["p"]]
        if isinstance(parent, tuple):
            continue
        _, new = build(edges, e["c"])
        objs.update({n: o for n, o in new.items()})
        if e["kind"] == "attr":
            setattr(parent, e["name"], objs[e["c"]])
        elif e["kind"] == "key":
            parent[e["name"]] = objs[e["c"]]
        else:
            parent[int(e["name"])] = objs[e["c"]]


def getter(expr):
    from aspsim.diagnostics.core import attritemgetter
    return attritemgetter(expr)


def run(ctx):
    trees = [tree(ctx.rng, int(ctx.rng.integers(1, 26)), 1 + i % 4) for i in range(ctx.n(150, 1500))]
    # one tree with every kind below every kind
    full, c = [], 1
    level = [(1, "attr")]
    for d in range(4):
        nxt = []
        for p, kind in level:
            for j, below in enumerate(["attr", "key", "index"] if d < 3 else ["leaf"]):
                c += 1
                full.append({"p": p, "c": c, "kind": kind,
                             "name": {"attr": NAMES, "key": KEYS}[kind][j] if kind != "index" else str(j)})
                nxt.append((c, below))
        level = nxt
    trees.append(full)
    f = ctx.scratch / "trees.json"
    f.write_text(json.dumps(trees))
    r = ctx.model("AttrPath", CFG.format(n=12), env={"TRACE_FILE": str(f)})
    ctx.exhaustive = True
    built = [build(t) for t in trees]
    getters = [limited(getter, o["expr"]) for o in r.out]
    for when in ("at first", "in another object", "after a change"):
        if when == "in another object":     # the same expressions, made once, for other objects of the same shape
            built = [build(t) for t in trees]
        if when == "after a change":
            for t, (root, objs) in zip(trees, built):
                replace(t, objs, ctx.rng)
        for o, g in zip(r.out, getters):
            root, objs = built[o["tid"] - 1]
            try:
                got = limited(g, root)
            except Exception as e:      # noqa: BLE001
                ctx.violate("expression", f"{when} {o['expr']!r} raised {type(e).__name__}: {e}", {"tree": trees[o["tid"] - 1], **o})
                continue
            if got is not objs[o["at"]]:
                ctx.violate("expression", f"{when} {o['expr']!r} gives another value", {"tree": trees[o["tid"] - 1], **o})
    for o in r.out[:3]:
        ctx.sample(o)
    ctx.traces += len(r.out)
    ctx.notes["expressions"] = len(r.out)
