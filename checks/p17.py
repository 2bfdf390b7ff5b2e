"""P17: cutting samples into blocks."""
from vlib.ctx import limited

CFG = """INIT MCInit
NEXT MCNext
CONSTANTS MaxNum = {n}
 MaxBlk = {b}
 MaxBuf = {u}
INVARIANTS Whole Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\nINVARIANT Whole\nCONSTANTS MaxNum = 0\n MaxBlk = 0\n MaxBuf = 0\n"


def ask(q):
    from aspsim import processor, utilities
    if q["kind"] == "ring":
        return [int(x) for x in utilities.calc_block_sizes(q["num"], q["start"], q["blk"])], None
    if q["kind"] == "buffer":
        return [int(x) for x in processor.calc_block_sizes_with_buffer(q["num"], q["start"], q["buf"], q["blk"])], None
    pairs = [[int(a), int(b)] for a, b in processor.block_process_until_index(q["start"], q["num"], q["blk"])]
    return pairs, int(processor.find_first_index_for_block(q["start"], q["num"], q["blk"]))


def run(ctx):
    r = ctx.model("Blocks", CFG.format(n=ctx.n(9, 16), b=ctx.n(5, 8), u=ctx.n(4, 8)))
    ctx.exhaustive = True
    for o in r.out:
        out, first = limited(ask, o["q"])
        if out != [x if isinstance(x, int) else list(x) for x in o["out"]] or first not in (None, o["first"]):
            ctx.violate("pieces " + o["q"]["kind"], f"{o['q']}: got {out} (first {first}), should be {o['out']} (first {o['first']})",
                        {"model": o, "got": out, "first": first})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    traces = []
    rng = ctx.rng
    for i in range(ctx.n(400, 4000)):
        kind = ["ring", "buffer", "until"][i % 3]
        blk, buf, num = int(rng.integers(1, 300)), int(rng.integers(0, 300)), int(rng.integers(0, 2000))
        top = {"ring": blk, "buffer": blk + buf, "until": num + 1}[kind]
        q = {"kind": kind, "num": num, "start": int(rng.integers(0, top)), "blk": blk, "buf": buf if kind == "buffer" else 0}
        out, first = limited(ask, q)
        traces.append({"q": q, "out": out, "first": first if first is not None else 0})
    for tr, v in zip(traces, ctx.judge("BlocksTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f"{f} {tr['q']['kind']}", f"{tr['q']}: got {tr['out'][:20]}, first {tr['first']}", tr)
        ctx.sample({"request": tr["q"], "pieces": len(tr["out"]), "fails": v["fails"]})
