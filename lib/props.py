"""What is explored for each property.  A check is a list of stages: models of the specification alone (TLC,
exhaustive within small constants) and recorded runs of the code validated against the specification."""
import json, os
from gen import *
import core

ALL = tuple(core.VARIANTS)
W32 = tuple(core.WASM)
HEAD = dict(decode=False)
HEADLOG = {"out": "head", "px": False, "headlen": 1500}


def stream(r, scens, label, variants=core.DEFAULT, decode=True, exp=False, **kw):
    recs = r.execute(scens, variants)
    for x in recs:
        if x["scen"].get("plan"):      # a picture made from coefficients: the specification may look at them
            g = x["scen"]["ops"][-1]["img"]
            d = json.loads(x["line"])
            d["plan"] = [{"n": n, "b": b} for n, b in zip(g["rep"], g["blocks"])]
            x["line"] = json.dumps(d, separators=(",", ":"))
    r.validate(recs, "StreamTrace", {"Check": f'"{r.prop}"', "Decode": str(decode).upper(), "NeedExp": str(exp).upper()}, label, view="View", **kw)


def replay(path):
    """runs the recorded scenario again on the current tree and judges it as its stage did"""
    d = json.load(open(path))
    from run import Run, Violation
    r = Run(d["property"], "quick", 1)
    s, mod, vs, label = d["scenario"], d["module"], tuple(d["builds"]) or core.DEFAULT, "replay of: " + d["stage"]
    try:
        if s is None:
            raise core.ToolError("no scenario in this file: the specification alone failed")
        if mod == "StreamTrace":
            c = d["constants"]
            stream(r, [s], label, vs, c["Decode"] == "TRUE", c["NeedExp"] == "TRUE")
        elif mod == "SameOutput" and "how" in s:
            together(r, [(s["id"], s["how"], s["group"])], label, vs)
        elif mod == "SameOutput":
            log = s["group"][0].get("log", {})
            same(r, [(s["id"], s["group"])], label, vs, not log.get("px", False), log.get("rows", False))
        elif mod == "SinkTrace":
            r.validate(sink_records(r, [s], vs), mod, d["constants"], label, view="View")
        elif mod == "CallbackTrace":
            r.validate(callback_records(r, [s], vs, s["log"].get("out") == "full"), mod, d["constants"], label, view="View")
        else:
            r.validate(r.execute([s], vs), mod, d["constants"], label, view="View")
        print("held")
        return 0
    except Violation as v:
        print(f"VIOLATION property={d['property']} replay={v.replay}")
        return 1
    finally:
        r.close()


# ---------------------------------------------------------------------------------------------
# pictures that reach the corners of the coding procedure

def plan(id, blocks, w, h, q=16, qt=None, ops=(), rep=None, **kw):
    img = {"kind": "plan", "blocks": blocks, "q": q}
    if rep:
        img["rep"] = rep
    return scen(id, 100, [op("qtables", luma=q1(qt or q), chroma=q1(qt or q))] + list(ops), w, h, "Luma", img, **kw)


def runs_pictures(rng, n):
    """zero runs of every length, isolated coefficients at every index, values at the end of the band"""
    out = []
    b = []
    for i in range(1, 64):
        b.append([i, 1])                       # one coefficient at index i: run i-1
        b.append([i, 1, 63, 1])                # then a run up to the last one
    for i in (1, 16, 17, 18, 32, 33, 34, 48, 49, 50, 62, 63):
        b.append([i, -3])
        b.append([1, 2, i, -2, 63, 1])
    b.append([])
    b.append([0, 20])
    for j in range(n):
        rng.shuffle(b)
        w = 8 * 16
        h = 8 * -(-len(b) // 16)
        m = mode_ops(rng, ["base", "opt", "prog", "progopt", "scans", "scansopt"][j % 6])
        out.append(plan(f"runs{j}", [list(x) for x in b], w, h, ops=m + restart_op(rng, 0.3)))
    return out


def extremes(rng, n):
    """biggest DC differences (category 11) and AC values (category 10)"""
    out = []
    for j in range(n):
        ct = rng.choice(["Luma", "Rgb", "Cmyk", "Ycbcr", "Ycck", "CmykAsYcck"])
        img = rng.choice([
            {"kind": "extblocks", "seed": j + 1, "n": rng.choice([8, 16])},
            {"kind": "ext", "seed": j + 1},
            {"kind": "basis", "seed": 1, "u": rng.randint(0, 7), "v": rng.randint(0, 7), "flip": 2},
            {"kind": "check", "seed": 1, "n": 8, "lo": 0, "hi": 255},
            {"kind": "check", "seed": 1, "n": 1, "lo": 0, "hi": 255},
            {"kind": "mix", "seed": j}])
        o = mode_ops(rng) + [op("qtables", luma=q1(), chroma=q1())] + restart_op(rng, 0.3)
        s = rng.choice(FS)
        o.append(op("sampling", name=s))
        w, h = size(rng, ct, s, 40)
        out.append(scen(f"ext{j}", 100, o, w, h, ct, img))
    return out


def all_modes(rng, cts=CAN, samps=FS, modes=("base", "opt", "prog", "progopt"), prefix="m"):
    """every colour type x sampling factor x coding mode"""
    out = []
    for ct in cts:
        for s in samps:
            for m in modes:
                fh, fv = factors(s)
                w = rng.choice([8 * fh + rng.randint(1, 8), 16 * fh + 1, rng.randint(1, 16 * fh)])
                h = rng.choice([8 * fv + rng.randint(1, 8), 16 * fv + 1, rng.randint(1, 16 * fv)])
                out.append(scen(f"{prefix}-{ct}-{s}-{m}", quality(rng), mode_ops(rng, m) + [op("sampling", name=s)] + restart_op(rng, 0.5),
                                w, h, ct, image(rng), rng.choice(["slice", "buf"])))
    return out


def edges(rng, prefix="e", maxd=18):
    """every width and height remainder"""
    out = []
    for w in range(1, maxd):
        for s in ("F_1_1", "F_2_2", "F_4_1"):
            h = rng.randint(1, 18)
            ct = rng.choice(CAN)
            out.append(scen(f"{prefix}w{w}-{s}", 95, [op("sampling", name=s)] + mode_ops(rng), w, h, ct, {"kind": "coord", "seed": w}))
            out.append(scen(f"{prefix}h{w}-{s}", 95, [op("sampling", name=s)] + mode_ops(rng), h, w, ct, {"kind": "coord", "seed": w}))
    return out


def big_sizes():
    """extreme dimensions; log out=full only where the stream stays small"""
    return [(65535, 1, "Luma"), (1, 65535, "Luma"), (65535, 9, "Luma"), (9, 65535, "Luma"), (32768, 8, "Luma"), (8, 32769, "Luma"),
            (65535, 2, "Rgb"), (2, 65535, "Rgb"), (40000, 17, "Cmyk"), (17, 40000, "Ycck")]


# ---------------------------------------------------------------------------------------------
# models of the specification; what they enumerate is replayed in the code

ENC_INV = ["NoComplaint", "ResetOnSchedule", "OkComplete", "ErrorReported", "NothingAfterFailure", "Prefix", "PanicPropagated", "RowsBeforeUnits", "AllRows"]
JT = {"Luma": ["Luma"], "Ycbcr": ["Rgb", "Bgra", "Ycbcr", "Rgba", "Bgr"], "Cmyk": ["Cmyk"], "Ycck": ["CmykAsYcck", "Ycck"]}


def encoder_model(r, label, types=("Luma", "Ycbcr", "Cmyk", "Ycck"), samplings=tuple(FS), modes="<- MC_Modes", widths=(1, 17), heights=(9,),
                  restarts=(0, 2), faults=False, live=False, replay=True, **kw):
    """the producer model against the stream automaton (and the failing sink); every request it starts from is then
    encoded by the real encoder and the recorded stream validated"""
    m = r.model("MC_Encoder", dict(Types=types, Samplings=samplings, Modes=modes, Widths=widths, Heights=heights, Restarts=restarts,
                                   Faults=faults, Perturb=False, Show=replay, invariants=ENC_INV, properties=["Terminates"] if live else []), label)
    if not replay:
        return
    sc = []
    for i, c in enumerate(m.json["CFG"]):
        o = [op("sampling", name=c["samp"]), op("restart", n=c["restart"])]
        if c["scans"]:
            o.append(op("scans", n=c["scans"]))
        if c["opt"]:
            o.append(op("optimize", on=True))
        r.rng.shuffle(o)
        sc.append(scen(f"cfg{i}", r.rng.choice([30, 85, 95, 100]), o, c["w"], c["h"], r.rng.choice(JT[c["jt"]]), image(r.rng), r.rng.choice(["slice", "buf"])))
    stream(r, sc, label + ": every request encoded", **kw)


def perturbed_model(r, **kw):
    """the specification itself: no lost, repeated or altered item of a stream is accepted"""
    c = dict(Types=("Ycbcr",), Samplings=("F_2_1",), Modes="<- MC_Modes", Widths=(17,), Heights=(9,), Restarts=(0, 2), Faults=False, Perturb=True, Show=False,
             invariants=["NoComplaint", "AllNoticed"])
    r.model("MC_Encoder", dict(c, **kw), "no single alteration of a stream goes unnoticed")


def api_model(r, label, n, qualities=(50, 90), simulate=0, **kw):
    c = dict(Qualities=qualities, MaxLen=n, Show=True, invariants=["LastWins", "SegsInOrder", "RefusedIsNoOp"])
    extra = ("-simulate", f"num={simulate}", "-depth", str(n + 1), "-seed", str(r.seed)) if simulate else ()
    m = r.model("MC_Api", c, label, extra=extra, simulate=bool(simulate), workers=1 if simulate else 8)
    sc = []
    cts = ["Luma", "Rgb", "Bgra", "Cmyk", "Ycck"]
    for i, h in enumerate(m.json["HIST"]):
        w, hh = r.rng.choice([(8, 8), (9, 5), (17, 3), (1, 1), (20, 9)])
        sc.append(scen(f"h{i}", h["q"], h["ops"], w, hh, cts[i % 5], {"kind": "mix", "seed": i + 1}))
    stream(r, sc, label + ": every history replayed", **kw)


def model_geometry(r, types=("Luma", "Ycbcr", "Cmyk", "Ycck"), w=18, h=18):
    r.model("MC_Geometry", dict(Types=types, Samplings=FS, MaxW=w, MaxH=h, invariants=["ScanCovers", "InterleavedCovers", "Padding", "Grid", "CodeLoops", "TenUnits"]),
            "frames up to %dx%d" % (w, h))


def model_bits(r, bkm):
    for b, k, m in bkm:
        r.model("MC_BitIO", dict(B=b, K=k, MaxSize=m, invariants=["PendingOK", "DeliveredOK", "FastPathOK"]), f"bit buffer of {k} bytes of {b} bits, writes of up to {m}")


def model_huffman(r, syms, freq, lim):
    r.model("MC_Huffman", dict(Syms=syms, MaxFreq=freq, Lim=lim, invariants=["KraftOne", "TableOK", "Optimal", "LimitCost"]), f"Annex K.2 on {syms} symbols, frequencies to {freq}, limit {lim}")


def model_quant(r, inv, step=1):
    r.model("MC_Quant", dict(Qs="<- AllQs", Qualities="<- AllQu", MaxX=8192, StepX=step, invariants=inv), "quantizer and tables: " + ", ".join(inv))


def model_color(r, rs):
    r.model("MC_Color", dict(Rs=rs, Gs="<- Bytes", invariants=["ColorsOK"]), "colour equations")


# ---------------------------------------------------------------------------------------------
# the properties

def c01(r):
    k = 8 if r.thorough else 1
    encoder_model(r, "structure of all modes", heights=(9, 17) if r.thorough else (9,), **HEAD)
    if r.thorough:
        perturbed_model(r, Types=("Luma", "Ycbcr", "Cmyk", "Ycck"), Samplings=("F_1_1", "F_2_1", "F_2_2", "F_1_4"), Restarts=(0, 1, 2))
    else:
        perturbed_model(r)
    sc = all_modes(r.rng) + all_modes(r.rng, cts=["Luma", "Rgb", "Ycck"], samps=SAMPLINGS[8:], modes=("base", "progopt"), prefix="r")
    sc += [scen(f"s{n}{o}", 75, [op("scans", n=n), op("optimize", on=o)], 16, 9, r.rng.choice(CTS), image(r.rng)) for n in range(2, 65) for o in (False, True)]
    sc += [rand_scen(r.rng, f"r{i}", 200, meta=0.6) for i in range(250 * k)]
    sc += [scen(f"fam{i}-{j}", 75, o + mode_ops(r.rng), 9, 9, r.rng.choice(CTS), {"kind": "mix", "seed": i}) for i, (nr, d) in enumerate(FAMILIAR)
           for j, o in enumerate(([op("app", nr=nr - 0xE0, data=d)], [op("app", nr=8, data=[1]), op("app", nr=nr - 0xE0, data=d)]))]
    sc += cover(r.rng, times=k)
    stream(r, sc, "marker structure over configurations", **HEAD)
    sc = []
    for i, (w, h, ct) in enumerate(big_sizes()):
        for m in ("base", "prog"):
            sc.append(scen(f"big{i}{m}", 20, mode_ops(r.rng, m) + restart_op(r.rng), w, h, ct, {"kind": "const", "v": [90, 20, 200, 7]},
                           log={"out": "head", "px": False, "headlen": 1200}))
    stream(r, sc, "huge dimensions (headers and end)", **HEAD)
    sc = [rand_scen(r.rng, f"d{i}", 40, meta=0.3) for i in range(150 * k)]
    stream(r, sc, "markers found by decoding", decode=True)


def c02(r):
    k = 8 if r.thorough else 1
    encoder_model(r, "all modes", types=("Luma", "Ycbcr", "Ycck"), widths=(9, 24), heights=(1, 16) if r.thorough else (16,), restarts=(0, 3))
    sc = all_modes(r.rng, modes=("base", "opt", "prog", "progopt", "scans", "scansopt")) + runs_pictures(r.rng, 6 * k) + extremes(r.rng, 100 * k)
    sc += [rand_scen(r.rng, f"r{i}", 80, meta=0.05) for i in range(150 * k)] + cover(r.rng, times=k)
    stream(r, sc, "complete decoding")
    stream(r, corner_restarts(r.rng, k), "restarts and optimization")
    if r.thorough:
        stream(r, long_pictures(), "long dimensions")


def long_pictures():
    out = []
    for i, (w, h, ct) in enumerate([(65535, 1, "Luma"), (1, 65535, "Luma"), (32768, 8, "Luma"), (9, 40000, "Luma"), (20001, 1, "Rgb"), (1, 20001, "Cmyk")]):
        out.append(scen(f"long{i}", 60, [op("restart", n=[0, 7, 1000][i % 3])], w, h, ct, {"kind": "mid", "amp": 30, "seed": i}))
    return out


def corner_restarts(rng, k=1):
    out = []
    for n in (1, 2, 3, 4, 7, 8, 9, 10, 16):
        for m in ("base", "opt", "prog", "progopt"):
            for ct in ("Luma", "Rgb", "Cmyk"):
                s = rng.choice(FS)
                fh, fv = factors(s)
                w, h = (rng.choice([64, 72, 80]), rng.choice([8, 9, 17])) if ct == "Luma" else (8 * fh * 3 + 1, 8 * fv * 2)
                out.append(scen(f"rst{n}{m}{ct}", 100, mode_ops(rng, m) + [op("restart", n=n), op("sampling", name=s)], w, h, ct,
                                {"kind": rng.choice(["stairs", "mix", "extblocks"]), "seed": n, "step": 1, "base": 128, "n": 8}))
    # as many MCUs as a row has (the usual choice), one more, one less, several rows
    for i, (cols, rows, d) in enumerate([(1, 24, 0), (2, 20, 0), (3, 18, 0), (4, 17, 0), (5, 12, 0), (4, 12, 1), (4, 12, -1), (3, 20, 3), (2, 36, 6), (7, 10, 0)]):
        for m, ct, s in (("base", "Luma", "F_1_1"), ("base", "Rgb", rng.choice(["F_2_2", "F_2_1", "F_1_2"])), ("opt", "Luma", "F_1_1"), ("prog", "Rgb", "F_1_1")):
            if ct == "Rgb" and i % 3 != 1:
                continue
            fh, fv = factors(s)
            out.append(scen(f"rstrow{i}{m}{ct}", 75, mode_ops(rng, m) + [op("restart", n=max(1, cols + d)), op("sampling", name=s)], 8 * fh * cols - rng.randint(0, 7), 8 * fv * rows - rng.randint(0, 7), ct,
                            {"kind": "mix", "seed": i}))
    # restart interval larger than, equal to and next to the number of MCUs; many intervals
    for n in (11, 12, 13, 255, 256, 257, 65534, 65535):
        out.append(scen(f"rstL{n}", 90, mode_ops(rng) + [op("restart", n=n)], 32, 24, "Luma", {"kind": "mix", "seed": n}))
    out.append(scen("rstmany", 50, [op("restart", n=1)], 8 * 60, 8 * 10, "Luma", {"kind": "mid", "amp": 40, "seed": 3}))
    out.append(scen("rstmany2", 50, [op("restart", n=2), op("progressive", on=True)], 8 * 40, 8 * 10, "Luma", {"kind": "mid", "amp": 40, "seed": 3}))
    out.append(scen("rstmany3", 50, [op("restart", n=1), op("sampling", name="F_2_2")], 16 * 10, 16 * 6, "Rgb", {"kind": "mid", "amp": 40, "seed": 3}))
    out.append(scen("rst256", 90, [op("restart", n=256)], 8 * 65, 8 * 8, "Luma", {"kind": "mid", "amp": 9, "seed": 3}))
    out.append(scen("rst257o", 90, [op("restart", n=257), op("optimize", on=True)], 8 * 65, 8 * 8, "Luma", {"kind": "mid", "amp": 9, "seed": 3}))
    for i in range(60 * k):
        out.append(rand_scen(rng, f"rr{i}", 60, restart=1.0, meta=0))
    return out


def boundaries(q):
    """where the quotient of the 15 bit reciprocal quantizer changes (only chooses inputs; Quant.tla decides)"""
    d = 8 * q
    r, c = (1 << 15) // d, d // 2
    if (1 << 15) % d:
        if (1 << 15) % d <= c:
            c += 1
        else:
            r += 1
    return [v for v in range(1, 8193) if ((v + c) * r) >> 15 != ((v - 1 + c) * r) >> 15]


def sums(rng, all=False):
    """DC values exactly at, just below and just above the rounding boundaries of every quantization value"""
    out = []
    for q in range(1, 256):
        k = boundaries(q)
        if not all:
            k = sorted(set([x for x in (k[:1] + k[-1:] + [rng.choice(k) for _ in range(4)])])) if k else []
        v = [s * (x + d) for x in k for s in (-1, 1) for d in ((-1, 0, 1) if all else (-1, 0))]
        v = [x for x in v if -8192 <= x <= 8128]
        if q % 2 == 0 or not v:
            v.append(-8192 if q % 4 else 8128)
        rng.shuffle(v)
        for i in range(0, len(v), 400):
            part = v[i:i + 400]
            out.append(scen(f"q{q}-{i}", 100, [op("qtables", luma=q1(q), chroma=q1(q))], 8 * len(part), 8, "Luma", {"kind": "sums", "v": part}))
    return out


def c03(r):
    k = 10 if r.thorough else 1
    model_geometry(r, w=40 if r.thorough else 18, h=36 if r.thorough else 17)
    encoder_model(r, "all modes", widths=(17,), heights=(15, 33) if r.thorough else (15,), restarts=(0,), exp=True)
    sc = all_modes(r.rng) + edges(r.rng) + extremes(r.rng, 40 * k) + runs_pictures(r.rng, 2 * k)
    sc += [rand_scen(r.rng, f"r{i}", 100, meta=0.02) for i in range(150 * k)] + cover(r.rng, times=k)
    sc += sums(r.rng, all=r.thorough)
    # the longest lines and columns, in the interleaved and in the block buffering encoder
    for i, (w, h, o) in enumerate([(65535, 1, []), (65535, 1, [op("optimize", on=True)]), (1, 65535, []), (2, 65535, [op("scans", n=2)])]):
        sc.insert(i, scen(f"far{i}", 60, o, w, h, "Luma", {"kind": "mid", "amp": 30, "seed": i}))
    stream(r, sc, "coefficients against the picture", exp=True)
    if r.thorough:
        stream(r, long_pictures(), "long dimensions", exp=True)


def c04(r):
    k = 8 if r.thorough else 1
    encoder_model(r, "restart intervals", types=("Luma", "Ycbcr", "Cmyk"), samplings=("F_1_1", "F_2_1", "F_2_2", "F_4_1"), widths=(8, 33), heights=(8, 17) if r.thorough else (17,),
                  restarts=(0, 1, 2, 3, 5) if not r.thorough else (0, 1, 2, 3, 4, 5, 6, 7, 8), exp=True)
    sc = corner_restarts(r.rng, 2 * k)
    for s in FS:
        for ct in ("Luma", "Rgb", "Ycck"):
            for m in ("base", "opt", "prog"):
                fh, fv = factors(s)
                sc.append(scen(f"s{s}{ct}{m}", 90, mode_ops(r.rng, m) + [op("sampling", name=s), op("restart", n=r.rng.randint(1, 5))],
                               r.rng.randint(1, 24 * fh), r.rng.randint(1, 24 * fv), ct, image(r.rng)))
    sc += [rand_scen(r.rng, f"n{i}", 30, restart=0.0, meta=0) for i in range(30)]
    sc += [s for s in cover(r.rng, times=k, imgs=(["mid"], ["mix", "smooth"], ["noise", "ext"])) if any(o["op"] == "restart" for o in s["ops"])]
    stream(r, sc, "restart markers and predictions", exp=True)
    # long scans, markers counted without decoding
    sc = []
    for n in (1, 255, 256, 32767, 32768, 32769, 65534, 65535):
        for m in ("base", "opt", "prog"):
            sc.append(scen(f"cnt{n}{m}", 50, [op("restart", n=n)] + mode_ops(r.rng, m), 8 * 300, 8 * (219 if n > 256 else 20), "Luma", {"kind": "const", "v": [77]}, log={"out": "full", "px": False}))
    stream(r, sc, "long intervals, markers counted", variants=("std", "std-debug"), **HEAD)
    if r.thorough:
        sc = [scen("long65535", 50, [op("restart", n=65535)], 8 * 300, 8 * 220, "Luma", {"kind": "mid", "amp": 9, "seed": 1}),
              scen("long32768", 50, [op("restart", n=32768)], 8 * 300, 8 * 220, "Luma", {"kind": "mid", "amp": 9, "seed": 1}),
              scen("long9999", 50, [op("restart", n=1)], 8 * 300, 8 * 10, "Luma", {"kind": "mid", "amp": 9, "seed": 1})]
        stream(r, sc, "long intervals")


def c05(r):
    k = 8 if r.thorough else 1
    model_bits(r, [(2, 3, 4), (2, 2, 4)] + ([(2, 4, 5), (3, 2, 5)] if r.thorough else []))
    sc = []
    # many alignments: strings of blocks of every size, FF-rich data
    for i in range(160 * k):
        ct = r.rng.choice(["Luma", "Luma", "Rgb", "Cmyk"])
        img = r.rng.choice([{"kind": "ext", "seed": i}, {"kind": "extblocks", "seed": i, "n": 8}, {"kind": "noise", "seed": i},
                            {"kind": "mid", "seed": i, "amp": 3}, {"kind": "const", "v": [r.rng.randint(0, 255)]},
                            {"kind": "basis", "u": i % 8, "v": i // 8 % 8, "flip": 2}, {"kind": "mix", "seed": i}])
        o = mode_ops(r.rng) + [op("qtables", luma=q1(r.rng.choice([1, 1, 2, 5])), chroma=q1(1))] + restart_op(r.rng, 0.6)
        s = r.rng.choice(FS)
        o.append(op("sampling", name=s))
        w, h = size(r.rng, ct, s, 60)
        sc.append(scen(f"a{i}", 100, o, w, h, ct, img))
    # every number of final bits: single blocks with one coefficient
    for i in range(0, 64):
        sc.append(plan(f"t{i}", [[0, (i % 9) - 4, max(1, i), (i % 13) - 6 or 1]], 8, 8, q=8, ops=[op("restart", n=1)] if i % 3 == 0 else []))
    sc += [rand_scen(r.rng, f"r{i}", 60, meta=0) for i in range(100 * k)]
    sc += cover(r.rng, times=k)
    stream(r, sc, "stuffing and padding", variants=core.DEFAULT + ("w32-debug",))


def signed(rng, size):
    """the smallest value of the category: pictures made of such coefficients do not leave the sample range"""
    return rng.choice([-1, 1]) << (size - 1)


def fib(n, f=(1, 2)):
    """1, 2, 3, 5, ...: with the reserved code point these give one chain without ties, n + 1 leaves deep"""
    f = list(f)
    while len(f) < n:
        f.append(f[-1] + f[-2])
    return f[:n]


def fib_plan(rng, id, n, ops, freq=None, w8=16, shuffle=False):
    """a picture whose AC symbols have exactly these frequencies (default Fibonacci numbers, which make the
    unlimited codes as long as possible); every block ends with its last coefficient, so no other symbol occurs"""
    f = freq or fib(n)
    n = len(f)
    # run/size pairs; the commonest symbol is run 0 size 1, which also fills blocks
    syms = sorted([(run, size) for size in (1, 2, 3) for run in range(0, 11)], key=lambda x: x[0] + 3 * x[1])[:n]
    order = sorted(range(n), key=lambda i: -f[i])
    want = {syms[j]: f[i] for j, i in enumerate(order)}
    fill = want.pop((0, 1))
    seq = [x for x, c in want.items() for _ in range(c)]
    if shuffle:
        rng.shuffle(seq)
    else:
        seq.sort(reverse=True)
    blocks, cur, pos = [], [], 0
    for run, size in seq:
        if pos + run + 1 > 63:
            while pos < 63:
                pos, fill = pos + 1, fill - 1
                cur += [pos, rng.choice([-1, 1])]
            blocks.append(cur)
            cur, pos = [], 0
        pos += run + 1
        cur += [pos, signed(rng, size)]
    while fill > 0 or cur:
        while pos < 63:
            pos, fill = pos + 1, fill - 1
            cur += [pos, rng.choice([-1, 1])]
        blocks.append(cur)
        cur, pos = [], 0
    # the picture is a full rectangle: repeat all-filled blocks
    while len(blocks) % w8:
        blocks.append([x for i in range(1, 64) for x in (i, rng.choice([-1, 1]))])
    return plan(id, blocks, 8 * w8, 8 * (len(blocks) // w8), q=4, ops=list(ops))


def deep_plan(rng, id, n, w8, ops, **kw):
    """as fib_plan for more symbols than a written-out list of blocks could hold: few distinct blocks, repeated.
    Rare symbols have large values, so that ties are broken towards the longest codes."""
    syms = sorted(r * 16 + s for r in range(0, 15) for s in (1, 2, 3))[:n]
    want = dict(zip(reversed(syms), fib(n, (1, 1, 2))))
    blocks, rep, zero = [], [], 0
    for v in syms[1:]:
        r, s = v >> 4, v & 15
        per = 63 // (r + 1)
        full, rest = divmod(want[v], per)
        for m, times in ((per, full), (rest, 1 if rest else 0)):
            if times:
                b, p = [], 0
                for _ in range(m):
                    p += r + 1
                    b += [p, signed(rng, s)]
                while p < 63:
                    p += 1
                    b += [p, rng.choice([-1, 1])]
                blocks.append(b)
                rep.append(times)
                zero += (63 - m * (r + 1)) * times
    left = max(0, want[syms[0]] - zero)
    blocks.append([x for i in range(1, 64) for x in (i, rng.choice([-1, 1]))])
    rep.append(-(-left // 63) + 1)
    tot = sum(rep)
    rep[-1] += -tot % w8
    return plan(id, blocks, 8 * w8, 8 * (sum(rep) // w8), q=4, ops=[op("optimize", on=True)] + list(ops), rep=rep, **kw)


def c06(r):
    k = 8 if r.thorough else 1
    for a in [(4, 4, 4), (5, 2, 5), (5, 3, 3)] + ([(6, 3, 4), (5, 6, 5), (5, 13, 4)] if r.thorough else []):
        model_huffman(r, *a)
    sc = []
    # unlimited code lengths around and beyond the limit of 16 bits
    for n in (14, 15, 16, 17, 18) + ((19, 20) if r.thorough else ()):
        for j, o in enumerate([[], [op("progressive", on=True)], [op("restart", n=5)]]):
            if j == 0 or n in (15, 16) or r.thorough:
                sc.append(fib_plan(r.rng, f"fib{n}-{j}", n, [op("optimize", on=True)] + o, shuffle=j == 2))
    # frequencies of every shape: equal, powers of two, one dominating, random
    for j, f in enumerate([[1] * 16, [1] * 17, [7] * 24, [1] * 30 + [40], [2 ** i for i in range(11)], [1, 1] + [2 ** i for i in range(1, 11)],
                           [1, 2, 4, 8, 8, 8, 300, 301], [1] * 12 + [900], [i * i + 1 for i in range(20)]]
                          + [[r.rng.randint(1, r.rng.choice([2, 5, 60, 300])) for _ in range(r.rng.randint(2, 33))] for _ in range(12 * k)]):
        sc.append(fib_plan(r.rng, f"freq{j}", 0, [op("optimize", on=True)], freq=f, w8=r.rng.choice([1, 4, 16]), shuffle=True))
    # single symbol, few symbols
    for i, v in enumerate([128, 0, 255, 127, 129]):
        for m in ("opt", "progopt"):
            for ct in ("Luma", "Rgb", "Cmyk"):
                sc.append(scen(f"one{i}{m}{ct}", 50, mode_ops(r.rng, m), r.rng.choice([1, 8, 16, 40]), 8, ct, {"kind": "const", "v": [v]}))
    # restarts and optimization together
    for i in range(40 * k):
        sc.append(rand_scen(r.rng, f"ro{i}", 40, mode=r.rng.choice(["opt", "progopt", "scansopt"]), restart=0.7, meta=0))
    for i in range(60 * k):
        sc.append(rand_scen(r.rng, f"o{i}", 120, mode=r.rng.choice(["opt", "progopt", "scansopt"]), meta=0))
    # all symbols: every run and size
    sc += runs_pictures(r.rng, 6)
    for i in range(30 * k):
        sc.append(scen(f"x{i}", 100, [op("qtables", luma=q1(r.rng.choice([1, 2, 3])), chroma=q1(2)), op("optimize", on=True)] + mode_ops(r.rng, r.rng.choice(["base", "prog", "scans"])),
                       r.rng.choice([64, 96]), r.rng.choice([48, 64]), "Luma", {"kind": r.rng.choice(["mix", "noise", "mid", "smooth"]), "seed": i, "amp": 30}))
    sc += [rand_scen(r.rng, f"n{i}", 40, mode=r.rng.choice(["base", "prog"]), meta=0) for i in range(40 * k)]
    sc += cover(r.rng, times=k)
    # more units than a byte, a word of flags or a page counts, in every component
    for i, (w, h, o) in enumerate([(400, 208, []), (1056, 160, [op("scans", n=3)])] if r.thorough else [(400, 208, [])]):
        sc.append(scen(f"large{i}", 30, [op("optimize", on=True), op("sampling", name="F_1_1")] + o, w, h, "Ycbcr", {"kind": "mix", "seed": r.seed}, log={"out": "full", "px": False}))
    if r.thorough:
        sc.append(scen("large", 30, [op("optimize", on=True), op("sampling", name="F_1_1"), op("restart", n=1000)], 640, 520, "Rgb", {"kind": "mix", "seed": r.seed}, log={"out": "full", "px": False}))
    stream(r, sc, "tables, symbols and cost")
    big = [deep_plan(r.rng, f"deep{n}", n, 460, [], log=HEADLOG, plan=True) for n in ((34, 33, 31, 24) if r.thorough else (34, 24))]
    # counts beyond 16 bits: few symbols, many blocks
    lots = [x for z in (0, 21, 42) for p, _ in ((1, 0), (3, 0), (6, 0), (10, 0), (15, 0), (21, 0)) for x in (z + p, 1)]
    for j, f in enumerate([[(66000, [1, 1])], [(65536, [1, 1]), (300, [2, -1])], [(131072, [3, 2]), (70000, [5, 1, 6, 1])], [(40000, [1, 1, 40, 1])],
                           [(22100, lots), (9, [1, 3])], [(11000, lots), (40, [1, 3, 5, -2]), (3, [30, 1])]]):
        tot = sum(n for n, _ in f)
        f[-1] = (f[-1][0] + -tot % 256, f[-1][1])
        tot = sum(n for n, _ in f)
        big.append(plan(f"many{j}", [b for _, b in f], 8 * 256, 8 * (tot // 256), q=8, ops=[op("optimize", on=True)], rep=[n for n, _ in f], log=HEADLOG, plan=True))
    # many blocks: frequencies of DC differences over the whole scan, with and without restarts
    for j, ri in enumerate((0, 0, 1, 7, 256, 1000, 32768, 40000, 65535)):
        f, tot, dc = [], 0, 0
        want = 70000 if ri >= 32768 else r.rng.choice([600, 1500, 4000])
        c = r.rng.choice([1, 2, 3])
        last = ri if ri >= 32768 else 10 ** 9
        climb = [last - 60 + i for i in range(60)]       # small steps up to a large value before the only restart
        while tot < want:
            if ri >= 32768:
                n = 1 if climb[0] <= tot <= last else climb[0] - tot if tot < climb[0] else want - tot
                dc = dc + 1 if climb[0] <= tot < last else dc
            else:
                n = r.rng.choice([1, 1, 2, 3, 40])
                dc = max(-60, min(60, dc + r.rng.choice([0, 0, 0, 1, -1, c, -c, 9, -20])))
            b = [0, dc] if dc or r.rng.random() < 0.5 else []
            if ri < 32768:
                b += r.rng.choice([[], [], [1, 1], [1, 1], [2, -1], [1, 2, 3, 1], [17, 1], [40, 1]])
            f.append((n, b))
            tot += n
        f[-1] = (f[-1][0] + -tot % 100, f[-1][1])
        tot = sum(n for n, _ in f)
        big.append(plan(f"dc{j}", [b for _, b in f], 8 * 100, 8 * (tot // 100), q=8, ops=[op("optimize", on=True), op("restart", n=ri)], rep=[n for n, _ in f], log=HEADLOG, plan=True))
    stream(r, big, "long codes and large counts", variants=("std", "nostd"), **HEAD)


def c07(r):
    k = 6 if r.thorough else 1
    encoder_model(r, "every number of scans", types=("Luma", "Ycbcr", "Cmyk", "Ycck") if r.thorough else ("Luma",), samplings=("F_1_1", "F_2_2") if r.thorough else ("F_2_1",), modes="<- MC_ModesAll", widths=(9,), heights=(1,), restarts=(0,))
    sc = []
    for n in range(2, 65):
        for o in (False, True):
            ct = r.rng.choice(["Luma", "Rgb", "Cmyk", "Ycck"])
            s = r.rng.choice(FS)
            sc.append(scen(f"n{n}{o}", 90, [op("scans", n=n), op("optimize", on=o), op("sampling", name=s)] + restart_op(r.rng, 0.3), 17, 9, ct, image(r.rng, ["noise", "mix", "ext"])))
    sc += all_modes(r.rng, modes=("base", "opt", "scans"))
    sc += [rand_scen(r.rng, f"r{i}", 40, meta=0, mode=r.rng.choice(["scans", "scansopt", "prog", "opt", "base"])) for i in range(100 * k)]
    sc += cover(r.rng, times=k)
    stream(r, sc, "all scan counts")


def c08(r):
    model_quant(r, ["TablesOK", "CustomOK"])
    sc = []
    qs = list(range(1, 101)) + [0, 101, 128, 200, 255]
    i = 0
    for lp in PRESETS:
        for q in (qs if r.thorough else [x for x in qs if (x + len(lp)) % 3 == 0 or x in (0, 1, 2, 49, 50, 51, 90, 99, 100, 101, 255)]):
            cp = PRESETS[(i * 7) % 9]
            i += 1
            ct = ["Rgb", "Cmyk", "Ycck", "CmykAsYcck", "Ycbcr", "Luma", "Bgra"][i % 7]
            o = [op("qtables", luma=preset(lp), chroma=preset(cp))] + (mode_ops(r.rng) if i % 5 == 0 else [])
            sc.append(scen(f"p{lp}{q}{cp}", q, o, 8, 8, ct, {"kind": "mid", "amp": 30, "seed": 1}))
    # chroma presets with every quality
    for q in range(1, 101):
        sc.append(scen(f"c{q}", q, [op("qtables", luma=preset(PRESETS[q % 9]), chroma=preset(PRESETS[(q // 9 + q) % 9]))], 8, 8, "Rgb", {"kind": "const", "v": [9]}))
    for i in range(600 if r.thorough else 150):
        a, b = [r.rng.choice([custom(r.rng), custom(r.rng), q1(r.rng.choice([0, 1, 2, 255, 256, 300, 65535])), preset(r.rng.choice(PRESETS))]) for _ in range(2)]
        sc.append(scen(f"u{i}", quality(r.rng), [op("qtables", luma=a, chroma=b)] + mode_ops(r.rng), 8, 8, r.rng.choice(CTS), image(r.rng)))
    # every single position and value
    for v in range(1, 256, 1 if r.thorough else 5):
        sc.append(scen(f"v{v}", 100, [op("qtables", luma={"k": "Custom", "v": [(v + i) % 255 + 1 for i in range(64)]}, chroma=q1(v))], 8, 8, "Rgb", {"kind": "const", "v": [1]}))
    # which component uses which of two different tables, at every quality
    A, B = [{"k": "Custom", "v": [(i * k) % 200 + k for i in range(64)]} for k in (3, 7)]
    for q in qs:
        for ct in CTS:
            if r.thorough or ct in CAN or (q + len(ct)) % 3 == 0:
                sc.append(scen(f"w{q}{ct}", q, [op("qtables", luma=A, chroma=B)] + mode_ops(r.rng), 3, 2, ct, {"kind": "const", "v": [77]}))
    sc += cover(r.rng, times=6 if r.thorough else 1, imgs=(["const"],) * 3, log=HEADLOG)
    stream(r, sc, "tables in the stream", **HEAD)
    # coefficients really quantized with them
    sc = []
    for i in range(500 if r.thorough else 120):
        a, b = [r.rng.choice([custom(r.rng), custom(r.rng, "any"), custom(r.rng, "edge"), preset(r.rng.choice(PRESETS))]) for _ in range(2)]
        ct = r.rng.choice(CTS)
        s = r.rng.choice(FS)
        w, h = size(r.rng, ct, s, 30)
        sc.append(scen(f"k{i}", quality(r.rng), [op("qtables", luma=a, chroma=b), op("sampling", name=s)] + mode_ops(r.rng), w, h, ct, image(r.rng, ["mix", "ext", "noise", "basis", "smooth"])))
    stream(r, sc, "coefficients use the tables", exp=True)


def c09(r):
    api_model(r, "all histories of two calls", 2, (90,), **HEAD)
    sc = []
    W = dict(w=8, h=8, ct="Luma", img={"kind": "const", "v": [128]})
    for u in (0, 1, 2):
        for x, y in ((0, 0), (1, 1), (72, 72), (255, 256), (256, 255), (300, 600), (65535, 1), (1, 65535), (65535, 65535), (0, 7), (7, 0)):
            for m in ("base", "opt", "prog"):
                sc.append(scen(f"d{u}-{x}-{y}-{m}", 80, [op("density", unit=u, x=x, y=y)] + mode_ops(r.rng, m), 8, 8, r.rng.choice(CTS), {"kind": "const", "v": [5]}))
    for ct in CTS:
        for m in ("base", "opt", "prog", "progopt"):
            sc.append(scen(f"adobe{ct}{m}", 80, mode_ops(r.rng, m) + app_ops(r.rng, 3), 9, 9, ct, {"kind": "mix", "seed": 3}))
    for nr in range(1, 16):
        sc.append(scen(f"nr{nr}", 80, [op("app", nr=nr, data=[nr, 255, 0, 0xDA])], **W))
    # an Adobe-like or JFIF-like user segment stays what it is
    sc.append(scen("fakeadobe", 80, [op("app", nr=14, data=list(b"Adobe") + [0] * 6 + [1])], 8, 8, "Rgb", {"kind": "const", "v": [1]}))
    sc.append(scen("fakeadobe2", 80, [op("app", nr=14, data=list(b"Adobe") + [0] * 6 + [1])], 8, 8, "Cmyk", {"kind": "const", "v": [1]}))
    # segments that begin like well known ones, alone, twice, and before, between and after others
    for i, (nr, d) in enumerate(FAMILIAR):
        a, b, c = op("app", nr=nr - 0xE0, data=d), op("app", nr=9, data=[9]), op("icc", len=9, seed=i)
        for j, o in enumerate(([a], [a, a], [b, a], [a, b], [c, a, b], [a, c], [a, op("app", nr=nr - 0xE0, data=d + [1, 2, 3])], [op("app", nr=1 + (nr - 0xE0) % 15, data=d)])):
            sc.append(scen(f"fam{i}-{j}", 80, o + mode_ops(r.rng), 8, 8, ["Rgb", "Cmyk", "Luma", "Ycck"][(i + j) % 4], {"kind": "const", "v": [1]}))
    for i, d in enumerate(FAMILIAR_ICC):
        for j, o in enumerate(([], [op("app", nr=2, data=d)], [op("icc", data=d)])):
            sc.append(scen(f"fic{i}-{j}", 80, [op("icc", data=d)] + o, 8, 8, ["Rgb", "Cmyk"][j % 2], {"kind": "const", "v": [1]}))
    # lengths around every byte boundary of the length field, and the maximum
    for n in list(range(0, 20)) + [253, 254, 255, 256, 509, 510, 511, 512, 4095, 4096]:
        sc.append(scen(f"len{n}", 80, [op("app", nr=1 + n % 15, len=n, seed=n % 256)], **W))
    for n in (32765, 32766, 65279, 65280, 65518, 65519, 65520, 65531, 65532, 65533):
        sc.append(scen(f"len{n}", 80, [op("app", nr=1 + n % 15, len=n, seed=n % 256)], **W))
    # order of additions
    for i in range(400 if r.thorough else 120):
        o = [op("app", nr=r.rng.randint(1, 15), data=[i % 256, j] + [r.rng.randint(0, 255)] * r.rng.randint(0, 5)) if r.rng.random() < 0.7
             else familiar(r.rng) if r.rng.random() < 0.5 else op("icc", len=r.rng.randint(0, 60), seed=j) for j in range(r.rng.randint(1, 8))]
        o += density_op(r.rng) + mode_ops(r.rng) + restart_op(r.rng)
        r.rng.shuffle(o)
        sc.append(scen(f"ord{i}", 80, o, 8, 8, r.rng.choice(CTS), {"kind": "const", "v": [5]}))
    # the 16th, 17th ... segment
    sc.append(scen("many", 80, [op("app", nr=1 + i % 15, data=[i % 256, i // 256]) for i in range(1100)], **W))
    # ICC: around the chunk size
    for n in (0, 1, 13, 14, 65517, 65518, 65519, 65520, 131037, 131038, 131039):
        sc.append(scen(f"icc{n}", 80, [op("icc", len=n, seed=n % 251)], **W))
    sc += cover(r.rng, times=6 if r.thorough else 1, imgs=(["const"],) * 3, log=HEADLOG)
    # a long profile after, before and between segments that look like parts of one, and after another profile
    for i, pre in enumerate(([op("icc", len=40, seed=1)], [op("icc", len=65530, seed=1)], [op("app", nr=2, data=list(b"ICC_PROFILE\0\1\1abc")), op("app", nr=2, data=[1])],
                             [op("app", nr=1, data=[4]), op("icc", len=0, seed=1), op("app", nr=2, data=list(b"ICC_PROFILE\0"))])):
        for j, n in enumerate((30, 65519, 65520, 65519 * 2 + 1)):
            sc.append(scen(f"ii{i}-{j}", 80, pre + [op("icc", len=n, seed=2)] + pre[:j % 2], **W))
    stream(r, sc, "metadata byte for byte", decode=False, chunk=8 << 20)
    sc = []
    L = {"out": "segs", "px": False}
    for n in ([65519 * 3, 65519 * 4 + 1, 65519 * 254 + 5, 65519 * 255 - 1, 65519 * 255] if not r.thorough
              else [65519 * i + d for i in (2, 3, 9, 99, 127, 128, 129, 200, 253, 254, 255) for d in (-1, 0, 1) if 65519 * i + d <= 65519 * 255]):
        sc.append(scen(f"icc{n}", 80, [op("app", nr=3, data=[1, 2, 3]), op("icc", len=n, seed=n % 251)], **W, log=L))
    sc.append(scen("iccafter", 80, [op("app", nr=2, data=[1, 2, 3]), op("icc", len=65519, seed=9), op("icc", len=65519 * 254 + 7, seed=3), op("icc", len=9, seed=9), op("app", nr=2, data=[1])], **W, log=L))
    stream(r, sc, "long ICC profiles (segment summary)", variants=("std", "std-debug", "nostd"), **HEAD)


BAD_OPS = [op("app", nr=0, data=[1]), op("app", nr=16, data=[1]), op("app", nr=255, data=[]), op("app", nr=17, data=[1, 2]),
           op("app", nr=0, data=[]), op("app", nr=16, data=[]),
           op("app", nr=1, len=65534, seed=1), op("app", nr=15, len=65535, seed=1), op("app", nr=2, len=70000, seed=1), op("app", nr=0, len=65534, seed=1),
           op("scans", n=0), op("scans", n=1), op("scans", n=65), op("scans", n=66), op("scans", n=128), op("scans", n=255),
           op("icc", len=16707346, seed=1), op("icc", len=16707345 + 65519, seed=9)]
BAD_LONG = [op("app", nr=2, len=131072 + 9, seed=1), op("app", nr=9, len=(1 << 20) + 5, seed=1), op("app", nr=1, len=(1 << 24) + 3, seed=1),
            op("icc", len=(1 << 24) + 100, seed=1), op("icc", len=(1 << 25) + 7, seed=1)]
GOOD_OPS = [op("app", nr=5, data=[9, 9]), op("icc", len=30, seed=4), op("density", unit=1, x=3, y=4), op("sampling", name="F_2_1"), op("sampling", name="F_1_1"),
            op("scans", n=3), op("progressive", on=True), op("progressive", on=False), op("restart", n=2), op("restart", n=0), op("optimize", on=True), op("optimize", on=False),
            op("qtables", luma=preset("Flat"), chroma=q1(7))]


def refused_images(rng):
    out = []
    for ct in CTS:
        bpp = {"Luma": 1, "Rgb": 3, "Bgr": 3, "Ycbcr": 3}.get(ct, 4)
        for w, h in ((8, 8), (1, 1), (17, 3), (255, 1), (256, 2)):
            for d in sorted({-1, -bpp, -(w * bpp), -(w * h * bpp), -(w * h * (bpp - 1)) if bpp > 1 else -1}):
                s = scen(f"short{ct}{w}x{h}{d}", 80, mode_ops(rng), w, h, ct, {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True})
                s["ops"][-1]["delta"] = d
                out.append(s)
        for w, h in ((0, 0), (0, 5), (5, 0), (0, 65535), (65535, 0)):
            for via in ("slice", "buf"):
                out.append(scen(f"zero{ct}{w}x{h}{via}", 80, mode_ops(rng), w, h, ct, {"kind": "const", "v": [1]}, via=via, log={"out": "full", "calls": True}))
        s = scen(f"zerodata{ct}", 80, [], 0, 3, ct, {"kind": "const", "v": [1]}, log={"out": "full", "calls": True})
        s["ops"][-1]["delta"] = 50
        out.append(s)
    # products that do not fit 32 bits, or 16
    for ct, w, h, n in (("Rgb", 65535, 65535, 100), ("Cmyk", 65535, 65535, 7), ("Luma", 65535, 65535, 0), ("Rgba", 32768, 32768, 64), ("Cmyk", 32768, 32768, 0),
                        ("Luma", 256, 256, 65535), ("Rgb", 65535, 22000, 10), ("Luma", 65535, 2, 131069), ("Rgb", 65535, 90, 17000000), ("Luma", 300, 57000, 17099999), ("Rgba", 16384, 65535, 65536),
                        # just beyond 2^31, 2^32, 2^33, of pixels and of bytes
                        ("Luma", 32769, 65535, 40000), ("Rgba", 32769, 65535, 140000), ("Bgra", 32769, 32768, 140000), ("Rgb", 43691, 32768, 70000), ("Bgr", 49151, 14564, 70000),
                        ("Rgb", 21846, 65535, 70000), ("Ycck", 16385, 32768, 140000), ("Cmyk", 8193, 65535, 140000), ("Ycbcr", 65535, 43692, 140000)):
        s = scen(f"huge{ct}{w}x{h}", 80, [], w, h, ct, None, log={"out": "full", "calls": True, "px": False})
        s["ops"][-1].pop("img")
        s["ops"][-1]["len"] = n
        s["ops"][-1]["noimg"] = True
        out.append(s)
    return out


def c10(r):
    k = 6 if r.thorough else 1
    api_model(r, "all histories of two calls", 2, **HEAD)
    api_model(r, "random histories", 9, simulate=4000 if r.thorough else 70, **HEAD)
    sc = refused_images(r.rng)
    for i in range(1200 if r.thorough else 250):
        o = []
        for _ in range(r.rng.randint(1, 6)):
            bad = r.rng.random() < 0.5
            b = r.rng.choice(BAD_OPS if r.rng.random() < 0.3 else BAD_OPS[:6] + BAD_OPS[10:16]) if bad else r.rng.choice(GOOD_OPS)
            if b.get("len", 0) > 1000000 and r.rng.random() < 0.8:
                b = BAD_OPS[0]
            o.append(b)
        sc.append(scen(f"h{i}", quality(r.rng), o, 8, 8, r.rng.choice(["Luma", "Rgb", "Ycck"]), {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True}))
    for i, b in enumerate(BAD_OPS + BAD_LONG):
        sc.append(scen(f"b{i}", 85, [b], 8, 8, "Rgb", {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True}))
        sc.append(scen(f"bb{i}", 85, [op("app", nr=4, data=[1]), op("scans", n=5), b, op("app", nr=6, data=[2])], 8, 8, "Rgb", {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True}))
    # every refusal, once and twice, with every setting away from its default and segments of every kind present
    rich = [op("density", unit=2, x=5, y=9), op("sampling", name="F_4_2"), op("qtables", luma=q1(3), chroma=preset("ImageMagick")), op("restart", n=3), op("optimize", on=True),
            op("app", nr=2, data=[7]), op("icc", len=20, seed=2), op("app", nr=1, data=[1]), op("app", nr=15, data=[]), op("app", nr=14, data=[5, 5])]
    for i, b in enumerate(BAD_OPS):
        for j, m in enumerate(([op("scans", n=5)], [op("progressive", on=True)], [])):
            sc.append(scen(f"rich{i}-{j}", 85, rich + m + [b] * (1 + (i + j) % 2) + [op("icc", len=3, seed=1)] * (j % 2), 17, 9, ["Ycck", "Rgb", "Luma"][j], {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True}))
    # the same after many segments and after many settings of the same kind
    many = [op("app", nr=1 + i % 15, data=[i % 256] * (i % 5)) for i in range(260)]
    for i, b in enumerate(BAD_OPS):
        for n in (9, 17, 33) + ((65, 130, 260) if i % 4 == 0 or r.thorough else ()):
            sc.append(scen(f"many{i}-{n}", 85, many[:n - n // 2] + [b] + many[n - n // 2:n] + [b], 8, 8, "Luma", {"kind": "mix", "seed": 1}, log={"out": "full", "calls": True}))
    # the largest values that must still be accepted
    for i, g in enumerate([op("app", nr=1, len=65533, seed=1), op("app", nr=15, len=65533, seed=1), op("scans", n=2), op("scans", n=64), op("icc", len=16707345, seed=3)]):
        for j, pre in enumerate(([], rich, [op("app", nr=2, data=list(b"ICC_PROFILE\0\1\1"))] * 2 + [g])):
            sc.append(scen(f"g{i}-{j}", 85, pre + [g], 8, 8, "Luma", {"kind": "mix", "seed": 1}, log={"out": "segs" if g["op"] == "icc" else "full", "calls": g["op"] != "icc"}))
    # a refused call changes nothing; surplus data changes nothing
    groups = []
    for i, s in enumerate(cover(r.rng, times=k)):
        o = s["ops"]
        g = [s]
        for j in range(1):
            x = json.loads(json.dumps(s))
            for n in range(len(o) - 1, 0, -1):
                if r.rng.random() < 0.7 or n == len(o) - 1:
                    x["ops"].insert(n, r.rng.choice(BAD_OPS[:16]))
            x["id"] += "b"
            g.append(x)
        groups.append((f"cv{i}", g))
    for i in range(400 if r.thorough else 60):
        good = [r.rng.choice(GOOD_OPS) for _ in range(r.rng.randint(0, 5))]
        q = quality(r.rng)
        ct = r.rng.choice(CTS)
        w, h = size(r.rng, ct, "F_4_2", 20)
        im = image(r.rng)
        g = [scen(f"g{i}a", q, good, w, h, ct, im)]
        for j in range(2):
            o = []
            for x in good:
                if r.rng.random() < 0.5:
                    o.append(r.rng.choice(BAD_OPS[:16]))
                o.append(x)
            o.append(r.rng.choice(BAD_OPS[:16]))
            g.append(scen(f"g{i}b{j}", q, o, w, h, ct, im))
        s = scen(f"g{i}c", q, good, w, h, ct, im)
        s["ops"][-1]["delta"] = r.rng.choice([1, 3, 64, w * 4, 1000])
        g.append(s)
        groups.append((f"g{i}", g))
    # surplus of every magnitude, multiples of what is required in particular
    for i, ct in enumerate(CTS):
        bpp = {"Luma": 1, "Rgb": 3, "Bgr": 3, "Ycbcr": 3}.get(ct, 4)
        w, h = r.rng.choice([(1, 1), (3, 5), (8, 8), (17, 16), (40, 9)])
        need, im = w * h * bpp, image(r.rng)
        for j, m in enumerate(([], [op("optimize", on=True)], [op("progressive", on=True)])):
            if j == i % 3 or r.thorough:
                g = []
                for d in sorted({0, 1, w, bpp, w * bpp, need, 2 * need - 1, 2 * need, 3 * need, 7 * need, 8 * need + 1, 15 * need, 65535 - need, 65536 - need, 65536, 70000, 255 * need, 300000, 1 << 20, (1 << 24) + 3}):
                    g.append(scen(f"sp{ct}{j}-{d}", 80, m, w, h, ct, im))
                    g[-1]["ops"][-1]["delta"] = d
                groups.append((f"sp{ct}{j}", g))
    for i, b in enumerate(BAD_OPS):
        for j, m in enumerate(([op("scans", n=5)], [op("progressive", on=True)], [])):
            groups.append((f"rg{i}-{j}", [scen(f"rg{i}-{j}-{n}", 85, rich + m + [b] * n + [op("icc", len=3, seed=1)], 17, 9, ["Ycck", "Rgb", "Luma"][j], {"kind": "mix", "seed": 1}) for n in (0, 1, 2)]))
    for i, b in enumerate(BAD_OPS):
        for m in (8, 9, 16, 17, 40, 260):
            groups.append((f"mg{i}-{m}", [scen(f"mg{i}-{m}-{n}", 85, many[:m] + [b] * n + many[:1], 8, 8, "Luma", {"kind": "mix", "seed": 1}) for n in (0, 1)]))
    same(r, groups, "refused calls and surplus data leave no trace")
    stream(r, sc, "results, getters and silence of refused calls", variants=("std", "std-debug", "nostd") + (W32 if r.thorough else ("w32",)), decode=False, chunk=8 << 20)


# ---- equal outputs -------------------------------------------------------------------------

def same(r, groups, label, variants=("std",), pics=True, rows=False, chunk=24 << 20):
    """groups: (id, scenarios) that must give equal output on all variants"""
    sc = []
    for gid, g in groups:
        for s in g:
            s.setdefault("log", {})
            s["log"] = dict(s["log"], out="none", px=not pics, rows=rows)
            sc.append(s)
    variants = r.have(variants)
    outs = {}
    import threading
    errs = []

    def work(v):
        try:
            outs[v] = core.run_variant(r.bins[v], sc, os.path.join(r.scratch, v), 100)
        except Exception as e:
            errs.append(e)

    th = [threading.Thread(target=work, args=(v,)) for v in variants]
    [t.start() for t in th]
    [t.join() for t in th]
    if errs:
        raise errs[0]
    r.executions += len(sc) * len(variants)
    recs, i = [], 0
    for gid, g in groups:
        runs, seen = [], set()
        for s in g:
            for v in variants:
                o = outs[v][i]
                if isinstance(o, tuple):
                    o = json.dumps({"id": s["id"], "crash": f"{o[0]}: {o[1]}", "ev": []})
                if o in seen:
                    continue
                seen.add(o)
                runs.append('{"build":"%s",' % v + o[1:])
            i += 1
        recs.append({"id": gid, "scen": {"id": gid, "group": g}, "variants": list(variants), "others": g,
                     "line": '{"id":"%s","pics":%s,"rows":%s,"runs":[%s]}' % (gid, str(pics).lower(), str(rows).lower(), ",".join(runs))})
    r.log(f"ran {len(sc)} scenarios on {len(variants)} builds, {len(recs)} groups")
    r.validate(recs, "SameOutput", {"Check": f'"{r.prop}"'}, label, view="View", chunk=chunk)
    g = [n for n in r.notices if '"GROUP"' in n]
    if g:
        raise core.ToolError("the generator grouped runs that the specification does not consider equivalent: " + g[0])


def c12(r):
    k = 12 if r.thorough else 3
    avx = None
    groups = []
    # widths with every remainder, all pixel formats; extreme values
    for w in range(1, 42):
        for ct in CTS:
            groups.append((f"w{w}{ct}", [scen(f"w{w}{ct}", r.rng.choice([100, 90, 50]), [op("sampling", name=r.rng.choice(FS))], w, r.rng.randint(1, 12), ct, image(r.rng))]))
    for s in cover(r.rng, times=k // 3):
        groups.append((s["id"], [s]))
    for i in range(500 * k):
        groups.append((f"r{i}", [rand_scen(r.rng, f"r{i}", 400, meta=0.2, imgs=["noise", "ext", "extblocks", "mix", "basis", "smooth", "mid", "check"])]))
    for i in range(60 * k):
        groups.append((f"x{i}", [scen(f"x{i}", 100, [op("qtables", luma=q1(), chroma=q1())], 256, 128, r.rng.choice(["Luma", "Rgb", "Bgr", "Cmyk"]), image(r.rng, ["noise", "ext", "mix", "mid", "smooth"]))]))
    for i, (w, h) in enumerate([(65535, 3), (3, 65535), (1000, 1000), (1023, 777)]):
        groups.append((f"b{i}", [scen(f"b{i}", 90, mode_ops(r.rng), w, h, r.rng.choice(CTS), {"kind": "noise", "seed": i})]))
    # settings refused or repeated
    for i in range(60):
        o = [r.rng.choice(GOOD_OPS + BAD_OPS[:16]) for _ in range(6)]
        groups.append((f"h{i}", [scen(f"h{i}", quality(r.rng), o, 9, 9, r.rng.choice(CTS), {"kind": "mix", "seed": i})]))
    builds = r.have(ALL + (W32 if r.thorough else ("w32-debug",)))
    if not core.has_avx2(r.bins):
        r.assumptions.append("this machine has no AVX2: the vector code was not run")
    same(r, groups, "builds agree", variants=builds)
    if r.thorough:
        be = r.have(("std", "be"))
        if "be" in be:
            small = [(f"be{i}", [rand_scen(r.rng, f"be{i}", 14, meta=0.3)]) for i in range(40)]
            same(r, small, "big endian machine", variants=be)
    # repeated encodes and other writers in the same build
    groups = []
    for i in range(100 * k):
        s = rand_scen(r.rng, f"w{i}", 100)
        g = []
        for j, wrap in enumerate(({"wrap": "direct"}, {"wrap": "direct"}, {"wrap": "vec"}, {"wrap": "dyn"}, {"wrap": "buf", "cap": r.rng.choice([1, 7, 64, 8192])},
                                  {"wrap": "file"}, {"wrap": "direct", "chunk": [1]}, {"wrap": "direct", "chunk": [3, 1, 100]}, {"wrap": "dyn", "int_every": 3})):
            g.append(dict(json.loads(json.dumps(s)), id=f"w{i}-{j}", sink=wrap))
        groups.append((f"w{i}", g))
    same(r, groups, "writers agree and repetition changes nothing", variants=("std", "std-debug"))


def c13(r):
    k = 6 if r.thorough else 1
    api_model(r, "all histories", 3 if r.thorough else 2)
    api_model(r, "random histories", 12, simulate=3000 if r.thorough else 100, decode=r.thorough)
    sc = []
    pool = GOOD_OPS + BAD_OPS[:6] + BAD_OPS[10:16] + [op("sampling", name=s) for s in SAMPLINGS] + [op("density", unit=u, x=1, y=2) for u in (0, 1, 2)] + \
        [op("scans", n=n) for n in (2, 4, 5, 64)] + [op("restart", n=n) for n in (1, 5, 65535)] + \
        [op("qtables", luma=preset(a), chroma=preset(b)) for a, b in (("Default", "Default"), ("ImageMagick", "Flat"), ("DentalXRays", "CustomMsSsim"))] + \
        [op("qtables", luma=custom(r.rng), chroma=custom(r.rng)), op("factors", h=2, v=1), op("factors", h=3, v=1), op("factors", h=1, v=4), op("factors", h=4, v=4), op("factors", h=0, v=0)]
    for i in range(500 * k):
        o = [r.rng.choice(pool) for _ in range(r.rng.randint(0, 12))]
        sc.append(scen(f"h{i}", quality(r.rng), o, r.rng.choice([8, 9, 17]), r.rng.choice([8, 5]), r.rng.choice(CTS), {"kind": "mix", "seed": 1}))
    for q in range(0, 256):
        sc.append(scen(f"q{q}", q, [], 8, 8, "Rgb", {"kind": "const", "v": [3]}))
    stream(r, sc, "random histories: getters and headers", **HEAD)
    # equal final settings, different histories
    groups = []
    for i in range(120 * k):
        fin = {}
        q = quality(r.rng)
        fin["sampling"] = op("sampling", name=r.rng.choice(SAMPLINGS))
        for nm, f in (("density", lambda: density_op(r.rng, 1)[0]), ("qtables", lambda: op("qtables", luma=r.rng.choice([preset(r.rng.choice(PRESETS)), custom(r.rng)]), chroma=preset(r.rng.choice(PRESETS)))),
                      ("scans", lambda: r.rng.choice([op("scans", n=r.rng.randint(2, 64)), op("progressive", on=True), op("progressive", on=False)])),
                      ("restart", lambda: op("restart", n=r.rng.choice([0, 1, 2, 5]))), ("optimize", lambda: op("optimize", on=r.rng.random() < 0.5))):
            if r.rng.random() < 0.6:
                fin[nm] = f()
        segs = app_ops(r.rng, 3)
        ct = r.rng.choice(CTS)
        w, h = size(r.rng, ct, "F_4_2", 24)
        im = image(r.rng)
        g = []
        for j in range(4):
            key = lambda o: "scans" if o["op"] == "progressive" else "sampling" if o["op"] == "factors" else o["op"]
            pre = [r.rng.choice([x for x in pool if x["op"] not in ("app", "icc") or x in BAD_OPS]) for _ in range(r.rng.randint(0, 6) if j else 0)]
            pre = [x for x in pre if x in BAD_OPS or key(x) in fin]
            f = [json.loads(json.dumps(x)) for x in fin.values()]
            r.rng.shuffle(f)
            for x in f:                        # aliases
                if x["op"] == "sampling" and r.rng.random() < 0.5:
                    x["name"] = [n for n in SAMPLINGS if factors(n) == factors(x["name"])][r.rng.randint(0, 1)]
                if x["op"] == "progressive" and x["on"] and r.rng.random() < 0.5:
                    x.clear()
                    x.update(op("scans", n=4))
            seq = list(segs)
            for x in f:
                seq.insert(r.rng.randint(0, len(seq)), x)
            # segments must keep their order: they do, insertion only interleaves
            g.append(scen(f"f{i}-{j}", q, pre + seq, w, h, ct, im))
        groups.append((f"f{i}", g))
    # every combination of three settings, reached directly and over other values of the same settings
    for i, s in enumerate(cover(r.rng, times=k)):
        g = [s]
        for j in range(2):
            x = json.loads(json.dumps(s))
            o = x["ops"][1:-1]
            keys = {"scans" if y["op"] == "progressive" else y["op"] for y in o}
            pre = [y for y in (r.rng.choice([z for z in pool if z["op"] not in ("app", "icc") or z in BAD_OPS]) for _ in range(8)) if y in BAD_OPS or {"progressive": "scans", "factors": "sampling"}.get(y["op"], y["op"]) in keys]
            seg = [y for y in o if y["op"] in ("app", "icc")]
            o = [y for y in o if y["op"] not in ("app", "icc")]
            r.rng.shuffle(o)
            for y in seg:
                o.insert(r.rng.randint(0, len(o)), {"op": "?"})
            it = iter(seg)
            o = [next(it) if y["op"] == "?" else y for y in o]
            x["ops"][1:-1] = json.loads(json.dumps(pre)) + o
            x["id"] += f"h{j}"
            g.append(x)
        groups.append((f"cv{i}", g))
    # defaults: setting the documented default changes nothing
    for q in (1, 50, 89, 90, 100):
        d = [[], [op("sampling", name="F_2_2" if q < 90 else "F_1_1")], [op("density", unit=0, x=0, y=0)], [op("restart", n=0)], [op("optimize", on=False)],
             [op("progressive", on=False)], [op("qtables", luma=preset("Default"), chroma=preset("Default"))], [op("scans", n=9), op("progressive", on=False)]]
        groups.append((f"def{q}", [scen(f"def{q}-{j}", q, o, 33, 20, "Rgb", {"kind": "mix", "seed": 5}) for j, o in enumerate(d)]))
        groups.append((f"defp{q}", [scen(f"defp{q}-{j}", q, o, 33, 20, "Rgb", {"kind": "mix", "seed": 5}) for j, o in enumerate([[op("progressive", on=True)], [op("scans", n=4)], [op("scans", n=7), op("progressive", on=True)]])]))
    # clamped qualities
    groups.append(("q0", [scen(f"q0-{q}", q, [op("sampling", name="F_2_2")], 20, 20, "Rgb", {"kind": "mix", "seed": 5}) for q in (0, 1)]))
    groups.append(("q100", [scen(f"q100-{q}", q, [op("sampling", name="F_2_2")], 20, 20, "Rgb", {"kind": "mix", "seed": 5}) for q in (100, 101, 128, 200, 255)]))
    same(r, groups, "histories with equal final settings")


def c14(r):
    k = 6 if r.thorough else 1
    encoder_model(r, "rows before the data units made of them", widths=(1, 17), heights=(1, 9, 17) if not r.thorough else (1, 8, 9, 17, 33), restarts=(0, 3), replay=False)
    groups = []
    n = 0
    RGBS = ("Rgb", "Rgba", "Bgr", "Bgra")

    def group(w, h, im, q, o, cts):
        nonlocal n
        n += 1
        g = []
        for ct in cts:
            for via in ("slice", "buf"):
                s = scen(f"g{n}-{ct}-{via}", q, o, w, h, ct, im, via)
                s["ops"][-1]["alpha"] = r.rng.randint(1, 10 ** 6)
                g.append(s)
        groups.append((f"g{n}", g))

    for w in list(range(1, 66)) + [95, 96, 97, 127, 128, 129, 191, 255, 256, 257, 511, 513, 1023, 1025]:
        for f in ("F_1_1", "F_2_2", r.rng.choice(FS[1:])):
            if w < 70 or f == "F_1_1":
                group(w, r.rng.randint(1, 10 if w < 34 else 2), image(r.rng, ["noise", "mix", "coord", "ext"]), 95, mode_ops(r.rng) + [op("sampling", name=f)], RGBS)
    # every channel value alone, with every kind of alpha; colours whose conversion is at a rounding boundary
    for i in range(60 * k):
        group(r.rng.choice([8, 9, 16, 17, 31]), r.rng.choice([1, 8]), {"kind": "const", "v": [r.rng.choice([0, 1, 127, 128, 254, 255, r.rng.randint(0, 255)]) for _ in range(4)]}, 100, [op("sampling", name="F_1_1")], RGBS)
    for i in range(150 * k):
        s = r.rng.choice(FS)
        w, h = size(r.rng, "Rgb", s, 40)
        group(w, h, image(r.rng), quality(r.rng), mode_ops(r.rng) + restart_op(r.rng) + [op("sampling", name=s)], RGBS)
    for ct in ("Luma", "Ycbcr", "Cmyk", "CmykAsYcck", "Ycck"):
        for s in FS:
            for m in ("base", "opt", "prog") + (("progopt", "scans") if r.thorough else ()):
                w, h = size(r.rng, ct, s, 60)
                group(w, h, image(r.rng), quality(r.rng), mode_ops(r.rng, m) + [op("sampling", name=s)], (ct,))
    for s in cover(r.rng, times=k):
        o = s["ops"]
        if o[-1]["via"] == "buf":          # every pair of the remaining settings occurs with either source
            continue
        ct = o[-1]["ct"]
        group(o[-1]["w"], o[-1]["h"], o[-1]["img"], o[0]["q"], o[1:-1], RGBS if ct in RGBS else (ct,))
    same(r, groups, "formats and sources agree", variants=core.DEFAULT, pics=False, rows=True)
    # larger pictures, compared by digest only within one format (rows) and by build
    groups.clear()
    for i in range(260 * k):
        ct = r.rng.choice(CAN)
        s = r.rng.choice(FS)
        w, h = r.rng.randint(1, 300), r.rng.randint(1, 120)
        if i % 20 == 0:
            w, h = r.rng.choice([(2000, 3), (4097, 2), (65535, 1), (30000, 2), (3, 2500), (1, 30000), (2, 65535), (700, 500)])
        group(w, h, image(r.rng), quality(r.rng), mode_ops(r.rng) + restart_op(r.rng) + [op("sampling", name=s)], RGBS if ct == "Rgb" else (ct,))
    for w in range(1, 130):
        group(w, 2, image(r.rng, ["noise", "ext"]), 100, [op("sampling", name="F_1_1")] + mode_ops(r.rng), RGBS)
    same(r, groups, "larger pictures, all formats, slice and user image", variants=core.DEFAULT, pics=True, rows=True)


def c15(r):
    k = 10 if r.thorough else 1
    model_quant(r, ["QuantizerOK"], 1)
    r.model("MC_Dct", dict(invariants=["TransformOK", "RangeOK", "BoundOK"]), "transform and quantizer against the definition, every block")
    sc = []
    imgs = ["noise", "ext", "extblocks", "mid", "smooth", "mix", "grad", "basis", "check"]
    for v in range(1, 256):
        sc.append(scen(f"q{v}", 100, [op("qtables", luma=q1(v), chroma=q1(v))], 24, 16, "Luma", image(r.rng, imgs)))
    for v in (1, 2, 3, 4):
        for u in range(8):
            for x in range(8):
                sc.append(scen(f"b{v}-{u}{x}", 100, [op("qtables", luma=q1(v), chroma=q1(v))], 16, 8, "Luma", {"kind": "basis", "u": u, "v": x, "flip": 2, "seed": 1}))
    for i in range(150 * k):
        t = r.rng.choice([custom(r.rng, "any"), custom(r.rng, "small"), preset(r.rng.choice(PRESETS))])
        ct = r.rng.choice(["Luma", "Rgb", "Cmyk"])
        o = [op("qtables", luma=t, chroma=t), op("sampling", name=r.rng.choice(FS))]
        if r.rng.random() < 0.2:
            o.append(op("optimize", on=True))
        w, h = size(r.rng, ct, "F_4_2", 40)
        sc.append(scen(f"r{i}", quality(r.rng), o, w, h, ct, image(r.rng, imgs)))
    # the blocks found by tools/worstblocks.py, whose transform deviates most from the definition
    for n, (_, _, px) in enumerate(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "worst_blocks.json")))):
        for v in (1,) + ((2, 3, 5) if r.thorough else (2 + n % 4,)):
            sc.append(scen(f"worst{n}-{v}", 100, [op("qtables", luma=q1(v), chroma=q1(v))], 8, 8, "Luma", {"kind": "raw", "px": px}))
    stream(r, sc, "error against the definition of the DCT", exp=True)


def c16(r):
    k = 6 if r.thorough else 1
    encoder_model(r, "every run ends", widths=(1, 9), heights=(17,), restarts=(0, 1), live=True, variants=ALL, **HEAD)
    L = {"out": "none", "px": False}
    sc = []
    for i in range(2500 * k):
        s = rand_scen(r.rng, f"r{i}", 2000, meta=0.2)
        s["log"] = L
        sc.append(s)
    for ct in CTS:
        for s in SAMPLINGS:
            for m in ("base", "opt", "prog", "progopt", "scans", "scansopt"):
                for w, h in ((1, 1), (r.rng.randint(1, 70), r.rng.randint(1, 70))):
                    sc.append(scen(f"a{ct}{s}{m}{w}", quality(r.rng), mode_ops(r.rng, m) + qops(r.rng) + restart_op(r.rng) + [op("sampling", name=s)], w, h, ct, image(r.rng), r.rng.choice(["slice", "buf"]), log=L))
    for x in extremes(r.rng, 200 * k) + runs_pictures(r.rng, 6):
        sc.append(dict(x, log=L))
    for n in range(2, 65):
        for m in (False, True):
            sc.append(scen(f"n{n}{m}", 100, [op("scans", n=n), op("optimize", on=m), op("qtables", luma=q1(), chroma=q1())] + restart_op(r.rng), 40, 24, r.rng.choice(CTS), image(r.rng, ["ext", "noise", "mix"]), log=L))
    sc += cover(r.rng, times=k, log=L)
    # setters with every first byte and every short length
    for n in range(256):
        o = [op("app", nr=1 + n % 15, len=n % 7, seed=n), op("icc", len=1 + n % 4, seed=n), op("app", nr=1 + n % 15, len=n, seed=7), op("icc", len=n // 2, seed=n), op("restart", n=n), op("restart", n=n * 257),
             op("density", unit=n % 3, x=n, y=255 - n), op("density", unit=1 + n % 2, x=n * 256, y=n), op("factors", h=n % 16, v=n // 16), op("restart", n=n % 5)]
        r.rng.shuffle(o)
        sc.append(scen(f"set{n}", n, o, 9, 9, r.rng.choice(CTS), {"kind": "mix", "seed": n}, log=L))
    stream(r, sc, "combinations", variants=ALL + (W32 if r.thorough else ("w32-debug",)) + ("simd-asan",), **HEAD)
    sc = []
    for i, (w, h, ct) in enumerate(big_sizes() + [(4096, 4096, "Luma"), (3000, 2000, "Rgb")]):
        for m in ("base", "opt", "progopt"):
            if i == len(big_sizes()) and m == "progopt" and not r.thorough:
                continue
            sc.append(scen(f"big{i}{m}", r.rng.choice([20, 90, 100]), mode_ops(r.rng, m) + restart_op(r.rng), w, h, ct, {"kind": r.rng.choice(["noise", "mid", "const"]), "amp": 9, "seed": i, "v": [90, 20, 200, 7]}, log=L))
    for i, (w, h) in enumerate([(65535, 600), (600, 65535)] + ([(65535, 8000)] if r.thorough else [])):
        sc.append(scen(f"huge{i}", 10, [op("restart", n=65535)], w, h, "Luma", {"kind": "const", "v": [200]}, log=L))
    for n in (31, 33, 34) if r.thorough else (34,):
        sc.append(deep_plan(r.rng, f"deep{n}", n, 460, [], log=L))
    stream(r, sc, "extreme dimensions", **HEAD)


def c17(r):
    k = 6 if r.thorough else 1
    model_geometry(r, w=40 if r.thorough else 17, h=36 if r.thorough else 17)
    sc = all_modes(r.rng, cts=CTS, samps=SAMPLINGS, modes=("base", "opt", "prog"))
    sc += cover(r.rng, times=k, imgs=(["const"],) * 3, log=HEADLOG)
    for i in range(250 * k):
        s = rand_scen(r.rng, f"r{i}", 300, meta=0.2)
        sc.append(s)
    # explicit factors through from_factors
    for h in range(0, 6):
        for v in range(0, 6):
            sc.append(scen(f"f{h}{v}", 50, [op("factors", h=h, v=v)], 9, 9, r.rng.choice(CAN), {"kind": "const", "v": [7]}))
    stream(r, sc, "frame headers", **HEAD)
    r.validate([dict(x, scen={"id": "factors", "mode": "factors"}) for x in r.execute([{"id": "factors", "mode": "factors"}], ALL + ("w32",))], "FactorsTrace", {"Check": '"C17"'}, "from_factors for all pairs", view="View")
    L = {"out": "head", "px": False, "headlen": 1500}
    sc = []
    dims = [1, 2, 127, 128, 255, 256, 257, 511, 512, 1023, 4095, 4096, 8191, 16384, 32767, 32768, 32769, 65279, 65280, 65534, 65535]
    for i, d in enumerate(dims):
        for j in range(3 * k):
            e = r.rng.choice([1, 2, 3, 7, 8, 9, 16, 17])
            ct = r.rng.choice(CTS)
            w, h = (d, e) if j % 2 else (e, d)
            sc.append(scen(f"d{d}-{j}", 30, mode_ops(r.rng) + [op("sampling", name=r.rng.choice(SAMPLINGS))], w, h, ct, {"kind": "const", "v": [7, 90, 200, 30]}, r.rng.choice(["slice", "buf"]), log=L))
    stream(r, sc, "all magnitudes of dimensions", **HEAD)


def c18(r):
    model_color(r, range(256) if r.thorough else [0, 1, 64, 127, 128, 129, 200, 254, 255])
    recs = []
    if r.thorough:
        rows = [[a, b] for a in range(256) for b in range(256)]
    else:
        rows = [[a, b] for a in (0, 1, 2, 63, 64, 127, 128, 129, 191, 254, 255) for b in range(256)]
        rows += [[b, a] for a in (0, 1, 127, 128, 254, 255) for b in range(0, 256)]
        rows += [[a, a] for a in range(256)]
        rows += [[r.rng.randint(0, 255), r.rng.randint(0, 255)] for _ in range(8000)]
    cm = [[r.rng.choice([0, 255, r.rng.randint(0, 255)]) for _ in range(4)] for _ in range(3000)] + [[10, 200, 30, x] for x in range(256)] + [[x, x, x, x] for x in range(256)]
    sc = []
    n = 256
    for i in range(0, len(rows), n):
        sc.append({"id": f"c{i}", "mode": "colors", "rows": rows[i:i + n], "cmyk": cm[i // 8:(i + n) // 8]})
    recs = r.execute(sc)
    r.validate(recs, "ColorTrace", {"Check": '"C18"'}, "conversion functions", view="View")
    # through encoding, scalar and vector
    sc = []
    for i in range(200 if r.thorough else 60):
        ct = ["Rgb", "Rgba", "Bgr", "Bgra", "CmykAsYcck"][i % 5]
        ch = 4 if ct.startswith("C") else 3
        pick = lambda: r.rng.choice([0, 1, 127, 128, 254, 255, r.rng.randint(0, 255), r.rng.randint(0, 255), r.rng.randint(0, 255)])
        v = []
        for t in range(96):
            if t % 8 == 0:
                g = pick()
                v += [g] * ch
            else:
                v += [pick() for _ in range(ch)]
        w = r.rng.choice([96, 89, 95, 33])
        sc.append(scen(f"e{i}", 100, [op("qtables", luma=q1(), chroma=q1()), op("sampling", name="F_1_1")] + mode_ops(r.rng, r.rng.choice(["base", "opt", "prog"])), w, 32, ct, {"kind": "tiles", "v": v}))
    stream(r, sc, "colours of decoded pictures", exp=False)


# ---- sinks ------------------------------------------------------------------------------------

def sink_records(r, scens, variants):
    """every scenario together with what a perfect sink receives"""
    refs = []
    for s in scens:
        x = json.loads(json.dumps(s))
        x["sink"] = {"wrap": "direct"}
        x["log"] = {"out": "full", "px": False}
        x["id"] = s["id"] + "-ref"
        refs.append(x)
    ref = r.execute(refs, ("std",)) if refs else []
    byid = {x["scen"]["id"]: last_event(x).get("out", []) for x in ref}
    recs = r.execute(scens, variants)
    out = []
    for x in recs:
        s = x["scen"]
        wrap = s["sink"]["wrap"]
        logged = bool(s["log"].get("calls"))
        x["line"] = json.dumps({"id": x["id"], "ref": byid[s["id"] + "-ref"], "strict": wrap in ("direct", "dyn", "ref"), "logged": logged,
                                "mayfail": wrap == "nofile", "devfull": wrap == "full", "fault": s["sink"].get("fault", ""),
                                "std": "nostd" not in x["variants"], "run": json.loads(x["line"])}, separators=(",", ":"))
        out.append(x)
    return out


def sink_configs():
    return [
        ("base", 8, 8, "Luma", []), ("rgb", 17, 9, "Rgb", [op("sampling", name="F_2_2")]), ("opt", 16, 8, "Rgb", [op("optimize", on=True)]),
        ("prog", 9, 9, "Rgb", [op("progressive", on=True)]), ("progopt", 16, 16, "Luma", [op("scans", n=3), op("optimize", on=True)]),
        ("rst", 32, 16, "Luma", [op("restart", n=1)]), ("rstp", 16, 16, "Luma", [op("restart", n=2), op("progressive", on=True)]),
        ("meta", 8, 8, "Cmyk", [op("app", nr=3, data=[1, 2, 3]), op("icc", len=40, seed=1), op("density", unit=1, x=3, y=3)]),
        ("seq", 16, 8, "Ycck", [op("sampling", name="F_4_1")]),
    ]


FAULTS = {"std": ["WouldBlock", "TimedOut", "BrokenPipe", "UnexpectedEof", "WriteZero", "InvalidInput", "InvalidData", "PermissionDenied", "ConnectionReset",
                  "OutOfMemory", "os28", "os32"],
          "nostd": ["BadImageData", "InvalidAppSegment", "AppSegmentTooLarge", "IccTooLarge", "ZeroImageDimensions"]}


def c11(r):
    k = 5 if r.thorough else 1
    encoder_model(r, "failure of every write and of the flush", samplings=("F_1_1", "F_2_2", "F_1_4"), widths=(17,), restarts=(0, 1), faults=True, live=True, replay=False)
    LOG = {"out": "full", "px": False, "calls": True}
    # how many calls each configuration makes
    probe = [scen(f"p{n}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct"}, log=LOG) for n, w, h, ct, o in sink_configs()]
    count = {}
    for v in ("std", "nostd"):
        for x, c in zip(r.execute(probe, (v,)), sink_configs()):
            e = last_event(x)
            count[v, c[0]] = (len([y for y in e.get("calls", []) if y[0] == 0]), e.get("outlen", 0))
    # every failing write call, every byte position
    for v in ("std", "nostd"):
        sc = []
        for n, w, h, ct, o in sink_configs():
            calls, size_ = count[v, n]
            step = 1 if r.thorough else max(1, calls // 120)
            for i in sorted(set(range(0, min(calls, 60))) | set(range(0, calls, step)) | set(range(max(0, calls - 30), calls + 2))):
                sc.append(scen(f"{v}{n}w{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "err_at": i, "recover": i % 2 == 0}, log=LOG))
            sc.append(scen(f"{v}{n}fl", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "flush_err": True}, log=LOG))
            # every kind of error value, at the start, in the headers, in the scan data, at the end
            for f in FAULTS[v]:
                for i in (0, 1, r.rng.randint(2, 40), r.rng.randint(2, max(2, calls - 1)), max(0, calls - r.rng.randint(1, 3))) if n in ("base", "prog", "meta", "rst") or r.thorough else (r.rng.randint(1, max(1, calls - 1)),):
                    sc.append(scen(f"{v}{n}{f}{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "err_at": i, "fault": f, "recover": r.rng.random() < 0.7}, log=LOG))
                sc.append(scen(f"{v}{n}{f}fl", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "flush_err": True, "fault": f}, log=LOG))
            if v == "std":
                for i in range(0, size_ + 1, 1 if r.thorough else max(1, size_ // 90)):
                    sc.append(scen(f"{v}{n}b{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "err_byte": i, "chunk": [r.rng.choice([1, 2, 3, 50])]}, log=LOG))
                for i in range(0, calls, max(1, calls // (200 if r.thorough else 25))):
                    sc.append(scen(f"{v}{n}z{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "direct", "zero_at": i}, log=LOG))
        recs = sink_records(r, sc, (v,) if v == "nostd" else ("std",))
        r.validate(recs, "SinkTrace", {"Check": '"C11"'}, f"a failure at every call ({v})", view="View")
    # every combination of three settings, with a failure somewhere
    sc = []
    for i, s in enumerate(cover(r.rng, times=k)):
        e = r.rng.choice([0, 1, 2, 5, 10, r.rng.randint(3, 40), r.rng.randint(20, 300), r.rng.randint(30, 1500)])
        s.update(log=LOG, sink=[{"wrap": "direct", "err_at": e, "fault": r.rng.choice(FAULTS["std"]), "recover": i % 3 == 0}, {"wrap": "direct", "err_byte": r.rng.randint(0, 1500), "chunk": [r.rng.choice([1, 3, 50])]},
                                {"wrap": "ref", "err_at": e}, {"wrap": "direct", "flush_err": True, "fault": r.rng.choice(FAULTS["std"])}, {"wrap": "dyn", "err_at": e}][i % 5])
        sc.append(s)
    r.validate(sink_records(r, sc, ("std",)), "SinkTrace", {"Check": '"C11"'}, "a failure under every combination of settings", view="View")
    # a borrowed writer
    for v in ("std", "nostd"):
        sc = []
        for n, w, h, ct, o in sink_configs():
            calls = count[v, n][0]
            for i, sk in enumerate([{}, {"flush_err": True}] + [{"err_at": x} for x in (0, r.rng.randint(1, 30), r.rng.randint(2, max(2, calls - 1)), max(0, calls - 1))]):
                sc.append(scen(f"{v}ref{n}{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink=dict(sk, wrap="ref", fault=r.rng.choice(FAULTS[v])), log=LOG))
        recs = sink_records(r, sc, (v,))
        r.validate(recs, "SinkTrace", {"Check": '"C11"'}, f"borrowed writers ({v})", view="View")
    # single writes of many bytes: long segments, cut off, interrupted or failing anywhere
    for v in ("std", "nostd"):
        sc = []
        for n, ln in (("a", 4095), ("b", 4097), ("c", 9000), ("d", 65533)):
            o = [op("app", nr=3, len=ln, seed=1), op("icc", len=ln // 2 + 20, seed=4)]
            sks = [{"err_at": i} for i in range(14, 28, 1 if ln < 5000 else 2)] + [{"err_at": i, "recover": False} for i in (18, 19, 20)]
            if v == "std":
                sks += [{"chunk": c} for c in ([1000], [4096], [4095, 1], [65536], [7, 8192])] + [{"chunk": [511], "int_every": 2}, {"zero_at": 19}, {"zero_at": 24, "chunk": [1000]}]
                sks += [{"err_byte": b, "chunk": c} for b in (60, 4096, 5000, ln, ln + 40, 20000) if b < 2 * ln for c in ([100], [4096], [100000])]
            for i, sk in enumerate(sks if ln < 10000 or r.thorough else sks[::3]):
                sc.append(scen(f"{v}seg{n}{i}", 80, o, 8, 8, "Luma", {"kind": "mix", "seed": 3}, sink=dict(sk, wrap="direct"), log=LOG))
        recs = sink_records(r, sc, (v,) if v == "nostd" else ("std",))
        r.validate(recs, "SinkTrace", {"Check": '"C11"'}, f"long segments ({v})", view="View")
    # benign behaviour: short writes and interruptions; trait objects, buffers and files
    sc = []
    for i in range(400 if r.thorough else 80):
        n, w, h, ct, o = r.rng.choice(sink_configs())
        sk = r.rng.choice([{"wrap": "direct", "chunk": [1]}, {"wrap": "direct", "chunk": [r.rng.randint(1, 9) for _ in range(4)], "int_every": r.rng.randint(2, 5)},
                           {"wrap": "dyn", "chunk": [2, 1]}, {"wrap": "dyn", "int_every": 2}, {"wrap": "dyn", "err_at": r.rng.randint(0, 200)}, {"wrap": "dyn", "flush_err": True},
                           {"wrap": "direct", "chunk": [5], "int_every": 3, "err_byte": r.rng.randint(0, 700)}])
        sc.append(scen(f"ok{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink=sk, log=LOG))
    for i in range(300 if r.thorough else 80):
        n, w, h, ct, o = r.rng.choice(sink_configs())
        sk = dict({"wrap": "buf", "cap": r.rng.choice([1, 2, 16, 64, 600, 8192, 100000])}, **r.rng.choice([{}, {"err_at": r.rng.randint(0, 9)}, {"err_at": 0}, {"flush_err": True}, {"err_byte": r.rng.randint(0, 700), "recover": False}, {"chunk": [3]}]))
        if r.rng.random() < 0.5:
            sk["fault"] = r.rng.choice(FAULTS["std"])
        sc.append(scen(f"buf{i}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink=sk, log=LOG))
    recs = sink_records(r, sc, ("std", "std-debug"))
    r.validate(recs, "SinkTrace", {"Check": '"C11"'}, "short writes, interruptions, buffers", view="View")
    sc = []
    LOGF = {"out": "full", "px": False}
    for n, w, h, ct, o in sink_configs():
        for ex in (False, True):
            sc.append(scen(f"file{n}{ex}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "file", "exists": ex}, log=LOGF))
        sc.append(scen(f"full{n}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "full"}, log=LOGF))
        sc.append(scen(f"nofile{n}", 80, o, w, h, ct, {"kind": "mix", "seed": 3}, sink={"wrap": "nofile"}, log=LOGF))
    # bigger than the file buffer
    sc.append(scen("fullbig", 95, [], 200, 200, "Luma", {"kind": "noise", "seed": 3}, sink={"wrap": "full"}, log=LOGF))
    sc.append(scen("filebig", 95, [], 120, 100, "Luma", {"kind": "noise", "seed": 3}, sink={"wrap": "file"}, log=LOGF))
    recs = sink_records(r, sc, ("std", "std-debug"))
    r.validate(recs, "SinkTrace", {"Check": '"C11"'}, "files", view="View")


# ---- several encoders at once -----------------------------------------------------------------

def together(r, sets, label, variants):
    """sets: (id, how-dict, scenarios); every run must end as it does alone.  Alone = a run of its own before"""
    builds = r.have(variants)
    solo, jobs = [], []
    for gid, how, g in sets:
        for j, s in enumerate(g):
            s["id"] = f"{gid}.{j}"
            s["log"] = dict(s.get("log") or {}, out="none", px=False)
            solo.append(s)
        jobs.append(dict(how, id=gid, mode="together", runs=g))
    recs = []
    for v in builds:
        a = core.run_variant(r.bins[v], solo, os.path.join(r.scratch, v), 100)
        b = core.run_variant(r.bins[v], jobs, os.path.join(r.scratch, v), 100)
        r.executions += len(solo) * 2
        i = 0
        for (gid, how, g), o in zip(sets, b):
            if isinstance(o, tuple):
                outs = [{"id": s["id"], "crash": f"{o[0]}: {o[1]}", "ev": []} for s in g]
            else:
                outs = json.loads(o)["runs"]
            for j, s in enumerate(g):
                alone = a[i] if not isinstance(a[i], tuple) else json.dumps({"id": s["id"], "crash": a[i][1], "ev": []})
                i += 1
                runs = ['{"build":"alone",' + alone[1:]]
                for k, x in enumerate(y for y in outs if y["id"] == s["id"]):
                    runs.append(json.dumps(dict(x, build="together" + str(k)), separators=(",", ":")))
                if len(runs) < 2:      # a nested run whose point was never reached
                    continue
                recs.append({"id": f"{s['id']}@{v}", "scen": {"id": gid, "how": how, "group": g}, "variants": [v], "others": g,
                             "line": '{"id":"%s@%s","pics":true,"rows":false,"runs":[%s]}' % (s["id"], v, ",".join(runs))})
    r.log(f"ran {len(solo)} encodes alone and together on {len(builds)} builds")
    r.validate(recs, "SameOutput", {"Check": f'"{r.prop}"'}, label, view="View", chunk=24 << 20)


def c19(r):
    k = 8 if r.thorough else 1
    r.need("std", "std-debug", "simd", "nostd")

    def some(n, maxb, **kw):
        g = []
        for j in range(n):
            s = rand_scen(r.rng, "x", maxb, meta=0.3, via=r.rng.choice(["slice", "buf", "buf"]), **kw)
            x = r.rng.random()
            if x < 0.1:
                s["sink"] = {"wrap": "direct", "err_at": r.rng.randint(0, 150)}
            elif x < 0.2:
                s["sink"] = {"wrap": "direct", "chunk": [1, 3]}
            elif x < 0.25:
                s["ops"][-1]["delta"] = -1
            elif x < 0.3:
                s["ops"].insert(1, op("scans", n=r.rng.choice([0, 65])))
            g.append(s)
        return g

    # one after the other in all orders of two from a pool, on one thread: nested at a point that comes last is the same
    for n, calls, pieces in ((2, 3, 3), (3, 1, 2)) if not r.thorough else ((2, 3, 4), (3, 2, 2)):
        m = r.model("MC_Together", dict(N=n, Calls=calls, Pieces=pieces, Show=True, invariants=["Independent"]), f"{n} encoders, {calls} calls and {pieces} pieces each")
        sc = m.json["SCHED"]
        if not r.thorough:
            sc = r.rng.sample(sc, min(len(sc), 400))
        sets = []
        for i, h in enumerate(sc):
            sets.append((f"t{n}-{i}", {"how": "turns", "sched": h * 40, "grain": [r.rng.choice([1, 1, 2, 5, 9, 30]) for _ in range(n)]}, some(n, 12)))
        together(r, sets, f"{n} encoders taking turns", ("std", "simd", "nostd") if r.thorough else ("std", "simd"))
    sets = []
    for i in range(250 * k):
        g = some(r.rng.choice([2, 2, 3]), 20)
        if i % 3:
            g[0]["ops"][-1]["via"] = "buf"
        sets.append((f"n{i}", {"how": "nest", "at": [-1] + [r.rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 40, 80, 150, 250]) for _ in g[1:]][:2]}, g))
        sets[-1][1]["at"] = sets[-1][1]["at"][1:]
    # every combination of three settings in the inner encoder
    for s in cover(r.rng, times=k):
        a = rand_scen(r.rng, "x", 8, via="buf")
        sets.append(("c" + s["id"], {"how": "nest", "on": r.rng.randint(0, 1), "at": [r.rng.choice([0, 0, 1, 2, 7, 8])]}, [a, s]))
    # inside particular row requests and writes; same and different settings inside and outside
    for i in range(300 * k):
        g = some(2, 20)
        a, b = g
        a["ops"][-1]["via"] = "buf"
        if i % 3 == 0:
            b["ops"] = json.loads(json.dumps(a["ops"][:-1])) + b["ops"][-1:]
        if i % 3 == 1:
            b["ops"].insert(1, op("restart", n=1 + i % 4))
        sets.append((f"o{i}", {"how": "nest", "on": 1 + (i % 4 == 0), "at": [r.rng.choice([0, 0, 0, 1, 2, 7, 8, 9, 15, 16])]}, g))
    together(r, sets, "encoders inside the callbacks of another", ("std", "std-debug", "simd", "nostd"))
    sets = []
    for i in range(40 * k):
        sets.append((f"f{i}", {"how": "free", "rounds": 15 if r.thorough else 8}, some(8, 60)))
    # the same request in all threads
    for i in range(10 * k):
        s = some(1, 60)[0]
        sets.append((f"e{i}", {"how": "free", "rounds": 10}, [json.loads(json.dumps(s)) for _ in range(8)]))
    together(r, sets, "encoders in free running threads", ("std", "simd"))


# ---- callbacks that panic or misbehave ---------------------------------------------------------

def last_event(x):
    """the last event of a recorded run; empty if the process died"""
    return (json.loads(x["line"])["ev"] or [{}])[-1]


def callback_records(r, scens, variants, sane=True):
    ref = {}
    if sane:
        refs = {}
        for s in scens:
            x = json.loads(json.dumps(s))
            x["ops"][-1].pop("cb", None)
            x.update(sink={"wrap": "direct"}, log={"out": "full", "px": False})
            k = json.dumps([x["ops"], x["sink"]])
            s["_k"] = k
            refs.setdefault(k, dict(x, id=s["id"] + "-ref"))
        keys = list(refs)
        for k, x in zip(keys, [y for y in r.execute([refs[k] for k in keys], ("std",))]):
            ref[k] = last_event(x).get("out", [])
    ks = [s.pop("_k", None) for s in scens]
    for s, k in zip(scens, ks):
        s["log"] = {"out": "full" if sane else "none", "px": False, "cb": True}
        s["ref"] = k
    recs = r.execute([{a: b for a, b in s.items() if a != "ref"} for s in scens], variants)
    byid = {s["id"]: s["ref"] for s in scens}
    for x in recs:
        x["line"] = json.dumps({"id": x["id"], "ref": ref.get(byid[x["scen"]["id"]], []), "sane": sane, "logged": True, "run": json.loads(x["line"])}, separators=(",", ":"))
    return recs


def c20(r):
    k = 6 if r.thorough else 1
    encoder_model(r, "sink and image fail or panic anywhere", samplings=("F_1_1", "F_2_2", "F_1_4"), widths=(17,), restarts=(0, 1), faults=True, live=True, replay=False)
    allv = ("std", "std-debug", "simd", "simd-debug", "nostd", "nostd-debug")
    sc, probe, info = [], [], {}
    cfgs = sink_configs()
    for n, w, h, ct, o in cfgs:
        probe.append(scen(n, 80, o, w, h, ct, {"kind": "mix", "seed": 3}, via="buf", log={"out": "none", "px": False, "cb": True}))
    for x in r.execute(probe, ("std",)):
        cs = last_event(x).get("calls", [])
        info[x["scen"]["id"]] = {j: len([c for c in cs if c[0] == j]) for j in range(8)}
    pic = {"kind": "mix", "seed": 3}
    for n, w, h, ct, o in cfgs:
        # the image panics at every row and at every question
        for kind in (3, 4, 5, 6):
            c = info[n][kind]
            at = set(range(min(c, 40 if r.thorough else 12))) | set(range(max(0, c - 3), c + 1)) | {r.rng.randint(0, c) for _ in range(3)}
            for i in sorted(at):
                s = scen(f"{n}i{kind}-{i}", 80, o, w, h, ct, pic, via="buf")
                s["ops"][-1]["cb"] = {"panic_kind": kind, "panic_at": i}
                sc.append(s)
        # the sink panics or fails, at every write and at the flush, with either image
        c = info[n][0]
        step = max(1, c // (400 if r.thorough else 45))
        for i in sorted(set(range(0, min(c, 25))) | set(range(0, c, step)) | set(range(max(0, c - 12), c + 1))):
            sc.append(scen(f"{n}p{i}", 80, o, w, h, ct, pic, via=("buf", "slice")[i % 2], sink={"wrap": "direct", "panic_at": i}))
            if i % 3 == 0:
                sc.append(scen(f"{n}e{i}", 80, o, w, h, ct, pic, via="buf", sink={"wrap": "direct", "err_at": i}))
        for via in ("buf", "slice"):
            sc.append(scen(f"{n}pf{via}", 80, o, w, h, ct, pic, via=via, sink={"wrap": "direct", "flush_panic": True}))
            sc.append(scen(f"{n}ef{via}", 80, o, w, h, ct, pic, via=via, sink={"wrap": "direct", "flush_err": True}))
            sc.append(scen(f"{n}ok{via}", 80, o, w, h, ct, pic, via=via))
            sc.append(scen(f"{n}sh{via}", 80, o, w, h, ct, pic, via=via, sink={"wrap": "direct", "chunk": [3, 1], "int_every": 4}))
    for i in range(80 * k):
        s = rand_scen(r.rng, f"r{i}", 30, meta=0.3)
        x = r.rng.random()
        if x < 0.6:
            s["ops"][-1].update(via="buf", cb={"panic_kind": r.rng.choice([3, 3, 3, 4, 5, 6]), "panic_at": r.rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 20, 30])})
        else:
            s["sink"] = {"wrap": "direct", "panic_at": r.rng.choice([0, 1, 2, 5, 10, 20, 40, 80, 200, 500, r.rng.randint(0, 3000)])}
        sc.append(s)
    for i, s in enumerate(cover(r.rng, times=k)):
        if i % 3 == 0:
            s["sink"] = {"wrap": "direct", "panic_at": r.rng.choice([0, 1, 2, 5, 10, r.rng.randint(3, 40), r.rng.randint(20, 300), r.rng.randint(30, 1500)])}
        elif s["ops"][-1]["via"] == "buf":
            s["ops"][-1]["cb"] = {"panic_kind": r.rng.choice([3, 3, 3, 4, 5, 6]), "panic_at": r.rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16])}
        sc.append(s)
    nostd = [s for s in sc if not (s["sink"].get("chunk") or s["sink"].get("int_every"))]
    r.validate(callback_records(r, sc, ("std", "std-debug", "simd")), "CallbackTrace", {"Check": '"C20"'}, "callbacks panic or fail", view="View")
    r.validate(callback_records(r, r.rng.sample(nostd, len(nostd) if r.thorough else len(nostd) // 3), ("nostd",)), "CallbackTrace", {"Check": '"C20"'}, "callbacks panic or fail (no_std)", view="View")
    # images that do not deliver what they declare
    sc = []
    shapes = ["empty", "short", "long", "some", "all", "clear", "cut", "swap", "take", "late", "random"]
    modes = ["base", "opt", "prog", "progopt", "scans"]
    for i in range(700 * k):
        ct, samp = r.rng.choice(CAN), r.rng.choice(SAMPLINGS)
        w, h = size(r.rng, ct, samp, 40)
        s = rand_scen(r.rng, f"m{i}", 40, ct=ct, samp=samp, sz=(w, h), mode=modes[i % 5], via="buf")
        j = i % (len(shapes) + 3)
        if j < len(shapes):
            s["ops"][-1]["cb"] = {"shape": shapes[j], "n": r.rng.choice([0, 1, 1, 2, 3, w - 1, w, w + 1, 8, 64, 1000, 70000 if shapes[j] == "long" and h < 10 else 5]), "seed": i}
        elif j < len(shapes) + 2:
            d = (w, h)[j - len(shapes)]
            s["ops"][-1]["cb"] = {"other_kind": 4 + j - len(shapes), "other_from": r.rng.choice([0, 1, 1, 2, 2, 3, 4]), "other": max(0, r.rng.choice([0, 1, d - 1, d + 1, d + 7, d + 8, d - 8, d * 2, d // 2, 300, 1000 if min(w, h) < 20 else 64]))}
        else:
            s["ops"][-1]["cb"] = {"other_kind": 6, "other_from": r.rng.choice([0, 1, 1, 2, 3]), "other": r.rng.randint(0, 3)}
        sc.append(s)
    r.validate(callback_records(r, sc, allv + ("simd-asan",) + (W32 if r.thorough else ()), sane=False), "CallbackTrace", {"Check": '"C20"'}, "images that misbehave", view="View")


def rebuild_group(r, d):
    raise SystemExit("replay of groups: run the check again with the same VERIF_SEED")


REBUILD = {"SameOutput": rebuild_group, "SinkTrace": rebuild_group, "ColorTrace": rebuild_group, "CallbackTrace": rebuild_group}

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
