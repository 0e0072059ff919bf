"""Scenario generators.  Every random choice comes from the given random.Random."""
import json, os

SAMPLINGS = ["F_1_1", "F_2_1", "F_1_2", "F_2_2", "F_4_1", "F_4_2", "F_1_4", "F_2_4",
             "R_4_4_4", "R_4_4_0", "R_4_4_1", "R_4_2_2", "R_4_2_0", "R_4_2_1", "R_4_1_1", "R_4_1_0"]
FS = SAMPLINGS[:8]
CTS = ["Luma", "Rgb", "Rgba", "Bgr", "Bgra", "Ycbcr", "Cmyk", "CmykAsYcck", "Ycck"]
PRESETS = ["Default", "Flat", "CustomMsSsim", "CustomPsnrHvs", "ImageMagick", "KleinSilversteinCarney",
           "DentalXRays", "VisualDetectionModel", "ImprovedDetectionModel"]
CAN = ["Luma", "Rgb", "Ycbcr", "Cmyk", "CmykAsYcck", "Ycck"]
SIZES = [1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 41, 47, 48, 49, 63, 64, 65]


def factors(name):
    t = {"F_1_1": (1, 1), "R_4_4_4": (1, 1), "F_2_1": (2, 1), "R_4_2_2": (2, 1), "F_1_2": (1, 2), "R_4_4_0": (1, 2),
         "F_2_2": (2, 2), "R_4_2_0": (2, 2), "F_4_1": (4, 1), "R_4_1_1": (4, 1), "F_4_2": (4, 2), "R_4_1_0": (4, 2),
         "F_1_4": (1, 4), "R_4_4_1": (1, 4), "F_2_4": (2, 4), "R_4_2_1": (2, 4)}
    return t[name]


def q1(v=1):
    return {"k": "Custom", "v": [v]}


def preset(k):
    return {"k": k, "v": []}


def custom(rng, kind=None):
    kind = kind or rng.choice(["small", "any", "wide", "edge"])
    r = {"small": (1, 8), "any": (1, 255), "wide": (0, 65535), "edge": None}[kind]
    if r is None:
        return {"k": "Custom", "v": [rng.choice([0, 1, 2, 254, 255, 256, 257, 511, 512, 32768, 65535]) for _ in range(64)]}
    return {"k": "Custom", "v": [rng.randint(*r) for _ in range(64)]}


def op(opname, /, **kw):
    return dict(op=opname, **kw)


def image(rng, kinds=None):
    k = rng.choice(kinds or ["noise", "mid", "ext", "extblocks", "grad", "smooth", "check", "coord", "stairs", "basis", "mix", "mix", "const"])
    d = {"kind": k, "seed": rng.randint(1, 10 ** 6)}
    if k == "const":
        d["v"] = [rng.choice([0, 1, 127, 128, 129, 254, 255, rng.randint(0, 255)]) for _ in range(4)]
    if k == "mid":
        d["amp"] = rng.choice([1, 2, 5, 20, 60])
    if k == "extblocks":
        d["n"] = rng.choice([8, 8, 16, 4, 32])
    if k == "grad":
        d["a"], d["b"] = rng.randint(0, 9), rng.randint(0, 9)
    if k == "check":
        d["n"] = rng.choice([1, 2, 4, 8])
        d["lo"], d["hi"] = rng.choice([(0, 255), (100, 140), (127, 129)])
    if k == "stairs":
        d["step"] = rng.choice([1, 3, 7, 100])
        d["n"] = rng.choice([8, 16])
    if k == "basis":
        d["u"], d["v"], d["flip"] = rng.randint(0, 7), rng.randint(0, 7), rng.choice([0, 1, 2])
    return d


def scen(id, q, ops, w, h, ct, img, via="slice", sink=None, log=None, **extra):
    return dict(id=id, ops=[op("new", q=q)] + ops + [dict(op="encode", w=w, h=h, ct=ct, img=img, via=via)],
                sink=sink or {"wrap": "direct"}, log=log or {"out": "full"}, **extra)


def mode_ops(rng, mode=None):
    """coding mode: baseline, sequential by optimization, progressive"""
    m = mode or rng.choice(["base", "base", "opt", "prog", "progopt", "scans", "scansopt"])
    o = []
    if m in ("prog", "progopt"):
        o.append(op("progressive", on=True))
    if m in ("scans", "scansopt"):
        o.append(op("scans", n=rng.choice([2, 3, 4, 5, 8, 10, 16, 22, 32, 33, 34, 48, 63, 64])))
    if m in ("opt", "progopt", "scansopt"):
        o.append(op("optimize", on=True))
    return o


def blocks(w, h, ct, samp):
    fh, fv = (1, 1) if ct == "Luma" else factors(samp)
    mx, my = -(-w // (8 * fh)), -(-h // (8 * fv))
    n = {"Luma": 1, "Cmyk": 4, "CmykAsYcck": 4, "Ycck": 4}.get(ct, 3)
    big = 2 if ct in ("CmykAsYcck", "Ycck") else 1
    return mx * my * (big * fh * fv + (n - big))


def size(rng, ct, samp, maxblocks):
    for _ in range(50):
        w, h = rng.choice(SIZES), rng.choice(SIZES)
        if rng.random() < 0.1:
            w, h = (rng.randint(66, 200), rng.randint(1, 9)) if rng.random() < 0.5 else (rng.randint(1, 9), rng.randint(66, 200))
        if blocks(w, h, ct, samp) <= maxblocks:
            return w, h
    return 8, 8


def qops(rng, q=None):
    """quantization settings"""
    if rng.random() < 0.5:
        return []
    t = [rng.choice([preset(rng.choice(PRESETS)), custom(rng), q1(rng.choice([1, 1, 2, 3, 7, 16, 255]))]) for _ in range(2)]
    return [op("qtables", luma=t[0], chroma=t[1])]


def restart_op(rng, p=0.4):
    if rng.random() >= p:
        return []
    return [op("restart", n=rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 11, 16, 255, 256, 65535]))]


def quality(rng):
    return rng.choice([1, 2, 10, 25, 49, 50, 51, 75, 89, 90, 91, 95, 99, 100, 100, 100, 0, 101, 255, rng.randint(1, 100)])


# segments with the beginnings that real ones have; to the encoder they are data like any other
_tiff = [0x49, 0x49, 0x2A, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0]
_iccp = [0, 0, 0, 60, 0x61, 0x70, 0x70, 0x6C, 2, 0x10, 0, 0] + list(b"mntrRGB XYZ ") + [0] * 12 + list(b"acsp") + [0] * 20
FAMILIAR = [(0xE1, list(b"Exif\0\0") + _tiff), (0xE1, list(b"http://ns.adobe.com/xap/1.0/\0<x/>")), (0xE2, list(b"ICC_PROFILE\0\1\1") + _iccp), (0xE2, list(b"MPF\0") + _tiff),
            (0xE2, list(b"ICC_PROFILE\0")), (0xE2, list(b"ICC_PROFILE\0\2\1\7")), (0xED, list(b"Photoshop 3.0\x008BIM")), (0xEE, list(b"Adobe\0\x64\0\0\0\0\1")), (0xEE, list(b"Adobe\0\0\0\0\0\0\2")),
            (0xEE, list(b"Adobe")), (0xEB, list(b"JP\0\1")), (0xEC, list(b"Ducky\0")), (0xE1, list(b"JFIF\0\1\2\0\0\1\0\1\0\0")), (0xE3, list(b"JFXX\0\x10")), (0xE1, [0xFF, 0xD8, 0xFF, 0xE0]),
            (0xE4, [0xFF, 0xD9]), (0xE5, [0xFF, 0xDA, 0, 12, 3, 1]), (0xE6, [0xFF] * 9), (0xE7, [0, 0]), (0xEF, [0xFF, 0xD0, 0xFF, 0])]
FAMILIAR_ICC = [_iccp, list(b"ICC_PROFILE\0\1\1") + _iccp, list(b"ICC_PROFILE\0"), [0xFF] * 30, list(b"acsp"), [0, 0, 0, 3]]


def familiar(rng):
    if rng.random() < 0.25:
        return op("icc", data=rng.choice(FAMILIAR_ICC))
    nr, d = rng.choice(FAMILIAR)
    return op("app", nr=nr - 0xE0 if rng.random() < 0.85 else rng.randint(1, 15), data=d)


def app_ops(rng, n=2):
    o = []
    for _ in range(rng.randint(0, n)):
        if rng.random() < 0.3:
            o.append(familiar(rng))
            continue
        if rng.random() < 0.6:
            o.append(op("app", nr=rng.randint(1, 15), data=[rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 14, 40]))]))
        else:
            o.append(op("icc", len=rng.choice([0, 1, 2, 50, 300]), seed=rng.randint(0, 255)))
    return o


def density_op(rng, p=0.3):
    if rng.random() >= p:
        return []
    u = rng.randint(0, 2)
    return [op("density", unit=u, x=rng.choice([0, 1, 72, 255, 256, 300, 65535]), y=rng.choice([0, 1, 72, 255, 256, 300, 65535]))]


def rand_scen(rng, id, maxblocks=60, mode=None, ct=None, restart=0.4, imgs=None, q=None, samp=None, meta=0.2, via=None, sz=None):
    ct = ct or rng.choice(CTS)
    s = samp or rng.choice(SAMPLINGS)
    w, h = sz or size(rng, ct, s, maxblocks)
    o = mode_ops(rng, mode) + qops(rng) + restart_op(rng, restart)
    if samp or rng.random() < 0.85:
        o.append(op("sampling", name=s))
    elif blocks(w, h, ct, "F_2_2") > 3 * maxblocks:
        o.append(op("sampling", name=s))
    if rng.random() < meta:
        o += density_op(rng, 0.7) + app_ops(rng)
    rng.shuffle(o)
    return scen(id, quality(rng) if q is None else q, o, w, h, ct, image(rng, imgs), via or rng.choice(["slice", "slice", "slice", "buf"]))


# ---- every combination of three settings (lib/cover.json, tools/cover.py) -----------------------


def cover(rng, prefix="v", times=1, imgs=(["const"], ["mix", "smooth", "mid"], ["noise", "ext", "extblocks"]), log=None):
    """small pictures whose settings are a covering array of strength 3: type, sampling, mode, quality, restart
    interval, quantization tables, metadata, size, source, content.  With times > 1 the values are renamed for every
    further round, so that other combinations of four and more come up"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cover.json")) as f:
        d = json.load(f)
    D, rows = d["domains"], d["rows"]
    out = []
    R = rng.randint
    for t in range(times):
        perm = [list(range(n)) for n in D]
        if t:
            for p in perm:
                rng.shuffle(p)
        for j, row in enumerate(rows):
            ty, sa, mo, qu, re, ta, me, sz, so, co = [p[v] for p, v in zip(perm, row)]
            o = []
            if sa:
                o.append(op("sampling", name=rng.choice([s for s in SAMPLINGS if factors(s) == factors(FS[sa - 1])])))
            m = ["base", "opt", "prog", "progopt", "s2", "s64", "scans", "scansopt"][mo]
            if m in ("s2", "s64", "scans", "scansopt"):
                o.append(op("scans", n={"s2": 2, "s64": 64}.get(m) or R(3, 63)))
            elif m[:4] == "prog":
                o.append(op("progressive", on=True))
            if m in ("opt", "progopt", "scansopt"):
                o.append(op("optimize", on=True))
            q = [1, R(2, 24), R(25, 49), 50, R(51, 74), R(75, 88), 89, 90, R(91, 99), 100][qu]
            if re:
                o.append(op("restart", n=[1, 2, R(3, 8), rng.choice([16, 255, 256, 65535])][re - 1]))
            if ta:
                o.append(op("qtables", **[dict(luma=preset(rng.choice(PRESETS)), chroma=preset(rng.choice(PRESETS))), dict(luma=custom(rng), chroma=custom(rng)),
                                          dict(luma=q1(), chroma=q1(rng.choice([1, 2, 16])))][ta - 1]))
            if me in (1, 4):
                o += density_op(rng, 1)
            if me in (2, 4):
                o += [op("app", nr=R(1, 15), data=[R(0, 255) for _ in range(R(0, 20))]) for _ in range(R(1, 3))]
            if me in (3, 4):
                o.append(op("icc", len=R(1, 60), seed=R(0, 255)))
            rng.shuffle(o)
            ct = CTS[ty]
            w, h = [(1, 1), (R(2, 8), R(2, 8)), (R(9, 20), R(9, 17)), (R(17, 33), R(1, 9))][sz]
            if sz == 2 and blocks(w, h, ct, FS[sa - 1] if sa else "F_2_2") > 40:
                w, h = R(9, 12), R(9, 12)
            out.append(scen(f"{prefix}{t}-{j}", q, o, w, h, ct, image(rng, imgs[co]), ["slice", "buf"][so], **({"log": log} if log else {})))
    return out
