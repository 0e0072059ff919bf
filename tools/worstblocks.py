#!/usr/bin/env python3
"""Blocks whose transform comes out as far as possible from the true DCT (hill climbing; run with python3-vt).
Only chooses inputs for C15: the bound itself is computed by MC_Dct and every verdict by StreamTrace."""
import json, math, os
import numpy as np

F = [[4433, 6270, 15137], [7373, 20995, 9633, 16069, 3196, 12299, 25172, 16819, 2446]]


def matrix():
    M = np.zeros((8, 8), dtype=np.int64)
    for j in range(8):
        a = [0] * 8
        a[j] = 1
        t0, t7, t1, t6, t2, t5, t3, t4 = a[0] + a[7], a[0] - a[7], a[1] + a[6], a[1] - a[6], a[2] + a[5], a[2] - a[5], a[3] + a[4], a[3] - a[4]
        t10, t13, t11, t12 = t0 + t3, t0 - t3, t1 + t2, t1 - t2
        y1 = (t12 + t13) * 4433
        z1, z2, z5 = -(t4 + t7) * 7373, -(t5 + t6) * 20995, (t4 + t6 + t5 + t7) * 9633
        z3, z4 = -(t4 + t6) * 16069 + z5, -(t5 + t7) * 3196 + z5
        M[:, j] = [(t10 + t11) * 8192, t7 * 12299 + z1 + z4, y1 + t13 * 6270, t6 * 25172 + z2 + z3, (t10 - t11) * 8192, t5 * 16819 + z2 + z4,
                   y1 - t12 * 15137, t4 * 2446 + z1 + z3]
    return M


M = matrix()
D = M / 8192
T = np.array([[math.sqrt(8) * (math.sqrt(.5) if u == 0 else 1) / 2 * math.cos((2 * x + 1) * u * math.pi / 16) for x in range(8)] for u in range(8)])
rng = np.random.default_rng(1)
out = []
for u in range(8):
    for v in range(8):
        W = np.outer(T[v], T[u])
        E = np.outer(D[v], D[u]) - W
        for sg in (1, -1):
            best = (-1, None)
            for start in range(3):
                cur = np.where(E * sg > 0, 127, -128) if start < 2 or u in (0, 4) and v in (0, 4) else rng.integers(-128, 128, (8, 8))

                def score(S):
                    R = (np.einsum('x,nyx->ny', M[u], S) + 1024) >> 11
                    f = (R @ M[v] + 16384) >> 15
                    return sg * (((np.abs(f) + 4) // 8 * np.sign(f)) * 8 - np.einsum('yx,nyx->n', W, S.astype(float))) / 8
                cs = score(cur[None])[0]
                for it in range(500):
                    P = np.repeat(cur[None], 128, 0)
                    for n in range(128):
                        for _ in range(rng.integers(1, 5)):
                            y, x = rng.integers(8), rng.integers(8)
                            P[n, y, x] = np.clip(P[n, y, x] + rng.integers(-8, 9), -128, 127)
                    sc = score(P)
                    i = sc.argmax()
                    if sc[i] > cs:
                        cs, cur = sc[i], P[i].copy()
                best = max(best, (cs, cur.tolist()), key=lambda t: t[0])
            print(u, v, sg, round(best[0], 4), flush=True)
            out.append([[u, v], round(float(best[0]), 4), [int(s) + 128 for r in best[1] for s in r]])
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "lib", "worst_blocks.json"), "w"), separators=(",", ":"))
