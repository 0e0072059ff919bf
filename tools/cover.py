#!/usr/bin/env python3
"""Writes lib/cover.json: a covering array of strength 3 over the settings of an encode (see gen.COVER): every
combination of three values of three different settings occurs in some row.  Greedy, deterministic."""
import itertools, json, os, random

D = [9, 9, 8, 10, 5, 4, 5, 4, 2, 3]


def main():
    rng = random.Random(5)
    n = len(D)
    trip = list(itertools.combinations(range(n), 3))
    left = {t: set(itertools.product(*[range(D[i]) for i in t])) for t in trip}
    of = {i: [t for t in trip if i in t] for i in range(n)}
    rows = []
    while any(left.values()):
        best, bg = None, -1
        for _ in range(12):
            t = max(trip, key=lambda t: (len(left[t]), rng.random()))
            row = [None] * n
            for i, v in zip(t, rng.choice(sorted(left[t])) if len(left[t]) < 2000 else next(iter(left[t]))):
                row[i] = v
            order = [i for i in range(n) if row[i] is None]
            rng.shuffle(order)
            for i in order:
                cand = list(range(D[i]))
                rng.shuffle(cand)
                rel = [t for t in of[i] if all(j == i or row[j] is not None for j in t)]
                bv, bc = cand[0], -1
                for v in cand:
                    row[i] = v
                    c = sum((row[t[0]], row[t[1]], row[t[2]]) in left[t] for t in rel)
                    if c > bc:
                        bv, bc = v, c
                row[i] = bv
            g = sum((row[a], row[b], row[c]) in left[(a, b, c)] for a, b, c in trip)
            if g > bg:
                best, bg = row, g
        for a, b, c in trip:
            left[(a, b, c)].discard((best[a], best[b], best[c]))
        rows.append(best)
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "cover.json")
    with open(p, "w") as f:
        f.write(json.dumps({"domains": D, "rows": rows}, separators=(",", ":")).replace("],[", "],\n["))
        f.write("\n")
    print(len(rows), "rows")


main()
