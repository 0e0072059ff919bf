"""The frame of a check: collects what is explored, decides, writes evidence."""
import json, os, random, sys, time, shutil
from core import *


class Violation(Exception):
    def __init__(self, replay):
        self.replay = replay


def known_findings():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> scenario=<key> <text>' lines suppress exactly the named
    case; 'fixed:' lines suppress nothing."""
    r = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:] if "=" in x and x.split("=")[0] in ("property", "scenario"))
                r.append((f.get("property"), f.get("scenario"), l.strip()))
    return r


def tla(v):
    """a Python value as TLA+ text (configuration files)"""
    if isinstance(v, bool):
        return str(v).upper()
    if isinstance(v, (set, list, tuple, range)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    if isinstance(v, str) and not v.startswith("<-"):
        return json.dumps(v)
    return str(v)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}-{tier}")
        self.t0 = time.time()
        self.bins = {}
        self.states = self.transitions = self.traces = self.units = self.executions = 0
        self.model_states = self.model_transitions = 0
        self.samples, self.stages, self.assumptions = [], [], []
        self.scratch = os.path.join(BUILD, "scratch", f"{prop}-{os.getpid()}")
        os.makedirs(self.scratch, exist_ok=True)
        self.notices = []
        self.thorough = tier == "thorough"

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def need(self, *variants):
        miss = [v for v in variants if v not in self.bins]
        if miss:
            t = time.time()
            self.bins.update(build(miss))
            self.log(f"built {', '.join(v for v in miss if v in self.bins)} in {time.time() - t:.1f}s")
            if any(v not in self.bins for v in miss):
                self.assumptions.append("builds not available and not run: " + ", ".join(v for v in miss if v not in self.bins))

    def have(self, variants):
        """the 32 bit builds depend on nightly sources and node: without them the others still decide"""
        self.need(*variants)
        return tuple(v for v in variants if v in self.bins)

    # ---- specification only -------------------------------------------------
    def model(self, module, cfg, label=None, timeout=800, workers=8, env=None, extra=(), simulate=False):
        """cfg: a dict of constants (plus "invariants", "properties") or the text of a configuration"""
        if isinstance(cfg, dict):
            c = dict(cfg)
            inv, pro = c.pop("invariants", []), c.pop("properties", [])
            cfg = "SPECIFICATION Spec\n" + "".join(f"CONSTANT {k} {'' if str(v).startswith('<-') else '= '}{tla(v)}\n" for k, v in c.items())
            cfg += "".join(f"INVARIANT {i}\n" for i in inv) + "".join(f"PROPERTY {i}\n" for i in pro) + "CHECK_DEADLOCK FALSE\n"
        r = Tlc(module, cfg, workers=workers, timeout=timeout, env=env, extra=extra)
        if not r.ok and not (simulate and "Error" not in r.out):
            raise ToolError(f"model {module} does not satisfy its own properties:\n{r.counterexample()}\n{r.out[-1500:]}")
        self.states += r.states
        self.transitions += r.transitions
        self.model_states += r.states
        self.model_transitions += r.transitions
        self.stages.append({"stage": label or module, "module": module, "states": r.states, "wall_s": round(r.wall, 1)})
        self.log(f"model {label or module}: {r.states} states, {r.wall:.1f}s")
        return r

    # ---- running the code ----------------------------------------------------
    def execute(self, scens, variants=DEFAULT, timeout_each=100):
        """-> list of records (dict with raw line, ids, scenario); identical traces of several builds are one record"""
        variants = self.have(variants)
        t = time.time()
        outs, errs = {}, []

        def work(v):
            try:
                outs[v] = run_variant(self.bins[v], scens, os.path.join(self.scratch, v), timeout_each)
            except Exception as e:
                errs.append(e)

        th = [threading.Thread(target=work, args=(v,)) for v in variants]
        [x.start() for x in th]
        [x.join() for x in th]
        if errs:
            raise errs[0]
        self.executions += len(scens) * len(variants)
        recs = []
        for i, s in enumerate(scens):
            seen = {}
            for v in variants:
                o = outs[v][i]
                if isinstance(o, tuple):
                    o = json.dumps({"id": s["id"], "crash": f"{o[0]}: {o[1]}", "ev": []})
                if o in seen:
                    seen[o]["variants"].append(v)
                else:
                    seen[o] = {"line": o, "variants": [v], "scen": s, "id": s["id"]}
            if len(seen) > 1:
                for o, r in seen.items():
                    d = json.loads(o)
                    r["id"] = d["id"] = s["id"] + "@" + r["variants"][0]
                    r["line"] = json.dumps(d, separators=(",", ":"))
            recs += seen.values()
        self.log(f"ran {len(scens)} scenarios on {len(variants)} builds in {time.time() - t:.1f}s: {len(recs)} distinct traces")
        return recs

    # ---- traces against the specification -------------------------------------
    def validate(self, recs, module, consts, label, view=None, invariant="Holds", chunk=24 << 20, alias="Short", timeout=800, extra_cfg="", heap="6g"):
        cfg = "SPECIFICATION Spec\n" + "".join(f"CONSTANT {k} = {v}\n" for k, v in consts.items())
        if view:
            cfg += f"VIEW {view}\n"
        cfg += f"INVARIANT {invariant}\n" + (f"ALIAS {alias}\n" if alias else "") + "CHECK_DEADLOCK FALSE\n" + extra_cfg
        i = 0
        tot = [0, 0, 0.0, 0]
        while i < len(recs):
            part, n = [], 0
            while i < len(recs) and (not part or n + len(recs[i]["line"]) < chunk):
                part.append(recs[i])
                n += len(recs[i]["line"])
                i += 1
            f = os.path.join(self.scratch, "trace.ndjson")
            with open(f, "w") as fh:
                fh.write("".join(r["line"] + "\n" for r in part))
            r = Tlc(module, cfg, env={"TRACE": f}, timeout=timeout, heap=heap)
            tot[0] += r.states
            tot[1] += r.transitions
            tot[2] += r.wall
            if r.violated:
                ids = re.findall(r'^/\\ id = "(.*)"', r.out, re.M)
                rec = next((x for x in part if ids and x["id"] == ids[-1]), None)
                self.violation(rec, module, consts, r, label)
            if not r.ok:
                raise ToolError(f"{label}: TLC {'timed out' if r.timed_out else 'failed'} (rc {r.rc}):\n{r.counterexample()}\n{r.out[-800:]}")
            ends = set(e.split(" ")[0] for e in r.ends)
            missing = [x["id"] for x in part if x["id"] not in ends]
            if missing:
                raise ToolError(f"{label}: traces not consumed to their end: {missing[:5]}")
            for e in r.ends:
                w = e.split(" ", 4)
                if len(w) == 5:
                    tot[3] += int(w[3])
                    if w[4] != "{}":
                        self.notices.append(e)
        self.states += tot[0]
        self.transitions += tot[1]
        self.traces += len(recs)
        self.units += tot[3]
        self.stages.append({"stage": label, "module": module, "traces": len(recs), "states": tot[0], "data_units": tot[3], "wall_s": round(tot[2], 1)})
        self.log(f"validated {label}: {len(recs)} traces, {tot[0]} states, {tot[3]} data units, {tot[2]:.1f}s")
        for rec in recs[:1]:
            self.samples.append({"stage": label, "scenario": _short(rec["scen"]), "builds": rec["variants"]})

    def violation(self, rec, module, consts, tlc, label):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{int(time.time())}-{os.getpid()}.json")
        what = tlc.counterexample(2) if tlc is not None else label
        json.dump({"property": self.prop, "stage": label, "module": module, "constants": consts, "builds": rec["variants"] if rec else [],
                   "scenario": rec["scen"] if rec else None, "others": rec.get("others") if rec else None, "tlc": what}, open(p, "w"), indent=1)
        print(what[-3000:])
        if rec:
            print("scenario:", json.dumps(_short(rec["scen"]))[:2000], "builds:", rec["variants"])
        raise Violation(p)

    def evidence(self, violations):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                          "executions_of_the_code": self.executions, "data_units_decoded_and_checked": self.units,
                          "specification_only_states": self.model_states, "stages": self.stages, "samples": self.samples[:8]},
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        if self.notices:
            e["coverage"]["complaints_of_other_properties"] = self.notices[:5]
        json.dump(e, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def _short(s):
    d = json.loads(json.dumps(s))
    for o in d.get("ops", []):
        if "data" in o and len(o["data"]) > 40:
            o["data"] = o["data"][:8] + [f"... {len(o['data'])} bytes"]
        if isinstance(o.get("img"), dict):
            for k in ("px", "blocks", "rep"):
                if k in o["img"] and len(o["img"][k]) > 40:
                    o["img"][k] = o["img"][k][:4] + [f"... {len(o['img'][k])}"]
    for k in ("rows", "cmyk"):
        if k in d and len(d[k]) > 10:
            d[k] = d[k][:3] + [f"... {len(d[k])}"]
    return d
