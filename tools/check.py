#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's working tree."""
import importlib, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *


class Ctx:
    """collects what one check did"""
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.quick = tier == "quick"
        self.out = scratch(prop)
        self.exe = build_harness()
        self.states = self.transitions = self.traces = 0
        self.samples, self.fails, self.runs, self.assumptions = [], [], [], []
        self.exhaustive = True
        self.extra = {}

    def pick(self, q, t):
        return q if self.quick else t

    def spec_run(self, st):
        self.states += st["distinct"]
        # every state but the initial ones was reached by a transition
        self.transitions += st["generated"]
        self.runs.append({k: st[k] for k in ("module", "run", "generated", "distinct", "wall_s")})

    def left(self, budget=None):
        budget = budget or (800 if self.quick else 3 * 3600)
        return budget - (time.time() - self.t0)

    def harness(self, args, report=None, cases=None, sample_keys=("id",), timeout=None):
        """run the harness; collect its report"""
        rep = report or os.path.join(self.out, f"report{len(self.runs)}_{len(self.fails)}.json")
        args = [str(a) for a in args] + [rep]
        try:
            r = subprocess.run([self.exe] + args, capture_output=True, timeout=timeout or max(60, self.left()),
                               preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            raise Broken(f"harness did not finish: {args}")
        if r.returncode < 0 or r.returncode == 134:
            self.fails.append({"id": " ".join(args[:2]), "what": "crash",
                               "detail": f"the process running the library died (status {r.returncode}): "
                                         + r.stderr.decode(errors="replace")[-400:], "case": {"args": args}})
            return {"evaluations": 0, "extra": {}}
        if r.returncode != 0:
            raise Broken(f"harness failed ({r.returncode}): {args}\n" + r.stderr.decode(errors="replace")[-2000:])
        j = json.load(open(rep))
        self.traces += j["evaluations"]
        for f in j["fails"]:
            # how to run it again (tools/replay.py)
            f["args"] = ["{cases}" if a.endswith(".cases") else a for a in args[:-1]]
            self.fails.append(f)
        self.runs.append({"harness": args[0], "evaluations": j["evaluations"], "fails": len(j["fails"]), **
                          {k: v for k, v in j["extra"].items() if isinstance(v, (int, str)) and len(str(v)) < 300}})
        if j.get("skipped"):
            self.exhaustive = False
        return j

    def produce(self, args):
        """a run of the harness that only writes files"""
        h = harness(self.exe, args, timeout=max(60, self.left()))
        if h.returncode: raise Broken(f"harness failed: {args}")

    def sample(self, cases, n=3):
        """keep a few actual cases of this run, written out"""
        if len(self.samples) >= 6: return
        rnd = random.Random(SEED)
        with open(cases) as f: lines = f.readlines()
        for l in rnd.sample(lines, min(n, len(lines))):
            v = json.loads(l)
            if isinstance(v, str): v = json.loads(v)
            s = json.dumps(v, ensure_ascii=False)
            self.samples.append(v if len(s) < 3000 else {"id": v.get("id"), "case": s[:3000] + "..."})


def limit_memory():
    import resource
    g = 20 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith(f"known: property={prop} "):
                rest = l.split(" ", 2)[2]
                spec, _, what = rest.partition(" -- ")
                out.append((json.loads(spec), what))
    return out


def matches(spec, f):
    """an entry names the case by its id (exactly or by prefix) and the failure by a part of its detail"""
    i, d = str(f.get("id", "")), str(f.get("detail", ""))
    if "id" in spec and i != spec["id"]: return False
    if "ids" in spec and i not in spec["ids"]: return False
    if "prefix" in spec and not i.startswith(spec["prefix"]): return False
    if "what" in spec and f.get("what") != spec["what"]: return False
    if "detail" in spec and spec["detail"] not in d: return False
    if "regex" in spec and not re.search(spec["regex"], d, re.S): return False
    return "id" in spec or "ids" in spec or "prefix" in spec


def finish(c):
    kn = known(c.prop)
    seen, new = set(), []
    for f in c.fails:
        for k, (spec, what) in enumerate(kn):
            if matches(spec, f):
                seen.add(k); break
        else:
            new.append(f)
    for k, (spec, what) in enumerate(kn):
        # a listed finding is reported on every run in which its input was tried
        if k in seen:
            print(f"KNOWN-FINDING: property={c.prop} {what}")
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": c.prop, "tier": c.tier, "seed": SEED, "level": "model_checking",
          "coverage": {"states": c.states, "transitions": c.transitions,
                       "traces_validated_against_impl": c.traces, "samples": c.samples,
                       "exhaustive": c.exhaustive, "runs": c.runs, **c.extra},
          "assumptions": c.assumptions, "wall_s": round(time.time() - c.t0, 1), "violations": len(new)}
    json.dump(ev, open(os.path.join(EVID, c.prop + ".json"), "w"), ensure_ascii=False, indent=1)
    if new:
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, c.prop + ".json")
        json.dump({"property": c.prop, "violations": len(new), "first": new[:20],
                   "how": "python3 tools/replay.py " + rp}, open(rp, "w"), ensure_ascii=False, indent=1)
        for f in new[:5]:
            print(f"  {f.get('what')}: {str(f.get('id'))[:200]}: {str(f.get('detail'))[:300]}")
        print(f"VIOLATION property={c.prop} replay={rp}")
        return 1
    print(f"OK property={c.prop} states={c.states} traces={c.traces} wall={ev['wall_s']}s")
    return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import plans
    try:
        c = Ctx(prop, tier)
        try:
            getattr(plans, prop)(c)
        except Broken:
            # what was found before the check gave out still counts
            if not [f for f in c.fails if not any(matches(spec, f) for spec, _ in known(prop))]: raise
            c.exhaustive = False
        rc = finish(c)
    except Broken as e:
        print("CHECK BROKEN:", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
    shutil.rmtree(c.out, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
