"""Shared machinery of the checks: build the harness against /repo, run TLC on
the specifications, run the harness on the behaviours, report."""
import json, os, re, subprocess, sys, time, shutil, random, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JLAW_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
BUILD = os.path.join(VERIF, "build")
TLAJARS = ":".join(["/opt/veriftools/tla/tla2tools.jar",
                    "/opt/veriftools/tla/CommunityModules-deps.jar"])
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = min(8, os.cpu_count() or 8)


class Broken(Exception):
    """the machinery itself failed: no verdict"""


def scratch(prop):
    d = os.path.join(BUILD, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, "harness", "target"),
               CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "-q"],
                       cwd=os.path.join(VERIF, "harness"), env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("harness does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(VERIF, "harness", "target", "debug", "jlaw_harness")


def tla(v):
    if v is True: return "TRUE"
    if v is False: return "FALSE"
    if isinstance(v, str): return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)): return tla(" ".join(v))  # (cfg files know no sequences: the module splits it)
    return str(v)


def tlc(module, consts, out, name="run", invariants=("Holds",), properties=(), simulate=None,
        depth=None, workers=1, timeout=800, mem="3g", view=None, constraint=None, spec="Spec", seed=None):
    """One TLC run. Returns statistics; raises Broken unless TLC is content
    (a specification that fails its own invariants is our bug, not the code's)."""
    cfg = os.path.join(out, f"{module}_{name}.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        if consts:
            f.write("CONSTANTS\n" + "".join(f"  {k} = {tla(v)}\n" for k, v in consts.items()))
        for i in invariants: f.write(f"INVARIANT {i}\n")
        for p in properties: f.write(f"PROPERTY {p}\n")
        if view: f.write(f"VIEW {view}\n")
        if constraint: f.write(f"CONSTRAINT {constraint}\n")
    meta = os.path.join(out, f"meta_{module}_{name}")
    log = os.path.join(out, f"{module}_{name}.log")
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Xss64m", "-Xmx" + mem, "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed or SEED)]
    cmd += [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC on {module}/{name} did not finish in {timeout} s")
    txt = open(log, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    st = {"module": module, "run": name, "rc": rc, "log": log, "text": txt, "wall_s": round(time.time() - t, 1),
          "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0}
    if simulate:
        m = re.findall(r"The number of states generated: (\d+)", txt)
        st["generated"] = st["distinct"] = int(m[-1]) if m else 0
    st["ok"] = rc == 0
    return st


def must(st):
    if not st["ok"]:
        raise Broken(f"TLC rejects {st['module']}/{st['run']}:\n" + st["text"][-1500:])
    return st


def tlc_sharded(module, consts, out, shards=CORES, name="shard", **kw):
    """Split a run over processes (constants Shard/Shards/OutFile); returns (stats, case files)."""
    def one(i):
        f = os.path.join(out, f"{module}_{name}_{i}.cases")
        # (random runs are told apart by their seeds alone)
        sim = dict(seed=SEED * 1009 + i) if kw.get("simulate") else {}
        c = dict(consts, Shard=0, Shards=1, OutFile=f) if sim else dict(consts, Shard=i, Shards=shards, OutFile=f)
        return must(tlc(module, c, out, name=f"{name}{i}", **kw, **sim)), f
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(one, range(shards)))
    files = [f for _, f in rs if os.path.exists(f)]
    st = {"module": module, "run": name, "generated": sum(s["generated"] for s, _ in rs),
          "distinct": sum(s["distinct"] for s, _ in rs), "wall_s": max(s["wall_s"] for s, _ in rs)}
    return st, files


def join(files, dest):
    with open(dest, "wb") as o:
        for f in files:
            with open(f, "rb") as i: shutil.copyfileobj(i, o)
            os.remove(f)
    return dest


def cases_of(f):
    """the records TLC wrote: JSON, possibly as a JSON string"""
    with open(f) as i:
        for l in i:
            v = json.loads(l)
            yield json.loads(v) if isinstance(v, str) else v


def harness(exe, args, timeout=600):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        raise Broken(f"harness did not finish: {args}")
    if r.returncode not in (0, 1):
        raise Broken(f"harness failed ({r.returncode}): {args}\n{r.stderr[-2000:]}")
    return r
