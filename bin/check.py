#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      judge one property against /repo's working tree
   check.py --replay FILE                  run recorded scenarios again and judge them

Pipeline: TLC explores the specification (MC*.tla); TLC evaluates Gen.tla to
produce histories; the driver executes them on the library built from /repo
with the hooks on; TLC validates the recorded histories (SessionTrace.tla).
This script only moves data between those steps and reports."""
import sys, os, json, subprocess, time, re, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = 8

# families (quick, thorough): number of histories, and histories per job
PLAN = {
 "C01": [("well", 360, 5000), ("solve", 800, 10000), ("walk", 100, 1500), ("rw", 80, 800)],
 "C02": [("cert", 900, 12000), ("well", 100, 1500), ("walk", 80, 1000), ("rw", 60, 600)],
 "C03": [("well", 1600, 18000)],
 "C04": [("lim", 240, 5000), ("iter", 120, 2500), ("fault", 120, 3000), ("fatal", 24, 600), ("solve", 200, 5000), ("walk", 60, 1000)],
 "C05": [("fault", 400, 8000), ("bbint", 200, 3000)],
 "C06": [("walk", 300, 4000), ("walk2", 200, 2400), ("fatal", 40, 800)],
 "C07": [("walk", 120, 2500), ("walk2", 60, 1200), ("life", 80, 2500), ("solve", 80, 2500), ("fault", 80, 2500), ("fatal", 24, 600), ("bbwalk", 60, 800), ("bbint", 60, 800)],
 "C08": [("life", 200, 4000), ("walk", 80, 2000), ("fault", 60, 2000), ("iso", 48, 600), ("bbiso", 40, 400), ("bbint", 60, 600), ("bblim", 40, 600)],
 "C09": [("bb", 240, 3000), ("bbx", 180, 2000), ("bbt", 100, 1500)],
 "C10": [("bb", 140, 1800), ("bblim", 180, 1800), ("bbx", 80, 900), ("bbt", 140, 1500), ("bbset", 40, 600)],
 "C11": [("bbwalk", 280, 3000), ("bbx", 80, 600), ("bbset", 60, 800)],
 "C12": [("iso", 240, 3000), ("bbiso", 260, 1500)],
 "C13": [("iter", 600, 7000)],
 "C14": [("rw", 600, 5000)],
 "C15": [("solve", 120, 2000), ("walk", 60, 1200), ("iso", 60, 1000), ("bb", 80, 1200), ("bbint", 60, 800), ("bbwalk", 60, 800), ("lim", 80, 1500), ("bbset", 100, 1200)],
 "C16": [("bbs", 260, 4000), ("bbset", 40, 600)],
 "C17": [("verb", 300, 4000), ("bbverb", 120, 1500), ("fatal", 40, 600)],
}
# exhaustive explorations of the specification: module, quick and thorough configuration
MODEL_OF = {**{c: ("MCLoop", "MCLoop", "MCLoop_thorough") for c in ("C01", "C02", "C03", "C04", "C05", "C13", "C17")},
            **{c: ("MCSession", "MCSession", "MCSession_thorough") for c in ("C06", "C07", "C08", "C12", "C14", "C15")},
            **{c: ("MCBB", "MCBB", "MCBB_thorough") for c in ("C09", "C11")}, "C10": ("MCBB", "MCBB_gap", "MCBB_gapthorough"),
            "C16": ("MCBB", "MCBB_trial", "MCBB_int")}

class Broken(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def short(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))[-3000:]

def build(work):
    env = dict(os.environ, REPO=REPO)
    r = sh([V + "/harness/build.sh", work], env=env)
    if r.returncode: raise Broken("driver does not build:\n" + r.stdout[-3000:])
    cls = work + "/cls"; os.makedirs(cls, exist_ok=True)
    r = sh(["javac", "-d", cls, "-cp", TLA + "/tla2tools.jar"] + [V + "/spec/java/vnum/" + f for f in ("Num.java", "Idx.java")])
    if r.returncode: raise Broken("javac: " + r.stdout[-2000:])

def build_asan(work):
    env = dict(os.environ, REPO=REPO)
    r = sh([V + "/harness/build.sh", work + "/asan", "asan"], env=env)
    if r.returncode: raise Broken("asan driver does not build:\n" + r.stdout[-3000:])

def tlc(work, module, cfg, env, tag, heap="3g", workers="1", timeout=3600, threads=2):
    meta = f"{work}/md-{tag}"
    e = dict(os.environ); e.update(env)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={threads}", "-XX:TieredStopAtLevel=4",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vnum.Idx",
           "-cp", f"{work}/cls:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", workers, "-metadir", meta, "-config", cfg, module + ".tla"]
    try:
        r = sh(cmd, cwd=V + "/spec", env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out ({tag})")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r

# ---------------------------------------------------------------- numbers
def num(v):
    """the double nearest to the decimal the specification wrote, as text"""
    if isinstance(v, str): v = v.lstrip("#")
    f = float(v)
    if f == int(f) and abs(f) < 1e9: return str(int(f))
    return "%.17g" % f

def norm_problem(P):
    for f in ("Gpr", "Apr", "c", "h", "b"): P[f] = [num(v) for v in P[f]]

def norm(rec):
    for o in rec["ops"]:
        if "P" in o: norm_problem(o["P"])
        if o["op"] in ("updh", "updc", "bbupdh", "bbupdc"): o["val"] = num(o["val"])
        if o["op"] == "stg": o["val"] = str(o["val"])

# ------------------------------------------------------- scenario -> driver
def arr(P):
    s = [*P["Gpr"]] + ([] if P["anull"] else [*P["Apr"]]) + P["c"] + P["h"] + ([] if P["anull"] else P["b"])
    return " ".join(s)

def optext(o):
    k = o["op"]; J = lambda v: " ".join(str(x) for x in v)
    if k == "prob":
        P = o["P"]
        a = [str(o["buf"]), P["n"], P["m"], P["p"], P["l"], len(P["q"]), *P["q"], P["e"], P["anull"] + 2 * P["gnull"], *P["Gjc"], *P["Gir"], *P["Gpr"]]
        if not P["anull"]: a += [*P["Ajc"], *P["Air"], *P["Apr"]]
        a += [*P["c"], *P["h"]]
        if not P["anull"]: a += P["b"]
        return "prob " + J(a)
    if k == "setup": return f"setup {o['w']} {o['buf']}"
    if k == "badsetup": return f"badsetup {o['w']} {o['buf']} {o['wrongm']} {o['bb']}"
    if k == "stg": return f"stg {o['w']} {o['name']} {o['val']}"
    if k == "trace": return f"trace {o['w']} {o['lev']}"
    if k == "inj": return f"inj {o['w']} {o['kind']} {o['at']}"
    if k in ("solve", "bbsolve", "bbidx", "freekept"): return f"{k} {o['w']}"
    if k == "dump": return f"dump {o['buf']}"
    if k in ("updh", "updc", "bbupdh", "bbupdc"): return f"{k} {o['w']} {o['idx']} {o['val']}"
    if k == "upd": return f"upd {o['w']} {o['buf']}"
    if k == "inplace": return f"inplace {o['w']} {o['fresh']} " + arr(o["P"])
    if k in ("cleanup", "bbcleanup"): return f"{k} {o['w']} {o['keep']}"
    if k == "bbsetup":
        g = o["bbstg"]
        st = "0" if not g else f"1 {g['maxit']} {g['abs']} {g['rel']} {g['itol']} {g['strat']} {g['eta']} {g['nsel']}"
        return f"bbsetup {o['w']} {o['buf']} {len(o['bi'])} {J(o['bi'])} {len(o['ii'])} {J(o['ii'])} {st}"
    if k == "handler": return f"handler {o['k']}"
    if k == "poison": return f"poison {o['byte']}"
    if k == "srand": return f"srand {o['k']}"
    if k == "verbose": return f"verbose {o['w']} {o['v']}"
    if k == "bbstg": return f"bbstg {o['w']} {o['name']} {o['val']}"
    if k in ("ledger", "raise"): return k
    raise Broken("unknown op " + k)

def drive(work, recs, tag, driver="driver"):
    scen, out = f"{work}/{tag}.txt", f"{work}/{tag}.out"
    with open(scen, "w") as f:
        for r in recs:
            f.write("S " + r["id"] + "\n")
            for o in r["ops"]: f.write(optext(o) + "\n")
            f.write("E\n")
    env = dict(os.environ); env.setdefault("DRV_TIMEOUT", "40")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:exitcode=99"
    r = sh([f"{work}/{driver}", scen, out], env=env)
    if r.returncode: raise Broken(f"driver exit {r.returncode}: {r.stdout[-500:]}")
    it = iter(recs); res = []; cur = None
    with open(out) as f:
        for line in f:
            line = line.strip()
            if not line: continue
            try: d = json.loads(line)
            except ValueError: continue               # the line a crash cut off
            if d["op"] == "begin":
                cur = next(it); assert cur["id"] == d["id"]; got = {}
            elif d["op"] == "end":
                ops = []
                if d["status"] == "skipped": res.append(None); continue
                for n, o in enumerate(cur["ops"], 1):
                    if n in got: ops.append({**o, "r": got[n]})
                    else:
                        ops.append({**o}); break
                if d["status"] != "ok" and all("r" in o for o in ops) and ops:
                    if not (ops[-1]["op"] in ("setup", "bbsetup") and ops[-1]["r"].get("null")): ops.append({"op": "end"})
                res.append({**{k: v for k, v in cur.items() if k != "ops"}, "status": d["status"], "ops": ops})
            else:
                if "r" in d: raise Broken("r")
                got[d["line"]] = d
    if len(res) != len(recs): raise Broken("driver output incomplete")
    return [r for r in res if r]

def jdump(path, recs):
    with open(path, "w") as f:
        for r in recs: f.write(json.dumps(r, separators=(",", ":")) + "\n")

def jload(path):
    with open(path) as f: return [json.loads(l) for l in f if l.strip()]

def validate(work, recs, tag, props, timeout=3000):
    tin, tout = f"{work}/{tag}.tr", f"{work}/{tag}.json"
    jdump(tin, recs)
    if os.path.exists(tout): os.remove(tout)
    r = tlc(work, "SessionTrace", "SessionTrace.cfg", {"TR_IN": tin, "TR_OUT": tout, "TR_PROPS": props}, tag, timeout=timeout)
    if not os.path.exists(tout) or "No error has been found" not in r.stdout:
        raise Broken(f"validation failed ({tag}):\n" + short(r.stdout))
    m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
    d = json.load(open(tout)); d["states"] = int(m.group(2)); d["transitions"] = int(m.group(1))
    if not isinstance(d["cov"], dict): d["cov"] = {}
    os.remove(tin)
    return d

def generate(work, fam, lo, hi, tag, seed):
    g = f"{work}/{tag}.gen"
    r = tlc(work, "Gen", "Gen.cfg", {"GEN_FAM": fam, "GEN_LO": str(lo), "GEN_HI": str(hi), "GEN_SEED": str(seed), "GEN_OUT": g}, tag)
    if not os.path.exists(g): raise Broken("generation failed:\n" + short(r.stdout))
    recs = jload(g); os.remove(g)
    for x in recs: norm(x)
    return recs

def job(work, fam, lo, hi, props, seed, asan, pre=""):
    tag = f"{pre}{fam}-{lo}"
    t = time.time()
    recs = generate(work, fam, lo, hi, "g-" + tag, seed)
    t1 = time.time()
    tr = drive(work, recs, tag)
    if asan:
        ad = {x["id"]: x for x in drive(work, recs, tag + "a", "asan/driver")}
        for a in tr:
            b = ad.get(a["id"])
            if b and b["status"] != "ok" and a["status"] == "ok": a["status"] = "asan " + b["status"]; a["ops"].append({"op": "end"})
    t2 = time.time()
    d = validate(work, tr, tag, props)
    d["times"] = (round(t1 - t, 1), round(t2 - t1, 1), round(time.time() - t2, 1))
    for e in (f"{work}/{tag}.txt", f"{work}/{tag}.out"): os.remove(e)
    byid = {x["id"]: x for x in recs}
    d["recs"] = {b[0]: byid[b[0]] for b in d["bad"]}
    d["first"] = recs[0]
    d["nops"] = sum(len(x["ops"]) for x in tr)
    d["digests"] = {hashlib.sha1(json.dumps(x["ops"], sort_keys=True).encode()).hexdigest() for x in recs}
    return d

def known():
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) family=(\S+) rule=\"([^\"]*)\"(?: id=(\S+))?(?: detail=\"([^\"]*)\")?(?: witness=(\w+)-(\d+))? (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def is_known(prop, b):
    for k in known():
        if k[0] == prop and (k[1] == "*" or b[0].split()[-1].startswith(k[1] + "-")) and (k[2] == b[4] or (k[2][0] == "~" and re.fullmatch(k[2][1:], b[4]))) and (not k[3] or k[3] == b[0]) and (not k[4] or re.search(k[4], b[5])):
            return k
    return None

def model(work, name, quick, thorough, tier):
    cfg = (quick if tier == "quick" else thorough) + ".cfg"
    r = tlc(work, name, cfg, {}, name, heap="8g", workers="8" if tier == "thorough" else "4", threads=4)
    m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
    if "No error has been found" not in r.stdout or not m:
        raise Broken(f"{name}: " + short(r.stdout))
    return {"model": name, "config": cfg, "states": int(m.group(2)), "transitions": int(m.group(1))}

def split(plan, ti, per):
    jobs = []
    for fam, *n in plan:
        N = n[ti]; size = max(1, min(per, -(-N // JOBS)))
        jobs += [(fam, lo, min(N, lo + size)) for lo in range(0, N, size)]
    return jobs

def run(prop, tier):
    t0 = time.time()
    work = f"{V}/.work/{prop}-{tier}"
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    build(work)
    asan = prop == "C08"
    if asan: build_asan(work)
    ti = 0 if tier == "quick" else 1
    scale = float(os.environ.get("CHECK_SCALE", "1"))
    plan = [(f, max(8, int(a * scale)), max(8, int(b * scale))) for f, a, b in PLAN[prop]]
    jobs = split(plan, ti, 60 if tier == "quick" else 120)
    # the recorded witness of each known finding is run along (seed 1)
    wit = [(k[5], int(k[6])) for k in known() if k[0] == prop and k[5]]
    with ThreadPoolExecutor(JOBS) as ex:
        wfut = [ex.submit(job, work, f, n, n+1, prop, 1, False, "w-") for f, n in wit]
        mfut = ex.submit(model, work, *MODEL_OF[prop], tier)
        res = list(ex.map(lambda j: job(work, *j, prop, SEED, asan), jobs))
        mres = mfut.result()
        wres = [f.result() for f in wfut]
    bad, recs, cov, digests = [], {}, {}, set()
    for d in wres:
        for b in d["bad"]: b[0] = "witness " + b[0]
        bad += d["bad"]
    for d in res:
        bad += d["bad"]; recs.update(d["recs"]); digests |= d["digests"]
        for k, v in d["cov"].items(): cov[k] = cov.get(k, 0) + v
    internal = [b for b in bad if b[3] == "INTERNAL"]
    if internal: raise Broken("specification rejects its own history: " + str(internal[:3]))
    # run what was rejected once more, by itself
    fresh, kn = [], {}
    for b in bad:
        k = is_known(prop, b)
        if k: kn.setdefault(k, []).append(b)
        elif not b[0].startswith("witness "): fresh.append(b)
    confirmed = []
    if fresh:
        ids = list(dict.fromkeys(b[0] for b in fresh))[:24]
        tr = drive(work, [recs[i] for i in ids], "confirm")
        d = validate(work, tr, "confirm", prop)
        again = {(b[0], b[4]) for b in d["bad"]}
        confirmed = [b for b in fresh if (b[0], b[4]) in again or "asan" in b[5]]
    wall = time.time() - t0
    n = sum(d["n"] for d in res)
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
          "coverage": {
            "states": mres["states"] + sum(d["states"] for d in res),
            "transitions": mres["transitions"] + sum(d["transitions"] for d in res),
            "traces_validated_against_impl": n,
            "samples": [{"id": d["first"]["id"], "ops": [o["op"] for o in d["first"]["ops"]], "text": [optext(o) for o in d["first"]["ops"]]} for d in res[:3]],
            "specification_model": mres,
            "operations_replayed": sum(d["nops"] for d in res),
            "distinct_histories": len(digests),
            "families": {f: x[ti] for f, *x in plan},
            "exercised": cov,
            "rejected": len(bad), "known_findings": sum(len(v) for v in kn.values()) },
          "assumptions": ["TLC and the arithmetic overrides in spec/java (exact decimal arithmetic) are correct",
                          "histories are those of the families in spec/Gen.tla for this seed"],
          "wall_s": round(wall, 1), "violations": len(confirmed)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {n} histories, {ev['coverage']['operations_replayed']} operations, {len(bad)} rejections, {wall:.0f} s; {mres}")
    print("exercised:", json.dumps(cov, sort_keys=True))
    for k in known():
        if k[0] == prop: print(f"KNOWN-FINDING: property={prop} {k[7]} ({len(set(b[0] for b in kn.get(k, [])))} histories of this run)")
    shutil.rmtree(work + "/obj", ignore_errors=True)
    if confirmed:
        rep = f"{V}/.work/replay-{prop}.ndjson"
        ids = list(dict.fromkeys(b[0] for b in confirmed))
        jdump(rep, [dict(recs[i], prop=prop) for i in ids[:50]])
        for b in confirmed[:20]: print("  rejected:", b[0], "op", b[1], b[2], "|", b[3], b[4], "|", str(b[5])[:300])
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if fresh: print("not confirmed on a second run:", fresh[:5])
    return 0

def replay(path):
    work = f"{V}/.work/replay"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    build(work)
    recs = jload(path)
    props = sys.argv[3] if len(sys.argv) > 3 else recs[0].pop("prop", "all")
    for r in recs: r.pop("prop", None)
    tr = drive(work, recs, "replay"); shutil.copy(f"{work}/replay.out", f"{V}/.work/replay.out")
    d = validate(work, tr, "replay", props)
    for b in d["bad"]: print(b)
    return 1 if d["bad"] else 0

def setup():
    """parse every module and build the driver once, so that a broken framework is noticed here"""
    work = f"{V}/.work/setup"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    build(work)
    d = job(work, "well", 0, 8, "all", SEED, False)
    print("set up:", d["n"], "histories validated,", len(d["bad"]), "rejected")
    shutil.rmtree(work, ignore_errors=True)
    return 0

def explore(fam, lo, hi, props):
    """--explore FAM LO HI PROPS: run part of a family and list every rejection (development aid)"""
    import collections
    work = f"{V}/.work/explore-{os.getpid()}"; os.makedirs(work)
    try:
        build(work)
        per = max(1, min(100, -(-(hi - lo) // JOBS)))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda a: job(work, fam, a, min(hi, a + per), props, SEED, False), range(lo, hi, per)))
        bad = [b for d in res for b in d["bad"]]; recs = {}; cov = collections.Counter()
        for d in res: recs.update(d["recs"]); cov.update(d["cov"])
        print("times", [d["times"] for d in res]); print(dict(cov))
        g = collections.defaultdict(list)
        for b in bad: g[(b[3], b[4])].append(b)
        for k, v in sorted(g.items()):
            print(k, len(v)); 
            for b in v[:int(os.environ.get("SHOW", "4"))]: print("    ", b[0], b[1], b[2], str(b[5])[:int(os.environ.get("WID","400"))])
        jdump(f"{V}/.work/explore-{fam}.ndjson", list(recs.values()))
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--explore": explore(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "all"); sys.exit(0)
        if sys.argv[1] == "--setup": sys.exit(setup())
        if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except Broken as e:
        print("ERROR of the check:", e); sys.exit(2)
