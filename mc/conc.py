"""Concurrency checks: rewrites the code under test so that it runs under the
controlled scheduler of conc/vrt, builds the harness and explores scenarios."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import run as R

CONC = os.path.join(R.MC, "conc")


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# packages and scenarios beside package http, for the properties that need them
EXTRA = {
    "T02": (["cli/watch", "cli/benchmark", "cli/call"], "tools"),
    "E01": (["examples/fifo"], "example"),
}

# properties explored statement by statement, the whole library rewritten
DENSE = set("C09 S06 A05 H06".split())


def dense(prop):
    return prop in DENSE or prop in R.SEQ


def build(tmp, prop):
    """returns (executable, level)"""
    extra, scen = EXTRA.get(prop, ([], ""))
    if dense(prop):
        scen = "dense"
    env = R.goenv()
    rwexe = os.path.join(tmp, "rewrite")
    r = sh(["go", "build", "-o", rwexe, "main.go"], cwd=os.path.join(CONC, "rewrite"), env=dict(env, GO111MODULE="off", GOFLAGS=""))
    if r.returncode:
        R.die("build of the rewriter failed:\n" + r.stdout)
    mod = R.modfile(tmp)
    r = subprocess.run(["go", "list", mod, "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./http"] + ["./" + x for x in extra],
                       cwd=R.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        R.die("go list failed:\n" + r.stderr)
    exp = {}
    for l in r.stdout.splitlines():
        a = l.split("\t")
        if len(a) == 2 and a[1]:
            exp[a[0]] = a[1]
    ef = os.path.join(tmp, "export.json")
    json.dump(exp, open(ef, "w"))
    # interface types are map keys in generic code since go 1.20; the meaning of
    # loop variables changes only with 1.22
    m = re.search(r"^go 1\.(\d+)", open(os.path.join(R.REPO, "go.mod")).read(), re.M)
    tag = "go1.20" if m and int(m.group(1)) < 20 else ""
    last = ""
    for level in ("shared variables", "synchronisation only"):
        fields = "true" if level == "shared variables" else "false"
        d = os.path.join(tmp, "rw-" + fields)
        ok = True
        srcs = [("http", "http", ["-serve", "ListenAndServe", "-path", "github.com/superisaac/jlib/http"])]
        if dense(prop):
            srcs[0][2].append("-dense")
            srcs.append((".", "root", ["-dense", "-path", "github.com/superisaac/jlib"]))
            srcs.append(("schema", "schema", ["-dense", "-path", "github.com/superisaac/jlib/schema"]))
        for x in extra:
            n = os.path.basename(x)
            srcs.append((x, n, ["-pkg", n, "-main", "Main", "-path", n]))
        for src, name, opts in srcs:
            r = sh([rwexe, "-in", os.path.join(R.REPO, src), "-out", os.path.join(d, name), "-shim", os.path.join(CONC, "shim"),
                    "-export", ef, "-tag", tag, "-fields=" + fields] + opts, env=env)
            if r.returncode:
                ok, last = False, r.stdout
                break
        if not ok:
            continue
        repl = {}
        R.overlay_tree(repl, os.path.join(CONC, "vrt"), os.path.join(R.REPO, "zzverif/vrt"))
        R.overlay_tree(repl, os.path.join(CONC, "shim"), os.path.join(R.REPO, "zzverif/shim"))
        R.overlay_tree(repl, os.path.join(CONC, "harness"), os.path.join(R.REPO, "zzverif/conc"))
        if scen:
            R.overlay_tree(repl, os.path.join(CONC, scen), os.path.join(R.REPO, "zzverif/conc"))
        for src, name, opts in srcs[1:]:
            R.overlay_tree(repl, os.path.join(d, name), os.path.normpath(os.path.join(R.REPO, src) if dense(prop) else os.path.join(R.REPO, "zzverif", name)))
        R.overlay_tree(repl, os.path.join(d, "http"), os.path.join(R.REPO, "http"))
        ov = os.path.join(tmp, "overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        exe = os.path.join(tmp, "conc")
        r = sh(["go", "build", "-ldflags=-checklinkname=0", mod, "-overlay", ov, "-o", exe, "./zzverif/conc"], cwd=R.REPO, env=env)
        if r.returncode == 0:
            return exe, level
        last = r.stdout
    R.die("build of the rewritten code failed:\n" + last[-4000:])


BUDGET = {"quick": 32.0, "thorough": 660.0}  # seconds of wall clock for exploring
QUICK = {"H06": 60.0}  # large ones
PROCS = 8


def job(exe, tmp, prop, name, policy, secs, maxdev):
    out = os.path.join(tmp, f"out-{name}-{policy}.json")
    args = [exe, "-prop", prop, "-scenario", name, "-policy", str(policy), "-deadline", str(secs), "-out", out]
    known = [k["sig"] for k in R.known(prop) if k["family"] == name]
    if known:
        args += ["-known", ",".join(known)]
    if maxdev:
        args += ["-maxdev", str(maxdev)]
    txt = ""
    for attempt in range(2):
        try:
            r = sh(args, cwd=tmp, env=dict(R.goenv(), TMPDIR=tmp), timeout=secs + 150)
        except subprocess.TimeoutExpired:
            R.die("the explorer did not finish scenario " + name)
        if r.returncode == 0 and os.path.exists(out):
            return json.load(open(out))
        txt = r.stdout[-6000:]
    if "panic:" in txt or "fatal error:" in txt:
        return dict(scenario=name, policy=policy, crash=txt)
    R.die("the explorer failed on scenario " + name + ":\n" + txt)


def explore(prop, tier, tmp, built, budget):
    """explores what was built; returns (coverage, violations)"""
    exe, level = built
    tq = time.time()
    items = json.loads(subprocess.check_output([exe, "-prop", prop, "-list"], cwd=tmp))
    jobs = [(i["name"], pol, i["quick"] if tier == "quick" else 0, i.get("weight") or 1) for i in items for pol in (0, 1)]
    # what is left by scenarios that are explored completely goes to the others
    lock = threading.Lock()
    end = tq + budget
    state = dict(w=sum(j[3] for j in jobs))
    kf = {(k["family"], k["sig"]) for k in R.known(prop)}

    def go(j):
        name, pol, cap, w = j
        with lock:
            rest = max(end - time.time(), 1.0)
            secs = max(min(rest * PROCS * w / max(state["w"], 1), rest), 2.0)
            state["w"] -= w
            if state.get("found"):
                secs = min(secs, 3.0)
        r = job(exe, tmp, prop, name, pol, round(secs, 1), cap)
        if "crash" in r or any((v["family"], v["sig"]) not in kf for v in r["violations"] or []):
            state["found"] = True
        return r

    jobs.sort(key=lambda j: (-j[3], j[2] >= 0))
    with ThreadPoolExecutor(PROCS) as ex:
        res = list(ex.map(go, jobs))
    viol, seen = [], set()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=True, explorations=[], samples=[], granularity=level)
    if dense(prop):
        cov["granularity"] = "every statement of packages jlib, schema and http"
    unsupported = []
    for r in res:
        if "crash" in r:
            viol.append(dict(family=r["scenario"], sig="crash", policy=r["policy"], variant=0, hot=[], choices=[], steps=[], message="the process crashed:\n" + r["crash"]))
            continue
        if r.get("unsupported"):
            unsupported.append(r["scenario"] + ": " + r["unsupported"][:300])
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["executions"]
        cov["exhaustive"] = cov["exhaustive"] and r["exhaustive"]
        cov["explorations"].append({k: r[k] for k in ("scenario", "policy", "variants", "executions", "pruned", "states", "transitions", "deviation_bound_completed",
                                                       "exhaustive", "longest_execution", "unordered_variables", "restarts", "unconfirmed", "wall_s")})
        if r.get("sample") and len(cov["samples"]) < 4 and r["policy"] == 0:
            cov["samples"].append(dict(scenario=r["scenario"], schedule=r["sample"][:25]))
        for v in r["violations"] or []:
            if (v["family"], v["sig"]) not in seen:
                seen.add((v["family"], v["sig"]))
                viol.append(v)
    cov["unsupported"] = unsupported
    cov["explored"] = ("every schedule of every variant with at most deviation_bound_completed deviations from the policy's default schedule "
                       "(exhaustive: all schedules), on the implementation itself; executions that reach a state seen before are cut")
    return cov, viol


def replayed(prop, tmp, path):
    exe, _ = build(tmp, prop)
    r = subprocess.run([exe, "-prop", prop, "-replay", path], cwd=tmp)
    if r.returncode == 1:
        print(f"VIOLATION property={prop} replay={path}")
    return r.returncode if r.returncode in (0, 1) else 2


def run(prop, tier, replay):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="jlibmc-")
    try:
        if replay:
            return replayed(prop, tmp, replay)
        cov, viol = explore(prop, tier, tmp, build(tmp, prop), QUICK.get(prop, BUDGET[tier]) if tier == "quick" else BUDGET[tier])
        where = ["threads interleave at synchronisation operations and at accesses to variables found unordered by happens-before",
                 "code outside package http" + "".join(" and " + x for x in EXTRA.get(prop, ([], ""))[0]) + " runs in one step",
                 "time passes only when nothing else can run",
                 "scenarios, peers and bounds as listed; connections are simulated in memory"]
        if dense(prop):
            where = ["threads interleave before every statement of packages jlib, schema and http; a library call is one step",
                     "what an operation gives alone is the oracle for what it gives beside others",
                     "operations and bounds as listed; HTTP requests are handed over in memory"]
        return R.finish(prop, tier, "model_checking", cov, viol, time.time() - t0, where)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
