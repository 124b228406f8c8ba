#!/usr/bin/env python3
"""Runner of all checks:  run.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness of one property against /repo's current working tree
(through a go build overlay, nothing is written into /repo), explores, writes
evidence/<ID>.json, prints KNOWN-FINDING / VIOLATION lines, exits 0 or 1.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")

SEQ = {}
for pkg, ids in {
    "core": "C01 C02 C03 C04 C05 C06 C07 C08",
    "schemas": "S01 S02 S03 S04 S05",
    "actors": "A01 A02 A03 A04",
    "transports": "H01 H02 H03 H04 H05 U01 U02",
    "tools": "T01",
}.items():
    for i in ids.split():
        SEQ[i] = pkg
CONC = {i: None for i in "K01 K02 K03 K04 K05 V01 V02 V03 T02 E01 C09 S06 A05 H06".split()}

# sequential checks with a concurrent part: the same operations at the same time
BOTH = set("C01 C02 C04 C05 C06 C07 C08 S01 S02 S03 S04 S05 A01 A02 A03 A04 H01 H02 H03 H04 U01 U02".split())
BOTH_BUDGET = {"quick": 15.0, "thorough": 90.0}

SEQ_DEADLINE = {"quick": 200, "thorough": 640}


def goenv():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.pop("GODEBUG", None)
    return env


def die(msg, code=2):
    print(msg, file=sys.stderr)
    sys.exit(code)


def overlay_tree(repl, src, dst):
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                repl[os.path.join(dst, os.path.relpath(p, src))] = p


def modfile(tmp):
    for n in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, n), os.path.join(tmp, n))
    return "-modfile=" + os.path.join(tmp, "go.mod")


def build_seq(pkg, tmp):
    repl = {}
    overlay_tree(repl, os.path.join(MC, "kit"), os.path.join(REPO, "zzverif/kit"))
    overlay_tree(repl, os.path.join(MC, "seq", pkg), os.path.join(REPO, "zzverif", pkg))
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    out = os.path.join(tmp, pkg)
    r = subprocess.run(["go", "build", "-ldflags=-checklinkname=0", modfile(tmp), "-overlay", ov, "-o", out, "./zzverif/" + pkg],
                       cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("build of the harness failed:\n" + r.stdout)
    if pkg == "tools":
        # the command-line tools themselves, run as processes
        bins = os.path.join(tmp, "bin")
        for t in ("call", "notify", "watch", "benchmark"):
            r = subprocess.run(["go", "build", modfile(tmp), "-o", os.path.join(bins, t), "./cli/" + t],
                               cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                die("build of cli/%s failed:\n%s" % (t, r.stdout))
    return out


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop and k.get("status") == "open"]


def finish(prop, tier, level, cov, violations, wall, assumptions):
    """violations: list of dicts with family, sig, message, ... ; returns exit code"""
    kf = known(prop)
    new = []
    seen_known = set()
    for v in violations:
        hit = next((k for k in kf if k["family"] == v["family"] and k["sig"] == v["sig"]), None)
        if hit:
            seen_known.add(hit["id"])
        else:
            new.append(v)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cov = dict(cov)
    cov["known_findings_listed"] = len(kf)
    cov["known_findings_observed"] = len(seen_known)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
              coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in new[:10]:
            name = f"{prop}-{v['family']}-" + hashlib.sha1((v["sig"] + json.dumps(v.get("choices"))).encode()).hexdigest()[:10] + ".json"
            path = os.path.join(rd, name)
            json.dump(dict(v, property=prop), open(path, "w"), indent=1)
            print(f"--- {prop} {v['family']} [{v['sig']}]: {v['message'][:1500]}")
            for s in (v.get("steps") or [])[:60]:
                print("    " + s[:300])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


# checks which talk over the loopback network or run programs: what they find
# must happen again when that behaviour alone is run in a process of its own
# (a machine out of ports, memory or time is no defect of the code)
NETWORK = ("H02", "H03", "H04", "H05", "U01", "T01")


def confirm(prop, tier, exe, env, tmp, violations):
    from concurrent.futures import ThreadPoolExecutor

    def again(iv):
        i, v = iv
        path = os.path.join(tmp, f"again{i}.json")
        json.dump(v, open(path, "w"))
        for wait in (0, 5, 60):
            time.sleep(wait)
            try:
                r = subprocess.run([exe, "-prop", prop, "-tier", tier, "-replay", path], cwd=tmp, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            except subprocess.TimeoutExpired:
                return True
            if r.returncode not in (0, 3):
                return True
        return False

    with ThreadPoolExecutor(4) as ex:
        ok = list(ex.map(again, enumerate(violations)))
    for v, y in zip(violations, ok):
        if not y:
            print(f"not reproduced (not reported): {prop} {v['family']} [{v['sig']}]: {v['message'][:300]}")
    return [v for v, y in zip(violations, ok) if y], sum(not y for y in ok)


def run_seq(prop, tier, replay):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="jlibmc-")
    try:
        if replay and "policy" in json.load(open(replay)):
            import conc
            return conc.replayed(prop, tmp, replay)
        exe = build_seq(SEQ[prop], tmp)
        env = goenv()
        env["TMPDIR"] = tmp
        env["JLIB_BIN"] = os.path.join(tmp, "bin")
        if replay:
            r = subprocess.run([exe, "-prop", prop, "-tier", tier, "-replay", replay], cwd=tmp, env=env)
            if r.returncode == 1:
                print(f"VIOLATION property={prop} replay={replay}")
            return 1 if r.returncode == 1 else (0 if r.returncode == 0 else 2)
        out = os.path.join(tmp, "out.json")
        dl = SEQ_DEADLINE[tier]
        try:
            r = subprocess.run([exe, "-prop", prop, "-tier", tier, "-out", out, "-deadline", str(dl)], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=dl + 90)
        except subprocess.TimeoutExpired:
            die("harness did not finish")
        if r.returncode != 0 or not os.path.exists(out):
            # a crash of the process under exploration: a panic that cannot be recovered
            txt = r.stdout[-6000:]
            if "panic:" in txt or "fatal error:" in txt:
                v = dict(family="process", sig="crash", choices=[], message="the process crashed:\n" + txt, steps=[])
                return finish(prop, tier, "model_checking", dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=False), [v], time.time() - t0, [])
            die("harness failed:\n" + txt)
        res = json.load(open(out))
        cov = {k: res[k] for k in ("states", "transitions", "traces_validated_against_impl", "exhaustive", "outcomes", "families", "samples", "skipped_outside_domain")}
        cov["samples"] = cov["samples"][:12]
        cov["explored"] = "complete choice tree of every family" if res["exhaustive"] else "cut by the time limit"
        violations = res["violations"] or []
        if prop in NETWORK:
            violations, cov["not_reproduced"] = confirm(prop, tier, exe, env, tmp, violations)
        if prop in BOTH:
            import conc
            d = os.path.join(tmp, "conc")
            os.mkdir(d)
            try:
                built = conc.build(d, prop)
            except SystemExit:
                # code the rewriter cannot take; the sequential part stands
                built, cov["at_the_same_time"] = None, "not explored: the code could not be rewritten"
            if built:
                c, more = conc.explore(prop, tier, d, built, BOTH_BUDGET[tier])
                violations = violations + more
                cov["at_the_same_time"] = c
                for k in ("states", "transitions", "traces_validated_against_impl"):
                    cov[k] += c[k]
        return finish(prop, tier, "model_checking", cov, violations, time.time() - t0,
                      ["inputs outside the stated alphabets and depths are not explored", "the reference model in mc/seq states the intended behaviour"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        # warm the go build cache; every check builds what it needs by itself
        tmp = tempfile.mkdtemp(prefix="jlibmc-")
        try:
            for pkg in sorted(set(SEQ.values())):
                if os.path.isdir(os.path.join(MC, "seq", pkg)):
                    build_seq(pkg, tmp)
            import conc
            for prop in ["K01", "C09"] + sorted(conc.EXTRA):
                d = os.path.join(tmp, prop)
                os.mkdir(d)
                conc.build(d, prop)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    replay = os.path.abspath(a.replay) if a.replay else None
    if a.prop in SEQ:
        return run_seq(a.prop, a.tier, replay)
    if a.prop in CONC:
        import conc
        return conc.run(a.prop, a.tier, replay)
    die("unknown property " + str(a.prop))


if __name__ == "__main__":
    sys.path.insert(0, MC)
    sys.exit(main())
