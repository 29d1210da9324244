#!/usr/bin/env python3
"""check.py <ID> [--replay FILE] [--scale X]

Runs the generated-input search that decides property <ID> against the current
working tree of /repo. Exit 0: held; 1: VIOLATION line printed; 2: the check
itself could not run (build error, timeout, killed process).
"""
import hashlib, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")

# property -> list of parts: package, test, options
#   quick/thorough: scale factors on the number of cases of each Spec
#   shards: processes; race: build with the race detector
P = lambda pkg, **o: dict(pkg=pkg, **o)
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))

T0 = time.time()


def env_go():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false",
             GOWORK="off", LC_ALL="C")
    e.setdefault("HOME", "/root")
    return e


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


class Infra(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    return d


def build(part, work):
    """Builds the test binary of a part from /repo's current tree."""
    e = env_go()
    out = os.path.join(work, part["pkg"].replace("/", "_") + (".race" if part.get("race") else "") + ".test")
    if os.path.exists(out):
        return out
    mod = os.path.join(work, "mod")
    os.makedirs(mod, exist_ok=True)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if part.get("race"):
        cmd.append("-race")
        e["CGO_ENABLED"] = "1"
    if part.get("inmain"):
        # in-package test of the root package, laid over /repo
        src = os.path.join(HARNESS, "inmain", "zz_verif_test.go.txt")
        gomod = open(os.path.join(REPO, "go.mod")).read()
        gomod = re.sub(r"(?m)^go .*$", "go 1.21", gomod)
        gomod += "\nrequire verifharness v0.0.0\nreplace verifharness => %s\nrequire pgregory.net/rapid v1.3.0\n" % HARNESS
        open(os.path.join(mod, "go.mod"), "w").write(gomod)
        gosum = ""
        for f in (os.path.join(REPO, "go.sum"), os.path.join(HARNESS, "go.sum")):
            if os.path.exists(f):
                gosum += open(f).read()
        open(os.path.join(mod, "go.sum"), "w").write(gosum)
        json.dump({"Replace": {os.path.join(REPO, "zz_verif_test.go"): src}}, open(os.path.join(mod, "overlay.json"), "w"))
        cmd += ["-modfile", os.path.join(mod, "go.mod"), "-overlay", os.path.join(mod, "overlay.json"), "."]
        cwd = REPO
    else:
        # a private copy of the module file, so that nothing here or in /repo is rewritten
        gomod = open(os.path.join(HARNESS, "go.mod")).read()
        gomod = re.sub(r"=> /repo\b", "=> " + REPO, gomod)
        open(os.path.join(mod, "hgo.mod"), "w").write(gomod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(mod, "hgo.sum"))
        cmd += ["-modfile", os.path.join(mod, "hgo.mod"), "./checks/" + part["pkg"]]
        cwd = HARNESS
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
    if r.returncode != 0:
        raise Infra("build of %s failed:\n%s" % (part["pkg"], r.stdout.decode(errors="replace")[-4000:]))
    return out


def build_main(work):
    """Builds the program itself from /repo's current tree."""
    out = os.path.join(work, "simulator")
    if not os.path.exists(out):
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=env_go(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=700)
        if r.returncode != 0:
            raise Infra("build of the program failed:\n%s" % r.stdout.decode(errors="replace")[-4000:])
    return out


def limits(race):
    def f():
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def known_findings(pid):
    ks = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"known: id=(\S+) property=(\S+) (.*)", ln)
            if m and m.group(2) == pid:
                ks[m.group(1)] = m.group(3).strip()
    return ks


def run_env(pid, part, work, out, tier, seed, scale, shard, shards, deadline, ks):
    e = env_go()
    e.update(HARNESS_OUT=out, HARNESS_SEED=str(seed), HARNESS_SCALE=repr(scale), HARNESS_SHARD=str(shard),
             HARNESS_SHARDS=str(shards), HARNESS_DEADLINE=str(deadline), HARNESS_KNOWN=",".join(ks),
             VERIF_TIER=tier, HARNESS_HANG=str(part.get("hang", 25)), HARNESS_REPO=REPO,
             GOMAXPROCS=str(part.get("procs", 2)), GORACE="halt_on_error=1 exitcode=66",
             TMPDIR=os.path.join(work, "tmp"))
    if part.get("main"):
        e["HARNESS_MAIN"] = build_main(work)
    if shard == 0:
        e["HARNESS_CORPUS"] = os.path.join(HERE, "corpus")
    return e


def run_part(pid, part, work, tier, seed, scale, ks, idx):
    binp = build(part, work)
    shards = part.get("shards", 8)
    deadline = dict({"quick": 200, "thorough": 2400}, **part.get("deadline", {}))[tier]
    hard = deadline + {"quick": 250, "thorough": 1200}[tier]
    procs = []
    for s in range(shards):
        cwd = os.path.join(work, "run%d_%d" % (idx, s))
        os.makedirs(cwd)
        out = os.path.join(work, "out%d_%d" % (idx, s))
        e = run_env(pid, part, work, out, tier, seed, scale, s, shards, deadline, ks)
        cmd = [binp, "-test.run", "^" + part["test"] + "$", "-test.timeout", "%ds" % hard, "-test.v=false",
               "-rapid.nofailfile", "-rapid.shrinktime", part.get("shrink", "15s")]
        log = open(out + ".log", "wb")
        procs.append((s, out, cmd, e, cwd, subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT,
                                                            stdin=subprocess.DEVNULL, preexec_fn=limits(part.get("race")))))
    res = []
    for s, out, cmd, e, cwd, p in procs:
        try:
            rc = p.wait(timeout=hard + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        res.append((s, out, cmd, e, cwd, rc))
    return res


def tail(f, n=3000):
    try:
        return open(f, "rb").read().decode(errors="replace")[-n:]
    except OSError:
        return ""


def head(f, n=1500):
    try:
        return open(f, "rb").read().decode(errors="replace")[:n]
    except OSError:
        return ""


DEATH = re.compile(r"fatal error:|WARNING: DATA RACE|runtime: out of memory|goroutine stack exceeds|SIGSEGV|panic: ")


def judge(pid, part, res):
    """Returns (failure dict or None, list of stats). Raises Infra when there is no answer."""
    stats, fails, broken = [], [], []
    for s, out, cmd, e, cwd, rc in res:
        ff = out + ".fail.json"
        done = os.path.exists(out + ".json")
        if rc == 0 and done:
            stats.append((json.load(open(out + ".json")), out + ".hash"))
            continue
        if os.path.exists(ff) and (done or rc == 3 or DEATH.search(head(out + ".log", 200000))):
            f = json.load(open(ff))
            if not done and rc != 3:
                f["error"] += "\n" + head(out + ".log")
            fails.append((s, f))
            continue
        broken.append((s, out, cmd, e, cwd, rc))
    if fails:
        return fails[0][1], stats
    for s, out, cmd, e, cwd, rc in broken:
        if rc in ("timeout",) or rc == -9:
            continue
        # The process died: run it again, recording each case before it runs.
        e = dict(e, HARNESS_FATAL="1")
        log = open(out + ".log2", "wb")
        try:
            rc2 = subprocess.run(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 preexec_fn=limits(part.get("race")), timeout=600).returncode
        except subprocess.TimeoutExpired:
            continue
        ff = out + ".fail.json"
        if rc2 != 0 and os.path.exists(ff) and DEATH.search(head(out + ".log2", 200000)):
            f = json.load(open(ff))
            f["error"] += "\n" + head(out + ".log2")
            return f, stats
    if broken:
        s, out, cmd, e, cwd, rc = broken[0]
        raise Infra("shard %d of %s ended with %s and no result:\n%s" % (s, part["test"], rc, tail(out + ".log")))
    return None, stats


def evidence(pid, tier, seed, stats, violations, parts, note=""):
    rules, subs, classes, samples, hashes = {}, {}, {}, [], set()
    ev = nt = corpus = trunc = 0
    exh = {}
    for st, hf in stats:
        ev += st["evals"]
        nt += st["nontrivial"]
        corpus += st["corpus"]
        trunc += st["truncated"]
        rules.update(st["rules"])
        exh.update(st.get("exhaustive") or {})
        for k, v in st["subs"].items():
            d = subs.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
        for k, v in st["classes"].items():
            classes[k] = classes.get(k, 0) + v
        b = open(hf, "rb").read()
        if len(hashes) < 8000000:
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        for x in st["samples"] or []:
            if sum(1 for y in samples if y["sub"] == x["sub"]) < 2 and len(samples) < 12:
                samples.append(x)
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(hashes),
        "nontrivial_not_deduplicated": nt,
        "rule": " || ".join("%s: %s" % kv for kv in sorted(rules.items())),
        "samples": samples if samples else [{"note": "no non-trivial case in this run"}],
        "per_part": subs,
        "classes": dict(sorted(classes.items())),
        "regression_corpus_cases": corpus,
        "cases_skipped_at_time_limit": trunc,
    }
    if exh:
        cov["exhaustive_parts"] = exh
        if set(exh) == set(rules):
            cov["exhaustive"] = True
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ASSUMPTIONS.get(pid, []) + ASSUMPTIONS["*"],
           "wall_s": round(time.time() - T0, 2), "violations": violations}
    if note:
        doc["assumptions"].append(note)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


ASSUMPTIONS = CHECKS.pop("_assumptions")


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        die("usage: check.py <ID> [--replay FILE]")
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    parts = CHECKS[pid]
    work = scratch()
    os.makedirs(os.path.join(work, "tmp"))
    code = 2
    try:
        ks = known_findings(pid)
        if "--replay" in args:
            code = do_replay(pid, parts, work, os.path.abspath(args[args.index("--replay") + 1]), ks)
        else:
            code = do_check(pid, parts, work, tier, seed, ks)
    except Infra as x:
        print("ERROR: %s: %s" % (pid, x))
    except subprocess.TimeoutExpired as x:
        print("ERROR: %s: time limit: %s" % (pid, x))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def do_check(pid, parts, work, tier, seed, ks):
    allstats, note = [], ""
    failure = None
    for i, part in enumerate(parts):
        if part.get("fallback_of") is not None and not note:
            continue
        scale = float(os.environ.get("VERIF_SCALE") or part.get(tier, 1 if tier == "quick" else 20))
        try:
            f, stats = judge(pid, part, run_part(pid, part, work, tier, seed, scale, ks, i))
        except Infra as x:
            if part.get("optional") and "build of" in str(x):
                note = "part %s could not be built against this tree (%s); its fallback ran instead" % (part["test"], str(x)[:200])
                continue
            raise
        allstats += stats
        if f is not None:
            failure = f
            break
    if failure is not None:
        b = json.dumps(failure, indent=1)
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(b.encode()).hexdigest()[:12]))
        open(path, "w").write(b)
        evidence(pid, tier, seed, allstats, 1, parts, note)
        print("%s/%s: %s" % (pid, failure["sub"], failure["error"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    evidence(pid, tier, seed, allstats, 0, parts, note)
    seen = {}
    for st, _ in allstats:
        seen.update(st.get("known") or {})
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, ks.get(k, seen[k])))
    ev = sum(st["evals"] for st, _ in allstats)
    nt = sum(st["nontrivial"] for st, _ in allstats)
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (pid, ev, nt, time.time() - T0))
    return 0


def do_replay(pid, parts, work, path, ks):
    sub = json.load(open(path)).get("sub")
    for part in parts:
        binp = build(part, work)
        out = os.path.join(work, "replay")
        e = run_env(pid, part, work, out, "quick", 1, 1.0, 0, 1, 600, ks)
        e.pop("HARNESS_CORPUS", None)
        e["HARNESS_REPLAY"] = path
        r = subprocess.run([binp, "-test.run", "^" + part["test"] + "$", "-test.v"], cwd=work, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(part.get("race")), timeout=800)
        print(r.stdout.decode(errors="replace")[-6000:])
        if r.returncode != 0:
            print("REPLAY property=%s sub=%s: fails" % (pid, sub))
            return 1
    print("REPLAY property=%s sub=%s: passes" % (pid, sub))
    return 0


main()
