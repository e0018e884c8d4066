#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property by symbolic execution.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: no answer.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild
from checks import CHECKS, TRUST
VERIF, WORK = irbuild.VERIF, irbuild.WORK
NCPU = os.cpu_count() or 4


def native():
    """the same harnesses as a native program, for replay; returns its path"""
    tgt = os.path.join(WORK, "native-target")
    e = irbuild.env()
    e["CARGO_TARGET_DIR"] = tgt
    h = irbuild.src_hash()
    st = os.path.join(WORK, "native.stamp")
    exe = os.path.join(tgt, "debug", "replay")
    if os.path.exists(st) and open(st).read() == h and os.path.exists(exe):
        return exe
    d = os.path.join(VERIF, "harness")
    if os.path.exists(tgt):
        if os.path.exists(st):
            os.remove(st)
        pk = json.loads(irbuild.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=d, env=e).split("\n")[-2])["packages"]
        cmd = ["cargo", "clean", "--offline"]
        for p in pk:
            if not p["source"]:
                cmd += ["-p", p["name"] + "@" + p["version"]]
        irbuild.run(cmd, cwd=d, env=e)
    irbuild.run(["cargo", "build", "--offline", "--features", "replay", "--bin", "replay"], cwd=d, env=e)
    open(st, "w").write(h)
    return exe


def run_native(exe, path, timeout=30):
    d = os.path.join(WORK, "replays")
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", cwd=d)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout


def parse(path):
    r = dict(n={}, c={}, e={}, l={}, f=[], v=[], w=[])
    cur = None
    for l in open(path, errors="replace").read().split("\n"):
        p = l.split("\t")
        if p[0] in ("n", "c", "e", "l"):
            r[p[0]][p[1]] = int(p[2])
        elif p[0] == "f":
            r["f"].append((p[1], int(p[2]), int(p[3]), p[4], p[5]))
        elif p[0] == "v":
            cur = dict(kind=p[1], msg=p[2], count=int(p[3]), trace=p[4], inputs=[])
            r["v"].append(cur)
        elif p[0] == "w":
            cur = dict(cover=p[1], inputs=[])
            r["w"].append(cur)
        elif p[0] == "i":
            cur["inputs"].append(l)
    return r


def write_replay(path, job, inputs):
    with open(path, "w") as f:
        f.write("entry\t%s\n" % job["entry"])
        for k, v in job.get("params", {}).items():
            f.write("param\t%s\t%d\n" % (k, v))
        f.write("\n".join(inputs) + "\n")


def show(inputs):
    """readable form of a model: choices and strings"""
    out, cur, name = [], "", None
    for l in inputs:
        _, n, w, x, hid = l.split("\t")
        if hid != "0":
            continue
        m = re.match(r"(.*)\[(\d+)\]$", n)
        v = int(x, 16)
        if m:
            if m.group(1) != name:
                if name is not None:
                    out.append("%s=%r" % (name, cur))
                name, cur = m.group(1), ""
            cur += chr(v)
        else:
            if name is not None:
                out.append("%s=%r" % (name, cur))
                name = None
            out.append("%s=%d" % (n, v))
    if name is not None:
        out.append("%s=%r" % (name, cur))
    return " ".join(out)


def findings(pid):
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    ck = CHECKS[pid]
    jobs = ck.get(tier) or ck["quick"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(WORK, "replays")
    os.makedirs(rdir, exist_ok=True)
    exe = irbuild.symx()
    # the IR and the native program are independent builds
    with ThreadPoolExecutor(2) as ex:
        fi, fn = ex.submit(irbuild.build), ex.submit(native)
        mods, nat = fi.result(), fn.result()
    t_build = time.time() - t0
    kn = findings(pid)
    tot, covers, errs, lims, fns = {}, {}, {}, {}, {}
    viols, known, samples, per_job, missing = [], {}, [], [], []
    validated = disagree = 0
    for j, job in enumerate(jobs):
        out = os.path.join(WORK, "tmp", "%s.%d.tsv" % (pid, j))
        cmd = [exe, "--list", mods, "--entry", job["entry"], "--out", out, "--tmp", os.path.join(WORK, "tmp"), "--workers", str(NCPU),
               "--secs", str(job.get("secs", 120)), "--steps", str(job.get("steps", 400_000_000))]
        for k, v in job.get("params", {}).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        if kn:
            cmd.append("--all")
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if not os.path.exists(out):
            errs["executor: " + p.stderr[-300:]] = 1
            continue
        r = parse(out)
        for k, v in r["n"].items():
            tot[k] = tot.get(k, 0) + v
        for a, b in (("c", covers), ("e", errs), ("l", lims)):
            for k, v in r[a].items():
                b[k] = b.get(k, 0) + v
        for n, calls, ni, mod, mangled in r["f"]:
            o = fns.get(mangled)
            fns[mangled] = (n, calls + (o[1] if o else 0), ni, mod)
        per_job.append(dict(entry=job["entry"], params=job.get("params", {}), bound=job.get("bound", ""), paths=r["n"].get("paths", 0), queries=r["n"].get("queries", 0), unsat=r["n"].get("unsat", 0), insts=r["n"].get("insts", 0),
                            wall_s=round(r["n"].get("wall_ms", 0) / 1000, 1), complete=not r["e"] and not r["l"]))
        nv = 0
        for v in r["v"]:
            if v["kind"].startswith("known:") and v["kind"][6:] in kn:
                known[v["kind"][6:]] = known.get(v["kind"][6:], 0) + v["count"]
                continue
            nv += 1
            viols.append((job, v))
        if not nv:
            for c in job.get("covers", []):
                if not r["c"].get(c):
                    missing.append("%s never reached: %s" % (job["entry"], c))
            if not r["n"].get("paths"):
                missing.append("%s: no path completed" % job["entry"])
        # native replay of path witnesses: the encoding against the real code
        ws = r["w"][: 12 if tier == "quick" else 40]

        def one(i):
            f = os.path.join(rdir, "%s.w%d.%d.tsv" % (pid, j, i))
            write_replay(f, job, ws[i]["inputs"])
            rc, o = run_native(nat, f)
            os.remove(f)
            return rc, o
        if not nv:
            with ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(one, range(len(ws))))
            for i, (rc, o) in enumerate(res):
                if rc == 0:
                    validated += 1
                else:
                    disagree += 1
                    errs["native run of a path witness disagrees (%s): %s" % (rc, o.strip()[-200:])] = 1
            for w in ws[:3]:
                samples.append("%s: %s [%s]" % (job["entry"], show(w["inputs"]) or "(no inputs)", w["cover"]))
        if viols:
            break
    confirmed, unconf = [], []
    for n, (job, v) in enumerate(viols[:8]):
        f = os.path.join(rdir, "%s-%d.tsv" % (pid, n))
        write_replay(f, job, v["inputs"])
        rc = o = None
        reps = job.get("reps", 1)
        for k in range(reps):
            rc, o = run_native(nat, f)
            if rc in (1, "hang"):
                break
        d = "%s %s: %s" % (v["kind"], v["msg"], show(v["inputs"]))
        if rc == 1 or rc == "hang" or (isinstance(rc, int) and rc < 0):
            confirmed.append((f, d, o.strip()[-1500:]))
        else:
            unconf.append("%s (native: %s %s)" % (d, rc, o.strip()[-300:]))
    incomplete = ["%s (%d paths)" % (k, v) for k, v in list(errs.items()) + list(lims.items())]
    repo_fns = sorted(((n, c, ni) for n, c, ni, m in fns.values() if any(m.startswith(x) for x in ck.get("crates", ["oca", "transformation"]))), key=lambda x: -x[2])
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("insts", 0), traces_validated_against_impl=validated,
            samples=samples[:8],
            meaning="states: symbolic paths explored to the end, each standing for every input that takes it; transitions: IR instructions interpreted; traces_validated: solver models of passing paths replayed through the native build with the same outcome",
            jobs=per_job, bounds=ck.get("bounds", ""), outside=ck.get("outside", ""),
            complete=not incomplete, incomplete=[x[:300] for x in incomplete[:20]],
            branch_forks=tot.get("forks", 0), assertions_evaluated=tot.get("checks", 0), assertions_with_symbolic_verdict=tot.get("checks_sym", 0),
            solver=dict(queries=tot.get("queries", 0), cache_hits=tot.get("cache_hits", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0), unknown=tot.get("unknown", 0), seconds=round(tot.get("solver_us", 0) / 1e6, 2)),
            covers=covers, functions_encoded=len(fns), repo_functions_encoded=len(repo_fns),
            repo_functions=["%s (%d instructions, %d calls)" % x for x in [(a, c, b) for a, b, c in repo_fns[:60]]],
            build_s=round(t_build, 1), known_findings={k: v for k, v in known.items()}),
        assumptions=TRUST + ck.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    s = json.dumps(ev, indent=1)
    while len(s) > 60000:
        ev["coverage"]["repo_functions"] = ev["coverage"]["repo_functions"][:-10]
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:-1]
        s = json.dumps(ev, indent=1)
    open(os.path.join(VERIF, "evidence", pid + ".json"), "w").write(s + "\n")
    print("%s %s: %d paths, %d instructions, %d queries (%d unsat, %.1f s), %d witnesses replayed natively, %.0f s" % (
        pid, tier, tot.get("paths", 0), tot.get("insts", 0), tot.get("queries", 0), tot.get("unsat", 0), tot.get("solver_us", 0) / 1e6, validated, time.time() - t0))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    for x in incomplete[:10]:
        print("INCOMPLETE: " + x[:300])
    if confirmed:
        for f, d, o in confirmed:
            print("violated: " + d)
            print("  " + o.replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (pid, confirmed[0][0]))
        sys.exit(1)
    for x in unconf:
        print("UNCONFIRMED: " + x)
    for x in missing:
        print("VACUOUS: " + x)
    if unconf or missing or disagree:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
