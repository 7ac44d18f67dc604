#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's tree
   check.py --replay FILE               run the recorded failing case again
Exit 0: held on everything observed.  1: VIOLATION line.  3: the check itself
could not run (build failure, harness error, nothing observed)."""
import concurrent.futures as cf, glob, json, os, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld, run as R, plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """one observed violation"""
    def __init__(self, prop, key, msg, replay):
        self.prop, self.key, self.msg, self.replay = prop, key, msg, replay


class State:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings, self.inconclusive, self.errors = [], [], []
        self.evals, self.distinct = 0, set()
        self.counts, self.dsets, self.samples, self.runs = {}, {}, [], []
        self.lock = threading.Lock()
        self.tmp = R.scratch("exsmon.")
        self.bins = None
        self.n = 0

    # --- used by the python-side checkers (utilities, life cycle, exit status)
    def evaluation(self, h, nontrivial=True):
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(str(h))

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def dset(self, k, v):
        with self.lock:
            self.dsets.setdefault(k, set()).add(str(v))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def fail(self, key, msg, replay):
        with self.lock:
            self.findings.append(Finding(self.prop, key, msg, replay))

    def newdir(self, tag):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, f"{tag}{self.n}")
        os.makedirs(d)
        return d

    def mpi(self, np, argv, tag="u", wall=240, env=None, cwd=None, stuck=25.0, stdin=None):
        """run a monitored executable; returns (Result, outdir)"""
        out = self.newdir(tag)
        tmp = out + "/t"
        os.makedirs(tmp)
        e = R.mpi_env(tmp, out, env)
        e["MON_PMPI_OUT"] = out
        if stdin is not None:
            open(out + "/stdin", "w").write(stdin)
            stdin = open(out + "/stdin", "rb")
        r = R.launch(R.mpi_cmd(np, argv), e, out, np, wall, stuck, cwd=cwd or out, stdin=stdin)
        return r, out


def mon_run(S, spec, only=None, retry=False):
    """one mpirun of the in-process monitors"""
    np, cases = spec["np"], spec["cases"]
    out = S.newdir("m")
    tmp, sd = out + "/t", out + "/s"
    os.makedirs(tmp)
    os.makedirs(sd)
    seed = spec.get("seed", S.seed)
    binp = S.bins["mon"]
    argv = [binp, "--prop", S.prop, "--out", out, "--dir", sd, "--seed", str(seed), "--cases", str(cases),
            "--time", str(spec.get("time", 200)), "--from", str(spec.get("from", 0))]
    if only:
        argv += ["--scen", only[0], "--case", str(only[1])]
    elif spec.get("scen"):
        argv += ["--scen", spec["scen"]]
    env = R.mpi_env(tmp, out, spec.get("env"))
    env["MON_KNOWN"] = ",".join(k for k, _ in known(S.prop))
    wall = spec.get("wall", 400)
    r = R.launch(R.mpi_cmd(np, argv), env, out, np, wall, stuck=spec.get("stuck", 20.0), livelock=2 * spec.get("stuck", 20.0))
    rep = dict(kind="mon", prop=S.prop, np=np, seed=seed, env=spec.get("env"))
    sans = R.san_reports(out)
    viols = R.read_viols(out)
    res = R.read_results(out)
    st = [s for s in r.status if s]
    fnd = []
    for v in viols:
        if S.prop in v["prop"].split(","):
            fnd.append(Finding(S.prop, v["key"], f"{v['scen']} case {v['case']} on {np} process(es), process {v['rank']}: {v['msg']}",
                               dict(rep, scen=v["scen"], case=v["case"])))
        else:
            S.count("other_property_reports")
    cur = max(st, key=lambda s: s["cases"]) if st else None
    inc = any(not s["harness"] for s in st)
    curd = dict(rep, scen=cur["scen"], case=cur["case_no"]) if cur else rep
    if r.timeout:
        S.inconclusive.append(f"np={np}: wall limit {wall}s reached at {cur and cur['scen']}")
    for kind, fn, txt in sans:
        fnd.append(Finding(S.prop, f"sanitizer:{kind}:{fn}", f"{cur['scen'] if cur else '?'} case {cur['case_no'] if cur else '?'} on {np} process(es): {kind} in {fn} {txt[:160].splitlines()[0]}", curd))
        with S.lock:
            try:
                open(os.path.join(S.tmp, "sanlog"), "a").write(txt + "\n")
            except OSError:
                pass
    if r.hang:
        if retry or only:
            fnd.append(Finding(S.prop, f"hang:{cur['scen']}", f"{cur['scen']} case {cur['case_no']} on {np} process(es) does not complete: {R.where(r.status)}", curd))
        else:
            # deciding on wall clock alone would be unsound: repeat that case alone
            f2, _ = mon_run(S, dict(spec, stuck=45.0), only=(cur["scen"], cur["case_no"]), retry=True)
            h2 = [f for f in f2 if f.key.startswith("hang:")]
            fnd += h2
            if not h2:
                S.inconclusive.append(f"np={np}: no progress in {cur['scen']} case {cur['case_no']}, not repeatable")
    elif r.rc not in (0, 10) and not sans and not r.timeout:
        # abnormal end without a sanitizer report: MPI error abort, signal, exit
        if cur is None or r.rc in (97, 98):
            S.errors.append(f"harness did not start (rc {r.rc}): {r.stderr[-600:]}")
        else:
            tail = [l for l in r.stderr.splitlines() if "***" in l or "signal" in l or "what()" in l or "terminate" in l or "exit" in l]
            f = Finding(S.prop, f"abort:{cur['scen']}", f"{cur['scen']} case {cur['case_no']} on {np} process(es) ended abnormally (rc {r.rc}): {' | '.join(tail[:4])[:500]}", curd)
            if retry or only:
                fnd.append(f)
            else:
                ok = False
                for _ in range(2):
                    f2, _ = mon_run(S, spec, only=(cur["scen"], cur["case_no"]), retry=True)
                    h2 = [x for x in f2 if x.key.startswith(("abort:", "sanitizer:", "hang:"))]
                    if h2:
                        fnd += h2
                        ok = True
                        break
                if not ok:
                    S.inconclusive.append(f.msg)
    if not retry:
        with S.lock:
            for x in res:
                S.evals += x["evaluations"]
                S.distinct |= set(x["distinct_eval"])
                for k, n in x["counts"].items():
                    S.counts[k] = S.counts.get(k, 0) + n
                for k, l in x["distinct"].items():
                    S.dsets.setdefault(k, set()).update(l)
                if x["rank"] == 0:
                    S.samples += x["samples"][:6]
            S.runs.append(dict(np=np, cases=(res[0]["cases"] if res else (cur or {}).get("cases", 0)), wall=round(r.wall, 1),
                               scenarios=(res[0]["scen_names"] if res else []), time_limited=bool(res and res[0]["stopped"]), rc=r.rc))
            S.findings += fnd
    shutil.rmtree(out, ignore_errors=True)
    return fnd, r


def known(prop):
    """(keys of listed findings)"""
    path = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("finding: property=" + prop + " "):
                # finding: property=C01 key=<key> <what fails>
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out.append((key[4:], what))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = (a[1] if len(a) > 1 else None) or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    S = State(prop, tier, seed)
    try:
        return decide(S, prop, tier, seed, t0)
    finally:
        if not os.environ.get("MON_KEEP"):
            shutil.rmtree(S.tmp, ignore_errors=True)


def decide(S, prop, tier, seed, t0):
    try:
        S.bins = bld.build("san")
    except bld.BuildError as e:
        print(f"check error: {e}")
        return 3
    tb = time.time() - t0
    plan = plans.plan(prop, tier)
    jobs = []
    for spec in plan["mon"]:
        jobs.append((spec["np"], lambda s=spec: mon_run(S, s)))
    for np, fn in plan.get("py", []):
        jobs.append((np, lambda f=fn: f(S)))
    # keep about 9 runnable processes
    cap, cond, used = 9, threading.Condition(), [0]

    def worker(j):
        w = min(j[0], cap)
        with cond:
            while used[0] + w > cap:
                cond.wait()
            used[0] += w
        try:
            j[1]()
        except Exception as e:  # harness defect
            import traceback
            S.errors.append("".join(traceback.format_exception(e))[-1500:])
        finally:
            with cond:
                used[0] -= w
                cond.notify_all()

    with cf.ThreadPoolExecutor(16) as ex:
        list(ex.map(worker, sorted(jobs, key=lambda j: -j[0])))
    kn = known(prop)
    # report
    seen, new, listed = {}, [], {}
    for f in S.findings:
        hit = [k for k, _ in kn if f.key == k]
        if hit:
            listed.setdefault(f.key, f)
        elif f.key not in seen:
            seen[f.key] = f
            new.append(f)
    cov = dict(evaluations=S.evals, distinct_nontrivial=len(S.distinct), rule=plan["rule"], samples=S.samples[:12] or ["(none)"],
               runs=S.runs, counts={k: v for k, v in sorted(S.counts.items())},
               distinct={k: len(v) for k, v in sorted(S.dsets.items())},
               inconclusive=S.inconclusive, known_findings_seen=sorted(listed), build_s=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level=plan.get("level", "exploration"), coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, w in kn:
        # every listed finding is announced; `seen` tells whether this run met it
        print(f"KNOWN-FINDING: property={prop} {w}")
    if new:
        os.makedirs(f"{V}/work/replay", exist_ok=True)
        for i, f in enumerate(new[:8]):
            p = f"{V}/work/replay/{prop}-{seed}-{i}.json"
            with open(p, "w") as fh:
                json.dump(dict(f.replay, key=f.key, msg=f.msg), fh, indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  [{f.key}] {f.msg}")
        if os.environ.get("MON_VERBOSE") and os.path.exists(S.tmp + "/sanlog"):
            print(open(S.tmp + "/sanlog").read()[:6000])
        return 1
    for i in S.inconclusive:
        print("inconclusive:", i)
    if S.errors:
        print("check error:", *S.errors, sep="\n")
        return 3
    if S.evals < plan.get("min_evals", 20):
        print(f"check error: only {S.evals} observations")
        return 3
    print(f"{prop} {tier}: held on {S.evals} observations ({len(S.distinct)} distinct) in {time.time() - t0:.1f}s (build {tb:.1f}s)")
    return 0


def replay(path):
    d = json.load(open(path))
    S = State(d["prop"], "quick", d.get("seed", 1))
    S.bins = bld.build("san")
    os.environ["MON_VERBOSE"] = "1"
    if d["kind"] == "mon":
        f, r = mon_run(S, dict(np=d["np"], cases=1, seed=d["seed"], env=d.get("env")), only=(d["scen"], d["case"]))
        for x in f:
            print(f"[{x.key}] {x.msg}")
        if os.path.exists(S.tmp + "/sanlog"):
            print(open(S.tmp + "/sanlog").read()[:8000])
        print(r.stderr[-1500:])
        rc = 1 if f else 0
    else:
        getattr(__import__("uchecks"), d["fn"])(S, d)
        for x in S.findings:
            print(f"[{x.key}] {x.msg}")
        rc = 1 if S.findings else 0
    shutil.rmtree(S.tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
