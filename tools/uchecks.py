"""checks driven from python: memcheck passes, executables, utilities"""
import glob, os, re, shutil, subprocess, threading
import xml.etree.ElementTree as ET
import build as bld, run as R

_plain, _pl = {}, threading.Lock()


def plain():
    with _pl:
        if not _plain:
            _plain.update(bld.build("plain"))
    return _plain


# ---------------------------------------------------------------- memcheck
def memcheck(scen, cases, first=0, wall=400):
    """one process of the in-process monitors under valgrind: use of undefined
    values and invalid accesses, judged where library code is on the stack"""
    def fn(S, only=None):
        out = S.newdir("vg")
        for d in ("t", "s"):
            os.makedirs(f"{out}/{d}")
        e = R.mpi_env(out + "/t", out)
        argv = ["valgrind", "--tool=memcheck", "--leak-check=no", "--show-leak-kinds=none", "--xml=yes", f"--xml-file={out}/vg.%p.xml", "--num-callers=24",
                plain()["mon"], "--prop", S.prop, "--out", out, "--dir", out + "/s", "--seed", str(S.seed), "--cases", str(cases), "--from", str(first), "--time", str(wall - 60), "--scen", scen]
        if only is not None:
            argv += ["--case", str(only)]
        try:
            p = subprocess.run(argv, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=wall, cwd=out)
        except subprocess.TimeoutExpired:
            S.inconclusive.append(f"memcheck of {scen}: wall limit")
            return
        n = 0
        res = R.read_results(out)
        done = res[0]["cases"] if res else 0
        for f in glob.glob(out + "/vg.*.xml"):
            t = open(f, encoding="latin1").read()
            if "</valgrindoutput>" not in t:
                t += "</valgrindoutput>"
            try:
                errs = list(ET.fromstring(t).iter("error"))
            except ET.ParseError:
                continue
            for x in errs:
                kind = x.findtext("kind") or ""
                if kind.startswith("Leak"):
                    continue
                fr = x.find("stack").findall("frame")
                own = [q.findtext("fn") or "" for q in fr if "exseis::" in (q.findtext("fn") or "")]
                n += 1
                if not own:
                    continue
                name = re.sub(r"\(.*", "", own[0]).split("::")[-1]
                S.fail(f"memcheck:{kind}:{name}", f"memcheck, {scen} on 1 process: {kind} in {own[0][:160]}: {(x.findtext('what') or '')[:120]}",
                       dict(kind="py", fn="memcheck_replay", prop=S.prop, seed=S.seed, scen=scen, cases=cases, first=first))
        S.count("memcheck_cases", done)
        S.count("memcheck_errors_elsewhere", n)
        if not done:
            S.errors.append(f"memcheck of {scen} did not run: rc {p.returncode} {p.stderr[-300:].decode('latin1')}")
        for k in range(done):
            S.evaluation(f"memcheck {scen} {S.seed} {first + k}")
        shutil.rmtree(out, ignore_errors=True)
    return fn


def memcheck_replay(S, d):
    memcheck(d["scen"], d["cases"], d["first"])(S)


# ---------------------------------------------------------------- whole programs
# mode -> (exit status, "DONE" printed, who finalises)
LIFE = {"plain": 0, "early": 0, "user": 0, "thread": 0, "unmanaged": 0, "managed": 0, "many": 0, "global": 0, "exit": 3, "set": 0, "late": 0, "ended": 0, "ended_late": 0, "ended_managed": 0,
        "latched": 1, "latched_one": 1, "warned": 0, "c_plain": 0, "c_early": 0, "c_latched": 1}


def audits(S, out, what, rep, kinds=None):
    """the MPI boundary monitor's end of program report"""
    n, cnt = 0, {}
    for f in glob.glob(out + "/audit.*"):
        n += 1
        for line in open(f, encoding="latin1"):
            a = line.rstrip("\n").split("\t")
            if a[0].startswith("#"):
                cnt[a[-2].lstrip("#")] = cnt.get(a[-2].lstrip("#"), 0) + int(a[-1])
            elif kinds is None or a[0] in kinds:
                S.fail(f"{a[0]}:{what}", f"{what}: {' '.join(a[1:])[:300]}", rep)
    return n, cnt


def life(mode, np):
    def fn(S):
        rep = dict(kind="py", fn="life_replay", prop=S.prop, seed=S.seed, mode=mode, np=np)
        c = mode.startswith("c_")
        d = S.newdir("l")
        env = {"LIFE_EARLY": "1"} if mode == "early" else None
        cmd = [S.bins["life_life_c" if c else "life_life"], mode if mode != "c_plain" else "plain", d]
        if LIFE[mode] == 1:       # the status of each process: mpirun has its own
            cmd = ["sh", "-c", '"$0" "$@"; s=$?; echo "STATUS $s"; exit $s'] + cmd
        r, out = S.mpi(np, cmd, "life", 100, env, stuck=20)
        name = f"life {mode} on {np} process(es)"
        if r.timeout and not r.hang:
            S.inconclusive.append(f"{name}: wall limit")
            return
        if r.hang:
            S.fail(f"hang:life:{mode}", f"{name}: does not end: {R.where(r.status)}", rep)
            return
        for kind, f, txt in R.san_reports(out):
            S.fail(f"sanitizer:{kind}:{f}", f"{name}: {kind} in {f} {txt[:160].splitlines()[0]}", rep)
        want = LIFE[mode]
        err = want == 1
        bad = lambda k, m: S.fail(f"life:{mode}:{k}", f"{name}: {m}", rep)
        if err:
            if "ERRSET" not in r.stdout:
                bad("start", "program did not reach its failing operation: " + r.stderr[-200:])
            if r.rc == 0:
                bad("status", "an error was recorded and the program ended with success")
            if mode != "latched_one" and "STATUS 0" in r.stdout:
                bad("process-status", "an error was recorded and a process ended with success")
            if mode == "c_latched" and "the program checks" not in r.stderr:
                bad("message", "the message given to the error check is not reported: " + r.stderr[:200])
            if mode != "latched_one" and "CONTINUED" in r.stdout:
                bad("continued", "went on after isErr although an error had been recorded")
        else:
            if r.rc != want:
                bad("rc", f"exit status {r.rc} instead of {want}: {r.stderr[-300:]}")
            if mode == "exit":
                pass
            elif r.stdout.count("DONE") != np:
                bad("done", f"{r.stdout.count('DONE')} of {np} processes finished")
        ln = 0
        for f in glob.glob(out + "/life.*"):
            ln += 1
            t = dict(l.split(None, 1) for l in open(f).read().splitlines() if l.strip())
            ini, fin, aft = int(t["init"]), int(t["finalize"]), int(t["after"].split()[0])
            if ini != 1:
                bad("init", f"MPI was initialised {ini} times")
            if not err and fin != 1:
                bad("finalize", f"MPI was finalised {fin} times")
            if fin > 1:
                bad("finalize", f"MPI was finalised {fin} times")
            if aft:
                bad("after", f"MPI used after its end: {t['after']}")
        if not err and ln != np:
            bad("report", f"{ln} of {np} processes reported the end of MPI")
        if not err:
            n, cnt = audits(S, out, f"life:{mode}", rep, None if S.prop != "C04" else ())
            for k, v in cnt.items():
                S.count("life_" + k, v)
        S.count("programs_run")
        S.dset("program_modes", f"{mode} {np}")
        S.evaluation(f"life {mode} {np}")
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
    return fn


def life_replay(S, d):
    life(d["mode"], d["np"])(S)


def lives(modes, nps):
    return [(n, life(m, n)) for m in modes for n in nps]


# ---------------------------------------------------------------- utilities
import math, random, struct
import segyfile as G


def util_run(S, util, args, np, rep, what, wall=120, env=None, audit=True, stdin=None, cwd=None):
    """run a utility; returns (exit status or None, stdout, outdir)"""
    r, out = S.mpi(np, [S.bins["u_" + util]] + args, "ut", wall, env, stuck=20, stdin=stdin, cwd=cwd)
    if r.hang:
        S.fail(f"hang:{util}", f"{what}: does not end: {R.where(r.status)}", rep)
        return None, "", out
    if r.timeout:
        S.inconclusive.append(f"{what}: wall limit")
        return None, "", out
    for kind, f, txt in R.san_reports(out):
        S.fail(f"sanitizer:{kind}:{f}", f"{what}: {kind} in {f} {txt[:160].splitlines()[0]}", rep)
    if audit and r.rc == 0:
        n, cnt = audits(S, out, util, rep)
        for k in ("messages_sent", "collectives", "bytes_written"):
            S.count("util_" + k, cnt.get(k, 0))
    S.count("utility_runs")
    S.dset("utilities", f"{util} {np}")
    return r, r.stdout, out


def first_diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} bytes instead of {len(b)}"
    for i in range(0, len(a), 4096):
        if a[i:i + 4096] != b[i:i + 4096]:
            k = next(j for j in range(i, len(a)) if a[j] != b[j])
            return f"byte {k}: 0x{a[k]:02x} instead of 0x{b[k]:02x}"
    return None


def slurp(p):
    try:
        return open(p, "rb").read()
    except OSError:
        return None


def some_file(r, ns, inc, nt, geo=None):
    g = geo or G.survey(r, nt)
    t = [G.trace(x, [G.f32(r.uniform(-1000, 1000)) for _ in range(ns)], r) for x in g]
    return g, t, G.header(ns, inc, b"C 1 INPUT") + b"".join(t)


def utility(util, k, np):
    """case k of a utility; the inputs depend on k only, not on np"""
    def fn(S):
        r = random.Random(f"{S.seed} {util} {k}")
        rep = dict(kind="py", fn="utility_replay", prop=S.prop, seed=S.seed, util=util, k=k, np=np)
        d = S.newdir("d")
        name = f"{util} case {k} on {np} process(es)"
        bad = lambda key, m: S.fail(f"{util}:{key}", f"{name}: {m}", rep)
        try:
            h = globals()["case_" + util](S, r, d, np, rep, name, bad)
            S.evaluation(f"{util} {k} {np} {h}", h is not None)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return fn


def utility_replay(S, d):
    utility(d["util"], d["k"], d["np"])(S)


def case_concatenate(S, r, d, np, rep, name, bad):
    groups = [(r.randint(1, 12), 500 * r.randint(1, 9))]
    if r.random() < .35:
        groups.append((groups[0][0] + r.randint(0, 1), 500 * r.randint(10, 12)))
    files = []
    many, large = r.random() < .05, r.random() < .05
    for i in range(r.randint(11, 30) if many else r.randint(1, 4)):
        grp = r.randrange(len(groups))
        nt = 0 if r.random() < .1 else r.randint(1, 40) * (r.randint(5, 50) if large and not many else 1)
        g, t, b = some_file(r, *groups[grp], nt)
        n = f"{d}/in{i:02}.{r.choice(['segy', 'sgy', 'SEGY'])}"
        open(n, "wb").write(b)
        files.append((grp, t))
    env = {"EXSEISDAT_MEMLIM": str(r.randint(2, 20) * 1500)} if r.random() < .4 else None
    args = ["-i", d + "/in*", "-o", d + "/out"]
    if r.random() < .4:
        args += ["-m", "C 1 message"]
    answer = r.choice(["y", "n"]) if r.random() < .25 else None
    if answer:
        args += ["-p"]
    x, so, _ = util_run(S, "concatenate", args, np, rep, name, env=env, stdin=answer and answer + "\n", audit=answer != "n")
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    outs = [G.File(slurp(f)) for f in sorted(glob.glob(d + "/out*"))]
    if answer == "n":
        if outs:
            bad("declined", f"{len(outs)} output files although the answer was no")
        return 0
    used = sorted({g for g, _ in files})
    if len(outs) != len(used):
        bad("files", f"{len(outs)} output files for {len(used)} kinds of input")
        return 0
    for gi in used:
        o = [x for x in outs if x.ok and (x.ns, x.inc) == groups[gi]]
        if len(o) != 1:
            bad("missing", f"no output with {groups[gi][0]} samples at {groups[gi][1]} us")
            continue
        want = b"".join(b"".join(t) for g, t in files if g == gi)
        df = first_diff(o[0].b[3600:], want)
        if df:
            bad("traces", f"the traces of the output differ from those of the inputs in order: {df}")
        txt = b"C 1 message" if "-m" in args else b"Concatenated with ExSeisPIOL"
        if not o[0].text.startswith(txt):
            bad("text", f"text header begins {o[0].text[:40]!r}")
        S.count("traces_compared", o[0].nt)
    for i, (gi, t) in enumerate(files):
        pass
    return hash(tuple(b"".join(t) for _, t in files))


def case_makerep(S, r, d, np, rep, name, bad):
    kind = r.choice(["small", "small", "mid", "blocks", "blocks", "exact"])
    ns = r.choice([1, 3, 10, 100, 500])
    tsz = 240 + 4 * ns
    B = 2097152
    if kind == "small":
        nt = r.randint(0, 12)
    elif kind == "mid":
        nt = r.randint(7200 // tsz + 1, B // tsz)
    elif kind == "blocks":
        nt = r.randint(B // tsz, 6 * B // tsz)
    else:
        ns = r.choice([68 - 60 + 8, 4])  # 256 or 304 bytes
        tsz = 240 + 4 * ns
        nt = max(0, (r.randint(1, 4) * B - 3600) // tsz + r.randint(-1, 1))
    data = r.randbytes(nt * tsz)
    b = G.header(ns, 4000, b"C 1 INPUT") + data
    open(d + "/in.segy", "wb").write(b)
    n = r.choice([1, 2, 3, 5]) if len(b) < 4e6 else r.choice([1, 2, 3])
    v = r.choice(["standard", "standard", "naive1", "naive2"])
    env = None
    if len(b) > 2 * B and r.random() < .5:
        env = {"EXSEISDAT_MEMLIM": str(r.choice([B, 2 * B, B + 4096, 600000]))}
    args = ["-i", d + "/in.segy", "-o", d + "/out.segy", "-r", str(n), "-v", v]
    name += f" ({len(b)} bytes x{n}, {v}, limit {env and env['EXSEISDAT_MEMLIM']})"
    bad0 = bad
    bad = lambda k, m: S.fail(f"makerep:{k}", f"{name}: {m}", rep)
    x, so, _ = util_run(S, "makerep", args, np, rep, name, env=env)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = slurp(d + "/out.segy")
    df = "no output" if o is None else first_diff(o, b + data * (n - 1))
    if df:
        bad("bytes", df)
    S.count("bytes_compared", len(o or b""))
    return hash((data[:4000], len(b), n, v)) if nt else None


def case_segsort(S, r, d, np, rep, name, bad):
    ns, inc = r.randint(0, 6) or 1, 500 * r.randint(1, 9)
    nt = r.choice([0, 1, 2, 3]) if r.random() < .2 else r.randint(4, 60) * (r.randint(5, 50) if r.random() < .06 else 1)
    g, t, b = some_file(r, ns, inc, nt)
    open(d + "/in.segy", "wb").write(b)
    ty = r.randint(0, 8)
    env = {"EXSEISDAT_MEMLIM": str(r.randint(2, 20) * 1500)} if r.random() < .4 else None
    x, so, _ = util_run(S, "segsort", ["-i", d + "/in.segy", "-o", d + "/out", "-t", str(35 + ty)], np, rep, name, env=env)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = slurp(d + "/out.segy")
    order = sorted(range(nt), key=lambda i: (G.sort_key(ty, g[i]), i))
    df = "no output" if o is None else first_diff(o[3600:], b"".join(t[i] for i in order))
    if df:
        bad("order", f"{nt} traces sorted by type {35 + ty}: {df}")
    S.count("traces_compared", nt)
    # the verifier: accepts the sorted file, rejects one out of order
    for f, keys in (("out", order), ("in", range(nt))):
        x, so, _ = util_run(S, "versort", ["-i", f"{d}/{f}.segy", "-t", str(35 + ty)], np, rep, name + " verify " + f)
        if x is None:
            return None
        ks = [G.sort_key(ty, g[i]) for i in keys]
        isord = all(a <= c for a, c in zip(ks, ks[1:]))
        good, fl = so.count("Success"), x.stderr.count("Failure")
        if good + fl != np:
            bad("verify-report", f"{good} Success and {fl} Failure from {np} processes")
        elif (fl == 0) != isord:
            bad("verify", f"verifier: {good} Success, {fl} Failure for a file that is {'in' if isord else 'not in'} order of type {35 + ty}")
    return hash((b, ty)) if nt > 1 else None


def case_minmax(S, r, d, np, rep, name, bad):
    nt = r.choice([1, 2, 3]) if r.random() < .2 else r.randint(4, 80) * (r.randint(5, 50) if r.random() < .06 else 1)
    ns, inc = r.randint(1, 5), 500 * r.randint(1, 9)
    g, t, b = some_file(r, ns, inc, nt)
    open(d + "/in.segy", "wb").write(b)
    x, so, _ = util_run(S, "minmax", ["-i", d + "/in.segy", "-o", d + "/out.segy"], np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = G.File(slurp(d + "/out.segy") or b"")
    if not o.ok or o.nt != 12 or o.rest or o.ns != 1 or o.inc != inc:
        bad("size", f"output of {len(o.b)} bytes, {getattr(o, 'nt', 0)} traces of {getattr(o, 'ns', 0)} samples, expected 12 of 1")
        return 0
    i = 0
    for a, c in (("sx", "sy"), ("rx", "ry"), ("cx", "cy")):
        for u, v in ((a, c), (c, a)):
            for f in (min, max):
                e = f(range(nt), key=lambda q: (g[q][u], g[q][v], q if f is min else -q))
                # smallest/greatest value, then other parameter, then number
                best = f((g[q][u], g[q][v]) for q in range(nt))
                cand = [q for q in range(nt) if (g[q][u], g[q][v]) == best]
                for k in G.LOC:
                    got = o.get(i, k)
                    ok = any(got == g[q][k] if k != "tn" else got == q for q in cand)
                    if not ok:
                        bad("trace", f"trace {i} of the output ({f.__name__} of {u}): {k} is {got}, expected " + "/".join(str(g[q][k] if k != 'tn' else q) for q in cand[:3]))
                        return 0
                i += 1
    S.count("traces_compared", 12)
    return hash(b)


def case_examples(S, r, d, np, rep, name, bad):
    """the example programs: the C interface used by whole C programs"""
    what = r.choice(["creadwrite", "creadwrite", "modprm", "example2", "minmax"])
    name = name.replace("examples", what)
    bad = lambda k, m: S.fail(f"example:{what}:{k}", f"{name}: {m}", rep)
    nt, ns, inc = r.choice([1, 2, r.randint(1, 9), r.randint(1, 60)]), r.randint(1, 30), 500 * r.randint(1, 9)
    if what == "example2":        # it swaps the two numbers (DESIGN section 4)
        ns = nt
    g, t, b = some_file(r, ns, inc, nt)
    text = bytes(r.choice(b"ABCDEFGHIJKLMNOP 0123456789") for _ in range(r.randint(1, 3200)))
    b = text.ljust(3200) + b[3200:]
    open(d + "/in.segy", "wb").write(b)
    if what == "minmax":
        want = []
        for a, c in (("sx", "sy"), ("rx", "ry"), ("cx", "cy")):
            for u, v in ((a, c), (c, a)):
                for sg in (1, -1):
                    e = min(range(nt), key=lambda q: (sg * g[q][u], sg * g[q][v], sg * q))
                    want.append((g[e][u], e))
        for prog in ("cminmax", "ccminmax"):
            x, so, _ = util_run(S, "ex_" + prog, ["-i", d + "/in.segy"], np, rep, f"{name} {prog}")
            if x is None:
                return None
            if x.rc != 0:
                bad("rc", f"{prog}: exit status {x.rc}: {x.stderr[-300:]}")
                return 0
            got = [(float(m[1]), int(m[2])) for m in re.finditer(r"([-+\d.e]+) \((\d+)\)", so)]
            if len(got) != 12 or any(abs(p - q) > 1e-5 * abs(q) or i != j for (p, i), (q, j) in zip(got, want)):
                bad("values", f"{prog} prints {got}, expected {want}")
        S.count("values_compared", 24)
        return hash(b)
    args = ["-i", d + "/in.segy", "-o", d + "/out.segy"]
    if what == "creadwrite":      # its flags crash it (DESIGN section 4)
        if r.random() < .6:
            args += ["-m", str(max(240, 4 * ns) * r.randint(1, 12))]
    x, so, _ = util_run(S, "ex_" + what, args, np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = G.File(slurp(d + "/out.segy") or b"")
    if not o.ok or o.nt != nt or o.rest or (o.ns, o.inc) != (ns, inc):
        bad("size", f"output of {len(o.b)} bytes, {getattr(o, 'nt', 0)} traces of {getattr(o, 'ns', 0)} samples at {getattr(o, 'inc', 0)}, expected {nt} of {ns} at {inc}")
        return 0
    if o.text.rstrip(b" \0") != b[:3200].rstrip(b" \0"):
        bad("text", f"text header differs: {first_diff(o.text, b[:3200])}")
    for i in range(nt):
        w = dict(g[i])
        if what == "modprm":
            w["sx"], w["sy"] = w["sy"], w["sx"]
        k = next((k for k in G.LOC if o.get(i, k) != w[k]), None)
        if k:
            bad("header", f"trace {i}: {k} is {o.get(i, k)}, expected {w[k]}")
            break
        s = t[i][240:]
        if what != "modprm" and o.tr(i)[240:] != s:
            bad("samples", f"trace {i}: {first_diff(o.tr(i)[240:], s)}")
            break
    S.count("traces_compared", nt)
    return hash(b)


def case_filemake(S, r, d, np, rep, name, bad):
    mem = 1
    if r.random() < .5:
        ns, nt = r.choice([1, 2, 7, 30]), r.choice([0, 1, 2, 3, 7, r.randint(1, 60)])
    else:
        ns, nt = r.choice([300, 1000, 3000]), r.randint(30, 900)
        nt = min(nt, 3000000 // (4 * ns))
    inc = r.randint(1, 40) * 250
    args = ["-o", d + "/out.segy", "-s", str(ns), "-t", str(nt), "-m", str(mem), "-i", repr(inc * 1e-6)]
    lob, ran = r.random() < .4, r.random() < .5
    args += ["-l"] * lob + ["-r"] * ran
    name += f" ({nt} traces of {ns}{', lopsided' if lob else ''}{', random' if ran else ''})"
    bad = lambda k, m: S.fail(f"filemake:{k}", f"{name}: {m}", rep)
    x, so, _ = util_run(S, "filemake", args, np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = G.File(slurp(d + "/out.segy") or b"")
    if not o.ok or (o.nt, o.rest, o.ns, o.inc) != (nt, 0, ns, inc):
        bad("size", f"output of {len(o.b)} bytes: {getattr(o, 'nt', 0)} traces of {getattr(o, 'ns', 0)} at {getattr(o, 'inc', 0)} us, promised {nt} of {ns} at {inc}")
        return 0
    half, off, nh = G.f32(nt * ns / 2), G.f32(nt * ns / 4), nt // 2
    some = range(nt) if nt * ns < 20000 else sorted(r.sample(range(nt), min(nt, 20000 // ns)))
    for i in range(nt):
        kk = nh - abs(i - nh)
        w = dict(sx=1600 + kk, sy=2400 + kk, rx=100000 + kk, ry=3000000 + kk, cx=10000 + kk, cy=4000 + kk, il=2400 + kk, xl=1600 + kk, tn=i)
        for q, v in w.items():
            if o.get(i, q) != v:
                bad("header", f"trace {i}: {q} is {o.get(i, q)}, expected {v}")
                return 0
    for i in some:
        s = o.samples(i)
        for j in range(ns):
            e = G.f32(G.f32(half - abs(G.f32(-half + G.f32(i * ns + j)))) - off)
            if s[j] != e:
                bad("samples", f"trace {i} sample {j} is {s[j]!r}, expected {e!r}")
                return 0
    S.count("traces_compared", nt)
    return hash((nt, ns, inc, lob, ran)) if nt else None


def case_fail(S, r, d, np, rep, name, bad):
    """what cannot be done is reported by the exit status"""
    util = r.choice(["concatenate", "makerep", "segsort", "minmax", "filemake", "fourdbin"])
    how = r.choice(["missing", "place", "WRITE", "READ", "WRITE", "RESIZE"])
    if how in ("missing", "READ") and util == "filemake":
        how = "WRITE"
    if how == "RESIZE" and util == "makerep":
        how = "place"
    nt = r.randint(3, 30)
    g, t, b = some_file(r, 4, 1000, nt)
    open(d + "/in.segy", "wb").write(b)
    i, o = d + "/in.segy", d + "/out.segy"
    if how == "missing":
        i = d + "/none.segy"
    if how == "place":
        o = d + "/nowhere/out.segy"
    env, nth = None, 0
    if how in ("WRITE", "READ", "RESIZE"):
        nth = r.randint(1, 4)
        env = {"MON_FAULT": f"{how}:{nth}"}
    pre = o[:-5]
    args = dict(concatenate=["-i", i, "-o", pre], makerep=["-i", i, "-o", o, "-r", "3"], segsort=["-i", i, "-o", pre, "-t", str(r.randint(35, 43))], minmax=["-i", i, "-o", o],
                filemake=["-o", o, "-s", "4", "-t", str(nt), "-m", "1", "-i", "0.004"] + (["-r"] if r.random() < .5 else []),
                fourdbin=["-a", i, "-b", d + "/in.segy", "-c", o, "-d", d + "/out2.segy"])[util]
    if util == "fourdbin":
        env = dict(env or {}, OMPI_MCA_osc="pt2pt")
    name += f" ({util}: {how} {nth or ''})"
    x, so, out = util_run(S, util, args, np, rep, name, env=env, audit=False)
    if x is None:
        return None
    hits = 1
    if nth:
        hits = 0
        fs = glob.glob(out + "/life.*")
        for f in fs:
            t = dict(l.split(None, 1) for l in open(f).read().splitlines() if l.strip())
            hits += int(t["faults"])
        if not fs:
            hits = 1 if x.rc else 0
    if hits and x.rc == 0:
        S.fail(f"{util}:status:{how}", f"{name}: ended with exit status 0", rep)
    S.count("failures_delivered", 1 if hits else 0)
    S.dset("failures", f"{util} {how} {nth}")
    return hash((util, how, nth, nt)) if hits else None


def case_createfile(S, r, d, np, rep, name, bad):
    """a file made by a whole program"""
    ns, nt = 4000, 8000
    x, so, _ = util_run(S, "ex_ccmake", [], np, rep, name, cwd=d)
    if x is None:
        return None
    if x.rc != 0:
        S.fail("example:createfile:rc", f"{name}: exit status {x.rc}: {x.stderr[-300:]}", rep)
        return 0
    c = slurp(d + "/CreateFileOutputCPP") or b""
    o = G.File(c)
    if not o.ok or (o.nt, o.rest, o.ns, o.inc) != (nt, 0, ns, 10000):
        S.fail("example:createfile:size", f"{name}: {len(c)} bytes, {o.ok and (o.nt, o.rest, o.ns, o.inc)}", rep)
        return 0
    for i in (0, 1, nt // 3, nt - 1):
        w = dict(tn=i, sx=1600 + i, sy=2400 + i, rx=100000 + i, ry=3000000 + i, cx=10000 + i, cy=4000 + i, il=2400 + i, xl=1600 + i)
        k = next((k for k in w if o.get(i, k) != w[k]), None)
        if k:
            S.fail("example:createfile:header", f"{name}: trace {i}: {k} is {o.get(i, k)}, expected {w[k]}", rep)
    S.count("bytes_compared", len(c))
    return hash(c[:100000])


def examples(n, nps=(1, 2, 3, 5)):
    return [(nps[k % len(nps)], utility("examples", k, nps[k % len(nps)])) for k in range(n)]


def utilities(n, first=0, nps=(1, 2, 3, 5)):
    r = random.Random(n)
    jobs = []
    for k in range(first, first + n):
        for u, w in (("concatenate", 1), ("makerep", 2), ("segsort", 1), ("minmax", 1), ("filemake", 2), ("fail", 2)):
            for j in range(w):
                np = nps[(k * 7 + j * 3 + len(u)) % len(nps)]
                jobs.append((np, utility(u, k * w + j, np)))
    return jobs


# ---- 4D binning ----

def hyp(a, b):
    return math.hypot(a, b)


def case_4d(S, r, d, np, rep, name, bad):
    """np: the process counts the same input is binned with"""
    style = r.randint(0, 4)
    line = style == 0             # integer coordinates on a line: distances are exact
    n1, n2 = (r.choice([0, 1, 2, 3, 7, 20] + [r.randint(1, 80), r.randint(20, 80)] * 3) for _ in range(2))
    if r.random() < .04:
        n1, n2 = r.randint(100, 700), r.randint(100, 700)
    span = r.choice([0, 1, 10, 100, 1000, 30000])
    scal = 1 if line else r.choice([1, -10, -100])
    q = 1 if scal == 1 else 1 / -scal
    far = 0 if line else r.choice([0, 0, 100000, 700000])
    num = lambda w: q * r.randint(0, max(0, int(w / q)))
    box = span or 1

    # lines beyond 16 bits, and equal in their low bits
    il0, xl0, step = r.choice([0, 40000, -3, 2 ** 31 - 200000]), r.choice([0, 65535, 1 << 20]), r.choice([1, 1, 65536])

    def place():
        g = {"sx": num(span), "sy": num(span), "rx": num(span), "ry": num(span)}
        if style == 2:
            g["sx"] = r.choice([0, span])
        if style == 3:            # receivers follow the sources
            g["rx"], g["ry"] = g["sx"] + q * r.randint(0, 20), g["sy"] - q * r.randint(0, 20)
        if line:
            g["sy"] = g["ry"] = 7
        g["il"], g["xl"] = il0 + step * r.randint(0, 2), xl0 + step * r.randint(0, 1)
        return g

    a = [place() for _ in range(n1)]
    b = []
    jig = r.choice([0, q, 5 * q, box / 20, box / 4])
    jig = q * int(jig / q)
    for _ in range(n2):
        if a and r.random() < .75:
            g = dict(r.choice(a))
            for k in ("sx", "sy", "rx", "ry"):
                if not (line and k[1] == "y"):
                    g[k] += q * r.randint(-int(jig / q), int(jig / q))
            if r.random() < .4:
                g["sx"], g["sy"], g["rx"], g["ry"] = g["rx"], g["ry"], g["sx"], g["sy"]
            if r.random() < .3:
                g["il"], g["xl"] = il0 + step * r.randint(0, 2), xl0 + step * r.randint(0, 1)
        else:
            g = place()
        b.append(g)
    for g in a + b:
        for k in ("sx", "sy", "rx", "ry"):
            g[k] = g[k] + far
            g[k] = round(g[k] / q) * q
        g.update(cx=0, cy=0, off=0)
    if r.random() < .5:
        for x in (a, b):
            x.sort(key=lambda g: g["sx"])
    for x in (a, b):
        for i, g in enumerate(x):
            g["tn"] = i + 1
    lim = r.choice([0, q, 1, 1, 2, 5, jig, 2 * jig, box / 4, box, 4 * box])
    if line:
        lim = float(int(lim))
    ix, dsr, bare = r.random() < .35, r.random() < .5, r.random() < .3
    verbose = random.Random(f"{n1} {n2} {lim} {ix}").choice([0, 0, 1, 2])     # 2: with no place for the files
    if verbose == 1:
        os.mkdir(d + "/tmp")
    ns1, ns2 = r.randint(1, 6), r.randint(1, 6)
    mk = lambda gs, ns: [G.trace(g, [G.f32(r.uniform(-1000, 1000)) for _ in range(ns)], r, scal) for g in gs]
    t1, t2 = mk(a, ns1), mk(b, ns2)
    open(d + "/a.segy", "wb").write(G.header(ns1, 2000) + b"".join(t1))
    open(d + "/b.segy", "wb").write(G.header(ns2, 4000) + b"".join(t2))
    name = f"{name} ({n1}x{n2} traces, limit {lim}{', lines' if ix else ''})"
    bad = lambda k, m: S.fail(f"fourdbin:{k}", f"{name}: {m}", rep)
    # the coordinates as the utility holds them
    c = [[[G.f32(g[k]) for k in ("sx", "sy", "rx", "ry")] for g in x] for x in (a, b)]
    mag = max([abs(v) for x in c for g in x for v in g] + [1])
    tol = lambda v: 0 if line else 1e-5 * v + 4 * mag * 2 ** -24
    dist = {}
    for i in range(n1):
        for j in range(n2):
            if not ix or (a[i]["il"], a[i]["xl"]) == (b[j]["il"], b[j]["xl"]):
                p, s = c[0][i], c[1][j]
                dist[i, j] = min(hyp(p[0] - s[0], p[1] - s[1]) + hyp(p[2] - s[2], p[3] - s[3]), hyp(p[0] - s[2], p[1] - s[3]) + hyp(p[2] - s[0], p[3] - s[1]))
    near = [min([dist[i, j] for j in range(n2) if (i, j) in dist], default=math.inf) for i in range(n1)]
    # passive-target gets without access to the memory of other processes
    env = {"OMPI_MCA_osc": "pt2pt"}
    if r.random() < .35:
        env["EXSEISDAT_MEMLIM"] = str(int(2300 * r.choice([1, 2, 3, 5, 8, 20]) * r.uniform(1, 1.5)))
    mask = lambda t: t[:224] + b"\0" * 4 + t[228:] if not dsr else t[:214] + b"\0\0" + t[216:224] + b"\0" * 4 + t[228:240] + t[240:]
    m = (lambda t: t) if not dsr else mask
    ids = [{m(t): i for i, t in enumerate(x)} for x in (t1, t2)]
    ref = None
    for p in np:
        o1, o2 = f"{d}/c{p}.segy", f"{d}/d{p}.segy"
        args = ["-a", d + "/a.segy", "-b", d + "/b.segy", "-c", o1, "-d", o2] + (["-t", repr(lim)] if lim != 1 or bare else []) + ["-x"] * ix + ["-p"] * (not dsr) + ["-v"] * (verbose > 0)
        x, so, _ = util_run(S, "fourdbin", args, p, rep, f"{name} on {p}", env=env, cwd=d)
        if x is None:
            return None
        if x.rc != 0:
            bad("rc", f"exit status {x.rc} on {p}: {x.stderr[-300:]}")
            return 0
        f = [G.File(slurp(o) or b"") for o in (o1, o2)]
        for k, (w, ns, inc) in enumerate(((f[0], ns1, 2000), (f[1], ns2, 4000))):
            if not w.ok or w.rest or (w.ns, w.inc) != (ns, inc):
                bad("size", f"output {k + 1} on {p} processes: {len(w.b)} bytes, {getattr(w, 'ns', 0)} samples at {getattr(w, 'inc', 0)}")
                return 0
        if f[0].nt != f[1].nt:
            bad("counts", f"outputs of {f[0].nt} and {f[1].nt} traces on {p} processes")
            return 0
        pairs = []
        for t in range(f[0].nt):
            e = [ids[k].get(m(f[k].tr(t))) for k in (0, 1)]
            if None in e:
                bad("trace", f"trace {t} of output {e.index(None) + 1} on {p} processes is none of the input traces")
                return 0
            pairs.append(tuple(e))
            if dsr:
                for k in (0, 1):
                    h = f[k].tr(t)
                    v, = struct.unpack_from(">i", h, 224)
                    sc, = struct.unpack_from(">h", h, 214)
                    v = v * sc if sc > 0 else v / -sc if sc < 0 else v
                    w = dist.get(tuple(e), math.inf)
                    if abs(v - w) > 1.1e-4 + 2 * tol(w) + 1e-9 * w:
                        bad("dsdr", f"trace {t} of output {k + 1}: distance {v} in the header, it is {w}")
                        return 0
        got = dict(pairs)
        if len(got) != len(pairs):
            bad("duplicate", f"a trace of the first survey is twice in the output on {p} processes")
            return 0
        for i in range(n1):
            if i not in got:
                if near[i] <= lim - 3 * tol(near[i]):
                    bad("dropped", f"trace {i} of the first survey dropped on {p} processes: a trace of the second at distance {near[i]}")
                    return 0
                continue
            w = dist.get((i, got[i]), math.inf)
            if w > lim + 3 * tol(lim):
                bad("far", f"trace {i} paired with trace {got[i]} at distance {w} on {p} processes")
                return 0
            if w > near[i] + 3 * tol(w):
                bad("nearest", f"trace {i} paired with trace {got[i]} at distance {w} on {p} processes, another is at {near[i]}")
                return 0
        if verbose == 1:          # each process reports what it found
            held = []
            for pr in range(p):
                raw = slurp(f"{d}/tmp/restart{pr}") or b""
                cnt = struct.unpack_from("<Q", raw)[0] if len(raw) >= 8 else -1
                if len(raw) != 8 + 20 * cnt:
                    bad("restart", f"restart file of process {pr} of {p}: {len(raw)} bytes, it says {cnt} pairs")
                    return 0
                u = struct.unpack(f"<{2 * cnt}Q{cnt}f", raw[8:])
                held += zip(u[:cnt], u[cnt:2 * cnt])
                for i, j, v in zip(u[:cnt], u[cnt:2 * cnt], u[2 * cnt:]):
                    w = dist.get((i, j), math.inf)
                    if abs(v - w) > 3 * tol(w) + 1e-9:
                        bad("restart-distance", f"restart file of process {pr} of {p}: traces {i} and {j} at distance {v}, it is {w}")
                        return 0
            if sorted(held) != sorted(pairs):
                bad("restart-pairs", f"the restart files on {p} processes hold {len(held)} pairs which are not the {len(pairs)} of the outputs")
                return 0
            S.count("restart_pairs", len(held))
        S.count("pairs", len(pairs))
        S.count("distances_compared", len(dist))
        S.dset("rounds", f"{p} {len(pairs) > 0} {n1 < p} {n2 < p} {len(env) > 1} {ix}")
        if ref is None:
            ref = (p, set(pairs))
        elif set(pairs) != ref[1]:
            x = sorted(set(pairs) ^ ref[1])
            bad("processes", f"the pairs on {p} processes are not those on {ref[0]}: {x[:4]}")
            return 0
    return hash((tuple(t1), tuple(t2), lim, ix)) if dist else None


def fourd(k, np):
    return utility("4d", k, np)


def fourds(n, first=0):
    r = random.Random(n + first)
    jobs = []
    for k in range(first, first + n):
        np = [1, 2, 3, 5, 8] if k % 8 == 7 else sorted(r.sample([1, 2, 3, 4, 5], 2))
        jobs.append((max(np), utility("4d", k, np)))
    return jobs


# ---- what the files hold: assess, traceanalysis, segy2kml, radon ----

def line_survey(r, n):
    """a line of traces; returns (traces, scalar, zone or None)"""
    kind = r.choice(["geo", "utm", "utm", "plain"])
    out = []
    if kind == "utm":
        scal, q = r.choice([(1, 1), (-10, .1), (-100, .01)])
        n0 = r.uniform(1200000, 8900000)
        # within the zone, in either hemisphere
        w = min(320000, 3.3 * 111000 * math.cos(math.radians(max(n0 + 90000, 1e7 - n0) / 111000)))
        e0 = 500000 + r.uniform(-w, w - 15000)
        place = lambda: (e0 + r.uniform(0, 15000), n0 + r.uniform(0, 90000))
    elif kind == "geo":
        scal, q = r.choice([(-10000, 1e-4), (-1000, 1e-3)])
        place = lambda: (r.uniform(-179, 179.9), r.uniform(-89, 89))
    else:
        scal, q = r.choice([(1, 1), (-10, .1)])
        place = lambda: (r.uniform(-80, 80), r.uniform(-80, 80))
    if r.random() < .2:
        p = place()
        place = lambda: p
    for i in range(n):
        g = {"tn": i + 1, "off": r.randint(-5000, 5000), "il": r.randint(-3, 40), "xl": r.choice([r.randint(-3, 40), r.randint(-2 ** 31, 2 ** 31 - 1)])}
        for a in ("s", "r", "c"):
            g[a + "x"], g[a + "y"] = (round(round(v / q) * q, 6) for v in place())
        out.append(g)
    return out, scal, kind


def krueger(e, n, zone, south):
    """UTM to latitude and longitude: Krueger's series"""
    a, f = 6378137.0, 1 / 298.257223563
    m = f / (2 - f)
    A = a / (1 + m) * (1 + m ** 2 / 4 + m ** 4 / 64)
    b = (m / 2 - 2 * m ** 2 / 3 + 37 * m ** 3 / 96 - m ** 4 / 360, m ** 2 / 48 + m ** 3 / 15 - 437 * m ** 4 / 1440, 17 * m ** 3 / 480 - 37 * m ** 4 / 840, 4397 * m ** 4 / 161280)
    xi, eta = (n - (1e7 if south else 0)) / (.9996 * A), (e - 5e5) / (.9996 * A)
    xp = xi - sum(c * math.sin(2 * (j + 1) * xi) * math.cosh(2 * (j + 1) * eta) for j, c in enumerate(b))
    ep = eta - sum(c * math.cos(2 * (j + 1) * xi) * math.sinh(2 * (j + 1) * eta) for j, c in enumerate(b))
    tau0 = math.sin(xp) / math.hypot(math.sinh(ep), math.cos(xp))
    # latitude from the conformal latitude
    e2 = f * (2 - f)
    ec = math.sqrt(e2)
    tau = tau0
    for _ in range(12):
        s = math.sinh(ec * math.atanh(ec * tau / math.hypot(1, tau)))
        t = tau * math.hypot(1, s) - s * math.hypot(1, tau)
        tau += (tau0 - t) / math.hypot(1, t) * (1 + (1 - e2) * tau ** 2) / ((1 - e2) * math.hypot(1, tau))
    return math.degrees(math.atan(tau)), 6 * zone - 183 + math.degrees(math.atan2(math.sinh(ep), math.cos(xp)))


def line_file(r, ns, inc, nt, path, text=b"C 1 INPUT"):
    g, scal, kind = line_survey(r, nt)
    t = [G.trace(x, [G.f32(r.uniform(-1000, 1000)) for _ in range(ns)], r, scal) for x in g]
    b = G.header(ns, inc, text) + b"".join(t)
    open(path, "wb").write(b)
    return g, kind, b


def case_assess(S, r, d, np, rep, name, bad):
    want, h = [], []
    for i in range(r.randint(1, 4)):
        ns, inc, nt = r.choice([1, 2, r.randint(3, 300), 32767]), r.choice([1, 250, 1000, 4000, 32767, r.randint(1, 32767)]), r.choice([0, 1, r.randint(2, 30)])
        if ns == 32767:
            nt = min(nt, 3)
        n = f"{d}/f{i}.{r.choice(['segy', 'sgy', 'SEGY', 'SGY', 'segy', 'txt', 'segy2'])}"
        text = f"C 1 FILE {i} {r.randint(0, 10 ** 9)}"
        g, kind, b = line_file(r, ns, inc, nt, n, text.encode())
        if n.lower().endswith("gy"):
            want.append((n, ns, nt, inc, text))
        h.append(b[:4000])
    x, so, _ = util_run(S, "assess", [d + "/f*"], np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    if np > 1:  # the lines of the processes may interleave
        return hash(tuple(h))
    got = re.findall(r"File: (.*)\n-\tNs: (.*)\n-\tNt: (.*)\n-\tInc: (.*)\n", so)
    if [x[0] for x in got] != [x[0] for x in want]:
        bad("files", f"reports {[os.path.basename(x[0]) for x in got]}, the files are {[os.path.basename(x[0]) for x in want]}")
        return 0
    for (n, ns, nt, inc), w in zip(got, want):
        if int(ns) != w[1] or int(nt) != w[2] or abs(float(inc) - w[3] * 1e-6) > 2e-5 * w[3] * 1e-6:
            bad("numbers", f"reports {nt} traces of {ns} samples at {inc}, {os.path.basename(n)} has {w[2]} of {w[1]} at {w[3]} us")
            return 0
        if w[4] not in x.stderr:
            bad("text", f"the text {w[4]!r} is not reported")
            return 0
    S.count("files_reported", len(got))
    return hash(tuple(h)) if want else None


def case_traceanalysis(S, r, d, np, rep, name, bad):
    nt, ns = r.randint(1, 40), r.randint(1, 30)
    g, kind, b = line_file(r, ns, 1000, nt, d + "/in.segy")
    t = r.randrange(nt)
    args = ["-i", d + "/in.segy"] + (["-t", str(t)] if t or r.random() < .5 else [])
    x, so, _ = util_run(S, "traceanalysis", args, np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    got = dict(re.findall(r"^(\w+) (\S+)$", so, re.M))
    for k, w in (("xSrc", "sx"), ("ySrc", "sy"), ("xRcv", "rx"), ("yRcv", "ry"), ("xCmp", "cx"), ("yCmp", "cy"), ("il", "il"), ("xl", "xl")):
        w = g[t][w]
        try:
            v = float(got[k])
        except (KeyError, ValueError):
            bad("missing", f"no {k} reported for trace {t}: {so!r}")
            return 0
        if v != w if k in ("il", "xl") else abs(v - w) > 6e-6 * abs(w):
            bad("value", f"reports {k} {got[k]} for trace {t} of {nt}, it is {w}")
            return 0
    S.count("values_reported", 8)
    return hash((b, t))


def case_segy2kml(S, r, d, np, rep, name, bad):
    files = []
    utm = r.random() < .6
    for i in range(r.randint(1, 3)):
        n = f"{d}/line{i}.{r.choice(['segy', 'sgy', 'SEGY'])}"
        for _ in range(20):
            g, kind, b = line_file(r, r.randint(1, 4), 1000, r.choice([1, 2, r.randint(3, 60)]), n)
            if (kind == "utm") == utm or kind != "utm" and i:
                break
        files.append((n, g, kind))
    zone = None
    if any(k == "utm" for _, _, k in files) or r.random() < .3:
        zone = (r.randint(1, 60), r.choice("NSns"))
    args = []
    if r.random() < .4:
        open(d + "/list", "w").write("".join(n + "\n" for n, _, _ in files))
        args += ["-i", d + "/list"]
    else:
        for n, _, _ in files:
            args += ["-i", n]
    folder = r.choice([None, "Survey 7"])
    args += ["-o", d + "/out.kml"] + (["-f", folder] if folder else []) + (["-z", f"{zone[0]}{zone[1]}"] if zone else [])
    x, so, _ = util_run(S, "segy2kml", args, np, rep, name)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    try:
        root = ET.fromstring(slurp(d + "/out.kml") or b"")
    except ET.ParseError as e:
        bad("xml", f"output is not well-formed: {e}")
        return 0
    K = "{http://www.opengis.net/kml/2.2}"
    if root.findtext(f"{K}Document/{K}Folder/{K}name") != (folder or "SEG-Y"):
        bad("folder", "the folder has another name")
    marks = root.findall(f".//{K}Placemark")
    if [m.findtext(K + "name") for m in marks] != [n for n, _, _ in files]:
        bad("marks", f"{len(marks)} placemarks for {len(files)} files")
        return 0
    for m, (n, g, kind) in zip(marks, files):
        c = [tuple(float(v) for v in p.split(",")) for p in m.find(f".//{K}coordinates").text.split()]
        X, Y = [q["sx"] for q in g], [q["sy"] for q in g]
        e = [(min(X), min(Y)), (max(X), max(Y))]
        tol = 2e-8
        if kind == "utm":
            e = [krueger(x, y, zone[0], zone[1] in "Ss")[::-1] for x, y in e]
            tol = 2.5e-5
        if len(c) != 2 or any(abs(p[0] - q[0]) > tol or abs(p[1] - q[1]) > tol or p[2] != 0 for p, q in zip(c, e)):
            bad("line", f"line {c} for the sources of {len(g)} traces from {min(X)}, {min(Y)} to {max(X)}, {max(Y)}{' in zone %d%s' % zone if kind == 'utm' else ''}: expected {e}")
            return 0
        S.count("lines_compared")
    return hash(tuple(str(g) for _, g, _ in files))


def case_radon(S, r, d, np, rep, name, bad):
    vb = r.choice([None, 1, r.randint(2, 40)])
    vbin = vb or 20
    osz = r.choice([None, 1, r.randint(2, 30)]) if r.random() < .5 else r.randint(2, 20)
    oan = osz or 60
    # model
    sg = lambda: r.randint(1, 5) * r.choice([1, 1, 1, -1])
    il0, xl0, dil, dxl, nil, nxl = r.randint(1, 999), r.randint(1, 999), sg(), sg(), r.randint(1, 6), r.randint(1, 6)
    vns, vinc = r.randint(1, 12), r.choice([500, 1000, 3000, 4000, 7000])
    vt = []
    for i in range(nil):
        for x in range(nxl):
            vt.append([G.f32(r.uniform(0, vbin * 14)) if r.random() < .8 else float(r.randint(-vbin, vbin * 20)) for _ in range(vns)])
    geo = [dict(il=il0 + dil * (i // nxl), xl=xl0 + dxl * (i % nxl), tn=i + 1) for i in range(nil * nxl)]
    open(d + "/vm.segy", "wb").write(G.header(vns, vinc) + b"".join(G.trace(g, v, r) for g, v in zip(geo, vt)))
    # gathers
    ns, inc = r.randint(2, 12), r.choice([1000, 2000, 4000])
    gs = []
    where = [r.randrange(nil * nxl) for _ in range(r.randint(1, 9))]
    where = [w for i, w in enumerate(where) if i == 0 or w != where[i - 1]]
    trs, hd = [], []
    for w in where:
        n = r.randint(1, 16)
        gs.append((w, len(trs), n))
        for _ in range(n):
            trs.append([G.f32(r.uniform(-1000, 1000)) for _ in range(ns)])
            hd.append(dict(il=geo[w]["il"], xl=geo[w]["xl"], tn=len(trs)))
    b = G.header(ns, inc) + b"".join(G.trace(g, t, r) for g, t in zip(hd, trs))
    open(d + "/in.segy", "wb").write(b)
    env = {"EXSEISDAT_MEMLIM": str(r.randint(2, 20) * 1500)} if r.random() < .4 else None
    args = ["-i", d + "/in.segy", "-o", d + "/out", "-v", d + "/vm.segy"] + (["-b", str(vb)] if vb else []) + (["-a", str(osz)] if osz else [])
    x, so, _ = util_run(S, "radon", args, np, rep, name, env=env)
    if x is None:
        return None
    if x.rc != 0:
        bad("rc", f"exit status {x.rc}: {x.stderr[-300:]}")
        return 0
    o = G.File(slurp(d + "/out.segy") or b"")
    if not o.ok or (o.ns, o.nt, o.rest) != (ns, len(gs) * oan, 0):
        bad("size", f"output of {len(o.b)} bytes: {getattr(o, 'nt', 0)} traces of {getattr(o, 'ns', 0)}, expected {len(gs) * oan} of {ns}")
        return 0
    deg = math.atan(1) * 4 / 180
    for q, (w, at, n) in enumerate(gs):
        for j in range(oan):
            i = q * oan + j
            if (o.get(i, "il"), o.get(i, "xl")) != (geo[w]["il"], geo[w]["xl"]):
                bad("lines", f"trace {j} of gather {q} is at {o.get(i, 'il')}/{o.get(i, 'xl')}, expected {geo[w]['il']}/{geo[w]['xl']}")
                return 0
            s = o.samples(i)
            for z in range(ns):
                ok, e = False, None
                for dv in (0, -1e-9, 1e-9):
                    v = vt[w][min(int(max(0, z * inc / vinc + dv)), vns - 1)]
                    for dk in (0, -1e-7, 1e-7):
                        y = v / math.cos(j * deg) + dk
                        k = math.floor(abs(y) + .5) * (1 if y > 0 else -1)
                        k = k // vbin if k >= 0 else -1
                        t = trs[at + k][z] if 0 < k < n else 0
                        e = t if e is None else e
                        ok = ok or s[z] == t
                if not ok:
                    bad("samples", f"gather {q} of {n} traces, angle {j}, sample {z} is {s[z]}, expected {e}")
                    return 0
    S.count("traces_compared", o.nt)
    return hash((b, vbin, oan))


def case_unread(S, r, d, np, rep, name, bad):
    """files that cannot be read or written are reported by the exit status"""
    util = r.choice(["assess", "traceanalysis", "segy2kml", "radon"])
    how = r.choice(["missing", "READ", "READ"])
    if util == "radon":
        how = r.choice(["missing", "model", "place", "READ", "WRITE", "RESIZE"])
    g, t, b = some_file(r, 4, 1000, r.randint(3, 30))
    for f in ("/in.segy", "/vm.segy"):
        open(d + f, "wb").write(b)
    i, o, v = d + "/in.segy", d + "/out", d + "/vm.segy"
    if how == "missing":
        i = d + "/none.segy"
    if how == "model":
        v = d + "/none.segy"
    if how == "place":
        o = d + "/nowhere/out"
    nth = r.randint(1, 2) if how in ("READ", "WRITE", "RESIZE") else 0
    env = {"MON_FAULT": f"{how}:{nth}"} if nth else None
    args = dict(assess=[i], traceanalysis=["-i", i, "-t", "1"], segy2kml=["-i", i, "-o", o + ".kml"], radon=["-i", i, "-o", o, "-v", v])[util]
    name += f" ({util}: {how} {nth or ''})"
    x, so, out = util_run(S, util, args, np, rep, name, env=env, audit=False)
    if x is None:
        return None
    hits = 1
    if nth:
        fs = glob.glob(out + "/life.*")
        hits = 0 if fs else x.rc
        for f in fs:
            hits += int(dict(l.split(None, 1) for l in open(f).read().splitlines() if l.strip())["faults"])
    if hits and x.rc == 0:
        S.fail(f"{util}:status:{how}", f"{name}: ended with exit status 0", rep)
    S.count("failures_delivered", 1 if hits else 0)
    S.dset("failures", f"{util} {how} {nth}")
    return hash((util, how, nth)) if hits else None


def reports(n, first=0, nps=(1, 2, 3, 5, 8)):
    jobs = []
    for k in range(first, first + n):
        for u, w in (("assess", 1), ("traceanalysis", 1), ("segy2kml", 2), ("radon", 2), ("unread", 2)):
            for j in range(w):
                np = nps[(k * 7 + j * 3 + len(u)) % len(nps)]
                if u == "assess" and k % 2:
                    np = 1
                jobs.append((np, utility(u, k * w + j, np)))
    return jobs
