"""Supervisor: launches monitored runs under mpirun, watches their progress,
and turns what the monitors recorded into findings."""
import glob, json, mmap, os, re, shutil, signal, struct, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLK = os.sysconf("SC_CLK_TCK")


def scratch(prefix):
    for base in ("/dev/shm", "/tmp"):
        try:
            if shutil.disk_usage(base).free > (2 << 30) and os.access(base, os.W_OK):
                return tempfile.mkdtemp(prefix=prefix, dir=base)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix=prefix)


def mpi_env(tmp, out, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "ASAN_", "UBSAN_"))}
    e.update({
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
        "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_plm": "isolated", "OMPI_MCA_mpi_yield_when_idle": "1",
        "OMPI_MCA_rmaps_base_oversubscribe": "1",
        "OMPI_MCA_btl_vader_backing_directory": tmp,
        "OMPI_MCA_osc_sm_backing_directory": tmp,
        "OMPI_MCA_orte_tmpdir_base": tmp,
        "OMPI_MCA_hwloc_base_binding_policy": "none",
        # the aggregating collective-I/O components are ~15x slower here; plans
        # also run a share of the cases with the default one
        "OMPI_MCA_fcoll": "individual",
        # Open MPI's data sieving rewrites the gaps of a strided write, with stale bytes where another process
        # writes them meanwhile and with undefined bytes beyond the end of the file
        "OMPI_MCA_fbtl_posix_write_datasieving": "false",
        "TMPDIR": tmp,
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:log_path=%s/san:handle_abort=0:detect_stack_use_after_return=0:"
                        "max_malloc_fill_size=1048576:malloc_fill_byte=190:print_suppressions=0:allocator_may_return_null=1" % out,
        "UBSAN_OPTIONS": "print_stacktrace=1:log_path=%s/san" % out,
    })
    e.update(extra or {})
    if e.get("OMPI_MCA_fcoll") == "default":
        e.pop("OMPI_MCA_fcoll")
    return e


def mpi_cmd(np, argv):
    return ["mpirun", "--oversubscribe", "-np", str(np)] + argv


def read_status(path):
    try:
        with open(path, "rb") as f:
            b = f.read(4096)
    except OSError:
        return None
    if len(b) < 216:
        return None
    v = struct.unpack_from("<8Q", b, 0)
    if v[0] != 0x4d4f4e31:
        return None
    s = lambda o, n: b[o:o + n].split(b"\0")[0].decode("latin1")
    return dict(events=v[1], in_mpi=v[2], cases=v[3], case_no=v[4], np=v[5], phase=v[6], harness=v[7],
                call=s(64, 64), scen=s(128, 64))


def pids_of_group(pgid):
    out = []
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open(f"/proc/{d}/stat") as f:
                t = f.read()
        except OSError:
            continue
        r = t[t.rindex(")") + 2:].split()
        if int(r[3]) == pgid or int(r[2]) == pgid:  # session or group
            out.append((int(d), (int(r[11]) + int(r[12])) / CLK, t[t.index("(") + 1:t.rindex(")")]))
    return out


class Result:
    pass


def launch(cmd, env, out, np, wall, stuck=25.0, cwd=None, stdin=None, livelock=0):
    """run cmd; returns Result(rc, hang: bool, status[], stderr)"""
    os.makedirs(out, exist_ok=True)
    r = Result()
    t0 = time.time()
    with open(out + "/stderr", "wb") as fe, open(out + "/stdout", "wb") as fo:
        p = subprocess.Popen(cmd, env=env, stdout=fo, stderr=fe, stdin=stdin or subprocess.DEVNULL, start_new_session=True, cwd=cwd)
        last, last_t, cpu0 = None, time.time(), 0.0
        lcase, lcase_t = None, time.time()
        r.hang, r.timeout = False, False
        poll = 0.02
        while True:
            try:
                p.wait(timeout=poll)
                break
            except subprocess.TimeoutExpired:
                poll = min(0.25, poll * 1.5)
            st = [read_status(f"{out}/status.{k}") for k in range(np)]
            sig = tuple((s["events"], s["cases"], s["phase"], s["harness"]) if s else None for s in st)
            now = time.time()
            if sig != last:
                last, last_t = sig, now
                cpu0 = sum(c for _, c, n in pids_of_group(p.pid))
            elif now - last_t > stuck and all(s for s in st):
                # no process has entered or left an MPI call for `stuck` seconds;
                # require that they really had processor time in the meantime
                cpu = sum(c for _, c, n in pids_of_group(p.pid)) - cpu0
                if cpu > stuck * 0.25 or now - last_t > 6 * stuck:
                    r.hang = True
            # one case going on for ever although MPI calls are being made
            case = tuple((s["cases"], s["phase"], s["harness"]) if s else None for s in st)
            if case != lcase:
                lcase, lcase_t = case, now
            elif livelock and now - lcase_t > livelock and all(s and not s["harness"] for s in st):
                r.hang = True
            if now - t0 > wall:
                r.timeout = True
            if r.hang or r.timeout:
                r.status = st
                break
        if r.hang or r.timeout:
            for sg in (signal.SIGTERM, signal.SIGKILL):
                for pid, _, _ in pids_of_group(p.pid):
                    try:
                        os.kill(pid, sg)
                    except OSError:
                        pass
                time.sleep(0.3)
            p.wait()
        # never leave ranks behind
        for pid, _, _ in pids_of_group(p.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    r.rc = p.returncode
    r.wall = time.time() - t0
    if not (r.hang or r.timeout):
        r.status = [read_status(f"{out}/status.{k}") for k in range(np)]
    r.stderr = open(out + "/stderr", "rb").read()[-20000:].decode("latin1")
    r.stdout = open(out + "/stdout", "rb").read()[-200000:].decode("latin1")
    return r


def san_reports(out):
    """[(kind, function, text)] of the sanitizer logs in out"""
    reps = []
    for f in sorted(glob.glob(out + "/san.*")):
        t = open(f, "rb").read()[:60000].decode("latin1")
        kind = None
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
        if m:
            kind = m.group(1)
        else:
            m = re.search(r"runtime error: ([^\n]{0,120})", t)
            if m:
                kind = "ub: " + re.sub(r"-?\d[\d.e+]*", "N", m.group(1))
        if not kind:
            continue
        fn = "?"
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", t):
            if "/repo/" in m.group(2):
                fn = re.sub(r"\(.*", "", m.group(1)).split("::")[-1] + "@" + os.path.basename(m.group(2).split(":")[0])
                break
        loc = re.search(r"(/repo/\S+?:\d+)", t)
        reps.append((kind, fn, (loc.group(1) if loc else "") + " " + t[:3000]))
    return reps


def read_viols(out):
    v = []
    for f in sorted(glob.glob(out + "/viol.*.jsonl")):
        for line in open(f, encoding="latin1"):
            try:
                v.append(json.loads(line))
            except ValueError:
                pass
    return v


def read_results(out):
    r = []
    for f in sorted(glob.glob(out + "/result.*.json")):
        try:
            r.append(json.load(open(f, encoding="latin1")))
        except ValueError:
            pass
    return r


def where(st):
    return "; ".join(f"process {k}: " + ("in " + s["call"] if s["in_mpi"] else f"computing after {s['call']}") + (" (done)" if s["phase"] == 2 else "")
                     for k, s in enumerate(st) if s)
