#!/usr/bin/env python3
"""Orchestrates one check: build the simulator from /repo's working tree, prove determinism on a
sample, search seeded runs, and minimise and re-verify whatever is found.

  check.py --prop C05            exit 0: held on everything explored
                                 exit 1: VIOLATION property=C05 replay=<path>
                                 other : the check itself could not give an answer
  check.py --replay FILE         replay a recorded violation (same exit codes)
  check.py --build               only build
Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick)."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BIGNUM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:color=never",
           LC_ALL="C")
CXX = "g++"
COMMON = ["-std=gnu++11", "-w", "-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie"]
ASAN = ["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"]

# property -> (quick epochs, quick seconds, thorough epochs, thorough seconds); an epoch is 60 runs in one process
PLAN = {
    "C01": (6000, 90, 30000, 600), "C02": (2700, 90, 12000, 600), "C03": (6000, 90, 30000, 600), "C04": (7500, 90, 40000, 600),
    "C05": (7500, 90, 40000, 600), "C06": (6000, 90, 30000, 600), "C07": (6000, 90, 30000, 600), "C08": (7500, 90, 40000, 600),
    "C09": (7500, 90, 40000, 600), "C10": (3600, 90, 15000, 600), "C11": (1350, 90, 6000, 600), "C12": (7500, 90, 40000, 600),
    "C14": (7500, 90, 40000, 600), "C15": (7500, 90, 40000, 600), "C16": (6000, 90, 30000, 600), "C17": (4800, 90, 24000, 600),
    "C18": (12000, 90, 80000, 600),
    "C13": (0, 90, 0, 600), "C19": (2400, 90, 20000, 600), "C20": (1050, 90, 7000, 600), "C21": (90, 90, 2000, 600),
    "C22": (900, 90, 10000, 600), "C23": (2400, 90, 20000, 600),
}
RULE = ("every run is one plan drawn from a single 64-bit seed: digit base and container, operands, operations, aliasing and every fault; "
        "a run counts as distinct when its event log (outcomes, allocation counts, faults fired, every resulting digit) hashes differently from all others, "
        "and as non-trivial because every plan performs at least one library operation whose outcome is judged")


def die(msg, code=2):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def all_inputs():
    fs = [f for f in glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True) if os.path.isfile(f)]
    fs += [f for f in glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True) if os.path.isfile(f)]
    fs += [f for f in glob.glob(os.path.join(SIM, "**", "*"), recursive=True) if os.path.isfile(f)]
    return fs + [os.path.abspath(__file__)]


def run_parallel(cmds, optional=()):
    """optional: source files that may fail to compile; they are retried with -DSIM_STUB"""
    procs, errs, i = [], [], 0
    while i < len(cmds) or procs:
        while i < len(cmds) and len(procs) < JOBS:
            procs.append((cmds[i], subprocess.Popen(cmds[i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))); i += 1
        for c, p in list(procs):
            if p.poll() is not None:
                out = p.stdout.read().decode("utf-8", "replace")
                src = c[c.index("-c") + 1]
                if p.returncode and os.path.basename(src) in optional and "-DSIM_STUB" not in c: cmds.append(c + ["-DSIM_STUB"])
                elif p.returncode: errs.append(" ".join(c) + "\n" + out[-3000:])
                procs.remove((c, p))
        time.sleep(0.02)
    return errs


def build(which):
    key = tree_hash(all_inputs())
    root = os.path.join(HERE, "build")
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(root, "lock-" + which), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(root, which + "-" + key)
    exe = os.path.join(d, which)
    if os.path.exists(exe):
        return exe
    for old in sorted(glob.glob(os.path.join(root, which + "-*")), key=os.path.getmtime)[:-6]:
        shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
    cmds, objs = [], []

    def add(src, flags, tag=""):
        o = os.path.join(d, tag + hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        objs.append(o)
        cmds.append([CXX] + COMMON + flags + inc + ["-c", src, "-o", o])
        return o
    if which == "faultsim":
        for s in sorted(glob.glob(os.path.join(SIM, "inst_*.cpp"))) + repo_sources():
            add(s, ASAN + ["-fsanitize-coverage=trace-pc"])
        harness = [s + ".cpp.o" for s in ("exec", "gen", "main", "seam", "model", "plan")]
        for s in ["exec", "gen", "main", "seam", "model", "plan"]:
            add(os.path.join(SIM, s + ".cpp"), ASAN)
        # initialisers run in link order: the harness first, then the users of the library, the library itself last
        first = lambda o: 0 if os.path.basename(o).split("_", 1)[1] in harness else 1 if "_inst_" in os.path.basename(o) else 2
        objs.sort(key=first)
        link = [CXX, "-no-pie", "-fsanitize=address"] + objs + ["-Wl," + ",".join("--wrap=" + f for f in WRAP_ALLOC + WRAP_ENV), "-o", exe + ".tmp"]
    else:
        for s in sorted(glob.glob(os.path.join(SIM, "sched", "lib_*.cpp"))) + repo_sources():
            add(s, ["-fsanitize=thread", "-pthread", "-DSIM_SCHED"])
        for s in ["sched/sched_main", "model", "plan"]:
            add(os.path.join(SIM, s + ".cpp"), ["-fsanitize=thread", "-pthread", "-DSIM_SCHED"])
        add(os.path.join(SIM, "sched", "rt.cpp"), ["-pthread", "-O2", "-DSIM_SCHED"])
        link = [CXX, "-no-pie", "-pthread"] + objs + WRAPS + ["-o", exe + ".tmp"]
    # instances beyond the shipped number types: the explorer works without them
    errs = run_parallel(cmds, ("inst_fft.cpp", "inst_deque.cpp", "inst_dbg.cpp", "inst_tight.cpp", "inst_u256.cpp", "inst_u1000.cpp", "lib_u256.cpp"))
    if errs:
        die("the simulator does not build against %s:\n%s" % (REPO, errs[0]), 2)
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        die("link failed:\n" + r.stdout.decode("utf-8", "replace")[-3000:], 2)
    for o in objs: os.unlink(o)
    os.rename(exe + ".tmp", exe)
    return exe


WRAP_ALLOC = ["malloc", "free", "calloc", "realloc"]
WRAP_ENV = ["time", "clock", "clock_gettime", "gettimeofday", "rand", "random", "getpid", "getenv", "_ZNSt6chrono3_V212steady_clock3nowEv",
            "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device9_M_getvalEv"]
WRAPS = ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "malloc", "free", "calloc", "realloc")), "-rdynamic", "-ldl"]


# ---- single executions ------------------------------------------------------------------------
def replay_once(exe, text, trace=False, timeout=200):
    """-> (class or None, hash, detail, ok)  class None: no violation"""
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write(text); name = f.name
    try:
        cmd = [exe, "replay", "--file", name] + (["--trace", "1"] if trace else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        except subprocess.TimeoutExpired:
            return ("crash: no progress (wall clock)", "", "", True)
        out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        if trace: sys.stderr.write(err)
        m = re.search(r"^RESULT (\w+) hash=(\w+)(.*)$", out, re.M)
        if p.returncode == 0 and m: return (None, m.group(2), "", True)
        if p.returncode == 1 and m:
            c = re.search(r"class=(.*)$", m.group(3)).group(1)
            dm = re.search(r"^DETAIL (.*)", out, re.M | re.S)
            return (c, m.group(2), dm.group(1).strip() if dm else "", True)
        if p.returncode in (3, 4): return (None, "", err[-500:], False)
        if p.returncode == 77:
            k = re.search(r"AddressSanitizer: ([\w-]+)", err)
            loc = re.search(r"#\d+ \S+ in (.*?) (/repo\S*)", err)
            return ("crash: " + (k.group(1) if k else "sanitizer"), "", "AddressSanitizer " + (k.group(1) if k else "?") + (" in " + loc.group(2) if loc else ""), True)
        if p.returncode == 78: return ("crash: step limit exceeded", "", "an operation ran past its step bound", True)
        if p.returncode == 79: return ("crash: bad free", "", "memory released twice or never allocated", True)
        if p.returncode == -14: return ("crash: no progress (wall clock)", "", "", True)
        if p.returncode < 0: return ("crash: signal %d" % -p.returncode, "", err[-400:].strip(), True)
        return (None, "", "unexpected exit %d: %s" % (p.returncode, err[-300:]), False)
    finally:
        os.unlink(name)


def parse(text):
    head, runs = [], []
    for l in text.splitlines():
        if l.startswith("run "): runs.append([l])
        elif l.startswith("op "): runs[-1].append(l)
        elif l.strip() and not l.startswith("#"): head.append(l)
    return head, runs


def unparse(head, runs):
    return "\n".join(head + [l for r in runs for l in r]) + "\n"


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n); some = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand): items = cand; some = True
            else: i += size
        if not some:
            if size == 1: break
            n = min(len(items), n * 2)
        else: n = max(2, n - 1)
    return items


def minimise(exe, text, cls, deadline):
    evals = [0]

    def bad(t):
        evals[0] += 1
        c, _, _, ok = replay_once(exe, t, timeout=60)
        return ok and c == cls
    head, runs = parse(text)
    if bad(unparse(head, runs[-1:])): runs = runs[-1:]
    else: runs = ddmin(runs[:-1], lambda r: bad(unparse(head, r + [runs[-1]])), deadline) + [runs[-1]]
    for k in range(len(runs) - 1, -1, -1):
        pre, post = runs[:k], runs[k + 1:]
        runs[k] = [runs[k][0]] + ddmin(runs[k][1:], lambda ops: bad(unparse(head, pre + [[runs[k][0]] + ops] + post)), deadline)
    # simplify single fields
    for k in range(len(runs)):
        for i in range(1, len(runs[k])):
            for pat in (r" rep=\d+", r" f=\S+", r" sf=\S+", r" retry=1", r" restore=\d", r" sweep=\d", r" how=\d", r" at=[ard]:\d+"):
                if time.time() > deadline: break
                if re.search(pat, runs[k][i]):
                    cand = re.sub(pat, " at=s:0" if "at=" in pat else "", runs[k][i]); old = runs[k][i]
                    runs[k][i] = cand
                    if not bad(unparse(head, runs)): runs[k][i] = old
            m = re.search(r" digits=(\S+)", runs[k][i])
            if m:
                ds = m.group(1).split(",")

                def with_digits(x):
                    return re.sub(r" digits=\S+", (" digits=" + ",".join(x)) if x else "", base)
                base = runs[k][i]

                def tst(x):
                    runs[k][i] = with_digits(x)
                    return bad(unparse(head, runs))
                best = ddmin(ds, tst, deadline)
                if len(best) <= 40:
                    for z in range(len(best)):
                        if best[z] not in ("0", "1") and time.time() < deadline:
                            for v in ("0", "1"):
                                c2 = best[:z] + [v] + best[z + 1:]
                                if tst(c2): best = c2; break
                runs[k][i] = with_digits(best)
    return unparse(head, runs), evals[0]


def report_violation(prop, exe, text, seed, origin, expect_cls=None):
    """Gate, minimise, gate again, write the replay file, print the line. Returns False if not reproducible."""
    a = replay_once(exe, text); b = replay_once(exe, text)
    if not a[3] or a[0] is None or a[:2] != b[:2]:
        return False
    cls = a[0]
    small, evals = minimise(exe, text, cls, time.time() + 60)
    r1 = replay_once(exe, small); r2 = replay_once(exe, small)
    if r1[0] != cls or r1[:2] != r2[:2]:
        small, r1 = text, a
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    name = os.path.join(d, "%s-%s.plan" % (prop, hashlib.sha1(small.encode()).hexdigest()[:10]))
    with open(name, "w") as f:
        f.write("# property %s violated: %s\n" % (prop, cls))
        for l in r1[2].splitlines()[:6]: f.write("# %s\n" % l)
        f.write("# VERIF_SEED=%s %s; minimised in %d executions; replay: /verif/check.py --replay %s\n" % (seed, origin, evals, name))
        if r1[1]: f.write("# event log hash %s\n" % r1[1])
        f.write(small)
    print("property %s: %s" % (prop, cls))
    print("  " + r1[2].replace("\n", "\n  ")[:1200])
    print("  seed %s, %s; minimised to %d operations" % (seed, origin, small.count("\nop ") + small.count("\nstep ")))
    print("VIOLATION property=%s replay=%s" % (prop, name), flush=True)
    return True


# ---- exploration ------------------------------------------------------------------------------
def explore(exe, prop, seed, tier, epochs, seconds, jobs, first=0, keep=0):
    scratch = tempfile.mkdtemp(prefix="faultsim")
    try:
        p = subprocess.run([exe, "explore", "--prop", prop, "--seed", str(seed), "--epochs", str(epochs), "--seconds", str(int(seconds)), "--jobs", str(jobs),
                            "--dir", scratch, "--first", str(first), "--tier", "1" if tier == "thorough" else "0", "--keep", str(keep)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=seconds + 400)
    except subprocess.TimeoutExpired:
        die("exploration did not stop")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode not in (0, 1):
        die("explorer failed (%d): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-800:]))
    return json.loads(p.stdout.decode("utf-8", "replace"))


def epoch_text(exe, prop, seed, tier, epoch, upto, frm=0):
    return subprocess.run([exe, "plans", "--prop", prop, "--seed", str(seed), "--epoch", str(epoch), "--run", str(upto), "--from", str(frm), "--tier", "1" if tier == "thorough" else "0"],
                          stdout=subprocess.PIPE, env=ENV, check=True).stdout.decode()


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "assumptions": assumptions,
                   "wall_s": round(wall, 3), "violations": violations}, f, indent=1, sort_keys=True)
        f.write("\n")


ASSUME = ["seeded sampling of plans: a clean run is evidence, not proof",
          "real code: every template and source file of the library, instantiated for 7 shipped and 2 user-defined digit bases on std::vector, a minimal-capacity vector and a deque; libstdc++ containers and streams",
          "stubs: the allocator behind operator new/delete and the stream buffers (simulated devices)",
          "the oracle is an independent schoolbook big-integer model in /verif/sim/model.cpp"]


def check_fault(prop, seed, tier):
    t0 = time.time()
    exe = build("faultsim")
    tb = time.time() - t0
    qe, qs, te, ts = PLAN[prop]
    epochs, seconds = (qe, qs) if tier == "quick" else (te, ts)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    epochs = max(8, int(epochs * scale))
    for path, what in known_findings(prop):
        c, _, _, ok = replay_once(exe, open(os.path.join(HERE, path)).read())
        if ok and c is not None: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    res = explore(exe, prop, seed, tier, epochs, seconds, JOBS)
    nviol = 0
    done = False
    if res["violations"]:
        tries = list(res["violations"])
        for v in tries:
            text = epoch_text(exe, prop, seed, tier, v["epoch"], v["run"])
            if report_violation(prop, exe, text, seed, "epoch %d run %d" % (v["epoch"], v["run"])):
                nviol += 1; done = True; break
        if not done:                                    # look for others before giving up
            more = explore(exe, prop, seed, tier, min(epochs, 400), 30, JOBS, keep=1)
            for v in more["violations"][:30]:
                text = epoch_text(exe, prop, seed, tier, v["epoch"], v["run"])
                if report_violation(prop, exe, text, seed, "epoch %d run %d" % (v["epoch"], v["run"])):
                    nviol += 1; done = True; break
    gate = {"epochs_repeated": 0, "mismatches": 0}
    if not res["violations"]:
        n = min(24, len(res["epoch_hashes"]))
        for jobs in (3, 1):
            k = n if jobs == 3 else max(1, n // 4)
            again = explore(exe, prop, seed, tier, k, 120, jobs)
            gate["epochs_repeated"] += len(again["epoch_hashes"])
            gate["mismatches"] += sum(1 for a, b in zip(res["epoch_hashes"], again["epoch_hashes"]) if a != b)
    wall = time.time() - t0
    hours = max(res["wall"], 1e-3) / 3600
    cov = {"evaluations": res["runs"], "distinct_nontrivial": res["distinct_runs"], "rule": RULE,
           "samples": [epoch_text(exe, prop, seed, tier, 0, k, k)[:1500] for k in (0, 1, 7)],
           "runs_per_hour": int(res["runs"] / hours), "seeds_per_hour": int(res["runs"] / hours),
           "library_calls": res["attempts"], "calls_completed": res["ok_attempts"], "calls_failed": res["failed_attempts"], "operations_skipped": res["skipped"],
           "simulated_time_control_flow_steps": res["steps"], "allocations": res["allocs"],
           "faults_fired_allocation": {k: v for k, v in res["alloc_faults"].items() if v}, "faults_fired_streams": {k: v for k, v in res["stream_faults"].items() if v},
           **({"stages_entered": res["stages"]} if prop == "C21" else {}), **({"changes_of_surroundings": res["surroundings"]} if prop == "C22" else {}),
           **({"calls_back_into_the_library": res["reentries"], "runs_not_judged_because_they_fail_without_reentry": res["unjudged"]} if prop == "C23" else {}),
           "first_failed_allocation_histogram": res["failed_at_allocation"],
           "distinct_interleavings_measure": "distinct control-flow paths of single library calls (hash of the executed edge sequence with operation and outcome)",
           "distinct_control_flow_paths": res["distinct_paths"], "edges_reached": res["edges"], "largest_step_count_permille_of_bound": res["max_step_permille"], "largest_memory_permille_of_bound": res["max_memory_permille"],
           "calls_by_operation": res["op_attempts"], "faulted_calls_by_operation": res["op_faulted"], "runs_by_digit_type_and_container": res["instances"],
           "rare_condition_probes": {k: v for k, v in res["probes"].items()}, "determinism_gate": gate, "build_s": round(tb, 1),
           "epochs_completed": res["epochs_done"], "epochs_planned": epochs}
    write_evidence(prop, tier, seed, cov, wall, nviol, ASSUME)
    if nviol: return 1
    if res["violations"]: die("a violation was seen but did not replay identically: %s" % json.dumps(res["violations"][:2]))
    if gate["mismatches"]: die("same seed gave different event logs")
    if res["runs"] == 0: die("nothing explored")
    print("property %s held: %d runs (%d distinct), %d library calls, %d failed by injected faults, %.0f runs/s" %
          (prop, res["runs"], res["distinct_runs"], res["attempts"], res["failed_attempts"], res["runs"] / max(res["wall"], 1e-3)))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--replay"); ap.add_argument("--build", action="store_true"); ap.add_argument("--trace", action="store_true"); ap.add_argument("--tier", choices=("quick", "thorough"))
    a = ap.parse_args()
    if a.build:
        build("faultsim")
        if os.path.isdir(os.path.join(SIM, "sched")): build("schedsim")
        return 0
    if a.replay:
        text = open(a.replay).read()
        prop = re.search(r"^prop (\S+)", text, re.M).group(1)
        exe = build("schedsim" if prop == "C13" else "faultsim")
        c, h, det, ok = replay_once(exe, text, a.trace)
        if not ok: die("replay failed: " + det)
        if c is None: print("no violation on replay (hash %s)" % h); return 0
        print("%s\n%s" % (c, det)); print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay))); return 1
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if prop not in PLAN: die("unknown property")
    if prop == "C13":
        sys.path.insert(0, HERE)
        import sched_check
        return sched_check.check(sys.modules[__name__], seed, tier)
    return check_fault(prop, seed, tier)


if __name__ == "__main__":
    sys.exit(main())
