"""C13: seeded schedules of threads sharing numbers (simulator in sim/sched)."""
import json, os, subprocess, time

RULE = ("every run is one seeded plan (2-4 threads (one run in 25: up to 20), 1-3 shared numbers, up to 8 calls per thread, allocation faults) under one seeded schedule that may hand over at every instrumented "
        "memory access, allocation, release and synchronisation call of library code; runs count as distinct when results, schedule and event count hash differently; every run makes concurrent library calls whose results are judged")
ASSUME = ["seeded sampling of schedules and plans: a clean run is evidence, not proof",
          "real code: every template and source file of the library and the libstdc++ templates it instantiates, for 7 shipped digit bases and one user-defined base, on real threads released one at a time",
          "precompiled libstdc++ and libc code runs atomically between scheduling points; memory order is sequentially consistent, but the happens-before check also rejects unordered conflicting accesses that these schedules happen to tolerate",
          "stubs: the allocator behind operator new/delete and malloc, mutexes, once-flags and initialisation guards (simulated, same interface)",
          "oracle: the same thread's calls executed alone in a process of their own; vector-clock happens-before check for every access to heap and global memory"]


def explore(m, exe, seed, runs, seconds, jobs, keep=0, first=0):
    try:
        p = subprocess.run([exe, "explore", "--seed", str(seed), "--runs", str(runs), "--seconds", str(int(seconds)), "--jobs", str(jobs), "--first", str(first), "--keep", str(keep)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=m.ENV, timeout=seconds + 500)
    except subprocess.TimeoutExpired:
        m.die("exploration did not stop")
    if p.returncode: m.die("schedule explorer failed (%d): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-800:]))
    return json.loads(p.stdout.decode("utf-8", "replace"))


def plan(m, exe, seed, run):
    return subprocess.run([exe, "plans", "--seed", str(seed), "--run", str(run)], stdout=subprocess.PIPE, env=m.ENV, check=True).stdout.decode()


def check(m, seed, tier):
    t0 = time.time()
    exe = m.build("schedsim")
    tb = time.time() - t0
    runs, seconds = (70000, 90) if tier == "quick" else (600000, 600)
    runs = max(50, int(runs * float(os.environ.get("VERIF_SCALE", "1"))))
    for path, what in m.known_findings("C13"):
        c, _, _, ok = m.replay_once(exe, open(os.path.join(m.HERE, path)).read())
        if ok and c is not None: print("KNOWN-FINDING: property=C13 %s" % what)
    res = explore(m, exe, seed, runs, seconds, m.JOBS)
    nviol = 0
    found = list(res["violations"])
    if found:
        for rnd in range(2):
            for v in found[:20]:
                if m.report_violation("C13", exe, plan(m, exe, seed, v["run"]), seed, "run %d" % v["run"]):
                    nviol += 1; break
            if nviol or rnd: break
            found = explore(m, exe, seed, min(runs, 4000), 30, m.JOBS, keep=1)["violations"]
    gate = {"runs_repeated": 0, "mismatches": 0, "replays": 0, "replay_mismatches": 0}
    if not res["violations"]:
        for jobs, n in ((3, 400), (1, 100)):
            again = explore(m, exe, seed, min(n, len(res["hashes"])), 100, jobs)
            gate["runs_repeated"] += len(again["hashes"])
            gate["mismatches"] += sum(1 for a, b in zip(res["hashes"], again["hashes"]) if a != b)
        for i in range(0, min(40, len(res["hashes"]))):       # explicit schedules reproduce the seeded run
            if res["hashes"][i] == "2": continue
            text = plan(m, exe, seed, i)
            a = m.replay_once(exe, text); b = m.replay_once(exe, text)
            gate["replays"] += 1
            gate["replay_mismatches"] += not (a[0] is None and a[3] and a[1] == b[1])
    wall = time.time() - t0
    hours = max(res["wall"], 1e-3) / 3600
    cov = {"evaluations": res["runs"], "distinct_nontrivial": res["distinct_runs"], "rule": RULE,
           "samples": [plan(m, exe, seed, k)[:1800] for k in (0, 1, 5)],
           "runs_per_hour": int(res["runs"] / hours), "seeds_per_hour": int(res["runs"] / hours), "simulated_time_scheduling_events": res["events"],
           "context_switches_injected": res["switches"], "forced_switches": res["forced"], "switches_log2_histogram": res["switches_log2_histogram"],
           "distinct_interleavings_measure": "distinct sequences of (thread, event number, next thread) among runs with at least one switch",
           "distinct_interleavings": res["distinct_schedules"], "distinct_code_locations_preempted_at": res["preemption_points"],
           "synchronisation_operations": res["syncs"], "memory_accesses_checked_for_ordering": res["checked"],
           "library_calls": res["ops"], "calls_failed_by_fault_then_retried": res["failed_ops"], "operations_skipped": res["ops_skipped"],
           "faults_fired_allocation": {k: v for k, v in res["faults"].items() if v}, "calls_by_operation": res["op_count"], "faulted_calls_by_operation": res["op_fault"],
           "runs_by_digit_type": res["instances"], "runs_by_threads": res["threads"], "runs_without_verdict_because_a_thread_alone_fails": res["skipped_runs"],
           "determinism_gate": gate, "build_s": round(tb, 1), "runs_planned": runs}
    m.write_evidence("C13", tier, seed, cov, wall, nviol, ASSUME)
    if nviol: return 1
    if res["violations"]: m.die("a violation was seen but did not replay identically: %s" % json.dumps(res["violations"][:2]))
    if gate["mismatches"] or gate["replay_mismatches"]: m.die("same seed gave different runs: %s" % gate)
    if res["runs"] < max(1, res["skipped_runs"]): m.die("nothing explored: %d of %d runs cannot even run alone" % (res["skipped_runs"], res["skipped_runs"] + res["runs"]))
    print("property C13 held: %d runs, %d distinct interleavings, %d context switches, %d calls failed by injected faults, %.0f runs/s" %
          (res["runs"], res["distinct_schedules"], res["switches"], res["failed_ops"], res["runs"] / max(res["wall"], 1e-3)))
    return 0
