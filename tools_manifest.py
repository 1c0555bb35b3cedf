#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in one place so notes stay in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
FS = "deterministic simulation with fault injection: seeded search over operation histories with injected %s, judged against an executable reference model"
NOTE = ("Seeded sampling: a clean run is evidence, not proof. Real library code (all templates and sources, 7 shipped and 2 user digit types, 3 containers, default and BN_DEBUG configuration) runs under a simulated "
        "allocator and simulated stream devices; %s Trusted: the schoolbook model in sim/model.cpp, libstdc++, AddressSanitizer.")
T = {
 "C01": ("allocation failures", "values are compared digit for digit with the model after every call of the history, retries after failures and aliasing included."),
 "C02": ("allocation failures", "products (all operand lengths up to a few thousand digits, lopsided and extreme-digit operands) are compared with the model."),
 "C03": ("allocation failures", "quotients are compared with truncated model division, division by every spelling of zero must give an infinity."),
 "C04": ("allocation failures (a total outage during comparisons)", "all six operators are compared with the model's order between arbitrary history steps."),
 "C05": ("allocation failures at every allocation index of a call", "the target of every failed compound operation must be an empty infinity with the model's sign."),
 "C06": ("allocation failures with a private exception type", "the caught exception must be the injected object's dynamic type, or the result must be right."),
 "C07": ("allocation failures", "every register other than the target is compared bit for bit before and after each call."),
 "C08": ("allocation failures", "copies and moves are checked for all-or-nothing, and moved-from numbers are reused."),
 "C09": ("allocation failures", "digit edits and list construction are replayed on a digit-sequence model."),
 "C10": ("allocation failures, stream failures", "every block is tracked by owner; workloads are repeated and held bytes compared; frees are checked by header and AddressSanitizer."),
 "C11": ("allocation failures with retry from saved operands", "multi-step programs are compared with their failure-free run."),
 "C12": ("allocation failures leaving infinities, explicit infinities and NaN", "no arithmetic on a non-finite operand may report a finite number."),
 "C14": ("device faults: short, torn, transient, permanent and throwing writes", "accepted bytes are compared with the number's full text."),
 "C15": ("device faults and allocation failures while reporting", "out-of-range access must raise and alter nothing."),
 "C16": ("allocation failures", "control-flow steps of each call are counted by compiler instrumentation against a polynomial bound (liveness as bounded progress); crashes and hangs end the run."),
 "C17": ("allocation failures", "every digit of every number is range-checked after every call; padding of results is checked."),
 "C19": ("allocation failures", "bytes held during and between calls are tracked by the simulated allocator over long histories and compared with a bound that depends on operand lengths only."),
 "C20": ("allocation failures at every allocation of the recursion", "every completed transform is compared with a direct evaluation of the definition in extended precision, every packed convolution with exact integer coefficients, between transforms and products that failed."),
 "C21": ("allocation failures, stream failures, stages of the process' life (before main, threads, forked children, exit handlers, static destructors)", "each plan is executed in two processes, once wholly inside main and once spread over the stages by seeded choice; both must report the same event log."),
 "C22": ("allocation failures, stream failures and changes of the surroundings (memory contents and placement, floating point control, locale, errno, clocks and random numbers, unwinding callers)", "each plan is executed in two processes forked from one state, once in plain surroundings and once in changing ones; both must report the same event log."),
 "C23": ("calls back into the library from its allocator, its releases of memory and its devices, with allocation and stream failures at every level", "every inner and outer operation is judged against the model as if it ran alone, and all other numbers are compared bit for bit at each such call."),
 "C18": ("device faults: chunking, truncation, transient and permanent read errors", "extracted digits are compared with the characters delivered."),
}
checks = []
for p, (f, n) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": "./check.py --prop " + p, "thorough_cmd": "./check.py --tier thorough --prop " + p, "evidence_file": "evidence/%s.json" % p,
                   "technique": FS % f, "level": "exploration", "level_note": NOTE % n})
na = [{"property": "N01", "reason": "pure function of its operands: no allocation, schedule, clock, I/O or history can influence a digit-type operation, so there is nothing for a simulator to control or to fault."},
      {"property": "N02", "reason": "compile-time constants: no execution, schedule or fault is involved."}]
if os.path.exists(os.path.join(HERE, "sched_check.py")):
    checks.append({"property": "C13", "quick_cmd": "./check.py --prop C13", "thorough_cmd": "./check.py --tier thorough --prop C13", "evidence_file": "evidence/C13.json",
                   "technique": "deterministic simulation with fault injection: seeded schedules of real threads released one at a time at every instrumented memory access, with allocation failures",
                   "level": "exploration", "level_note": "Seeded schedules; each thread's results are compared with the same calls run alone in a process of their own, shared operands are compared bit for bit, and a vector-clock detector flags unsynchronised conflicting accesses. libstdc++ template code is instrumented; precompiled libstdc++ and libc code runs between scheduling points. Sequential consistency only (no weak-memory reordering)."})
else:
    na.append({"property": "C13", "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./check.py --build", "checks": sorted(checks, key=lambda c: c["property"]), "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the C++ ones (operator new/delete, container parameter, stream buffers, compiler instrumentation callbacks). /repo carries unguarded fix: commits only; see known-findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
