"""P02: escaping does not depend on the processor or on thread timing."""
import json
import os
from vlib import *
import p01

LEVEL = {0: "host", 1: "nocpuid", 2: "none", 3: "sse2", 4: "avxonly", 5: "avxnoleaf7",
         6: "avx2", 7: "avx2noavx"}
LONG = ["abcdefghijklmnopqrstuvwxyz<&>abcdefghijklmnopqrstuvwxyz'0123456789\"",
        "0123456789abcdef", "<123456789abcde>", "0123456789&bcdefghijklmnopq'stu", "<" * 40,
        "x" * 31 + ">", "x" * 32 + "&" + "y" * 40]
SHORT = ["a<b", ""]


def model(chk):
    base = ("CONSTANT Levels = {%s}\n" % ", ".join('"%s"' % l for l in sorted(set(LEVEL.values()) - {"host"}))
            + "INVARIANT SupportedOnly Stable NeverRunsDetect\nVIEW NoHistory\n")
    t = chk.count(tlc("Dispatch", "INIT Init\nNEXT Next\nCONSTANT Threads = {1, 2, 3}\n"
                      "CONSTANT Calls = 2\nCONSTANT Queries = 1\n" + base))
    if chk.thorough:
        chk.count(tlc("Dispatch", "SPECIFICATION Spec\nCONSTANT Threads = {1, 2}\nCONSTANT Calls = 2\n"
                      "CONSTANT Queries = 2\n" + base + "PROPERTY EveryCallReturns\n"))
        chk.count(tlc("Dispatch", "INIT Init\nNEXT Next\nCONSTANT Threads = {1, 2, 3}\n"
                      "CONSTANT Calls = 2\nCONSTANT Queries = 3\n" + base, heap="8g", timeout=800))
    scheds = set()
    for th, q in (("{1, 2}", 4), ("{1, 2, 3}", 2)):
        s = chk.count(tlc("Dispatch", "INIT Init\nNEXT Next\nCONSTANT Threads = %s\nCONSTANT Calls = 1\n"
                          "CONSTANT Queries = %d\nCONSTANT Levels = {\"avx2\"}\n"
                          "INVARIANT SupportedOnly Emit\n" % (th, q)))
        for x in s.tuples("SCHED"):
            scheds.add(tuple(json.loads(x.replace("<<", "[").replace(">>", "]"))))
    chk.notes["schedules"] = len(scheds)
    return sorted(scheds)


def run(chk):
    scheds = model(chk)
    rts = {p: build_rt(p) for p in ("debug", "release")}
    jobs = []
    for p in rts:
        for m in LEVEL:
            # single-stepped: first calls of every kind, then later ones
            for i in range(len(LONG)):
                jobs.append((p, m, ["step", str(m)] + [LONG[i]] + LONG[:2] + SHORT))
            jobs.append((p, m, ["step", str(m)] + SHORT + LONG))
    for i, s in enumerate(scheds):
        n = max(s)
        lv = list(LEVEL) if chk.thorough else [3, 6, (0, 1, 2, 4, 5, 7)[(i + chk.seed) % 6]]
        for m in lv:
            p = ("debug", "release")[(i + m) % 2]
            tx = [LONG[(i + j) % len(LONG)] for j in range(3)] + SHORT[:1]
            jobs.append((p, m, ["race", str(m), str(n), ",".join(map(str, s))] + tx))
    for i in range(400 if chk.thorough else 60):
        jobs.append((("debug", "release")[i % 2], i % 8,
                     ["race", str(i % 8), "8", "-"] + [chk.rng.choice(LONG) for _ in range(3)]))
    chk.log("running %d processes" % len(jobs))
    host_avx2 = "avx2" in open("/proc/cpuinfo").read()
    jobs = [j for j in jobs if j[1] != 6 or host_avx2]
    res = pmap(lambda j: run_bin([rts[j[0]].bin("dispatch")] + [
        x if k < 4 and j[2][0] == "race" or k < 2 else enc(x) for k, x in enumerate(j[2])],
        timeout=120), jobs)
    recs = []
    for (p, m, args), (rc, out, err) in zip(jobs, res):
        ls = parse_lines(out)
        ntext = len(args) - (4 if args[0] == "race" else 2)
        want = ntext * (int(args[2]) if args[0] == "race" else 1)
        r = {"level": LEVEL[m], "died": 0, "want": want, "host": [], "ran": [], "calls": []}
        if rc != 0 or len(ls) != 1:
            r["died"] = 1
            r["why"] = "exit %s %s" % (rc, err[-300:])
        else:
            r.update({k: ls[0][k] for k in ("host", "ran", "calls")})
            if ls[0]["queries"] == 0:
                r["level"] = "host"
        r["args"] = args
        r["profile"] = p
        recs.append(r)
    chk.log("validating %d runs" % len(recs))
    for i in validate(chk, "DispatchTrace", recs):
        r = recs[i]
        chk.violation("processor or thread timing shows", {k: r[k] for k in r if k != "calls"}
                      | {"wrong": [c for c in r["calls"]][:4]})
    steps = [r for r in recs if r["args"][0] == "step" and r["level"] == "avx2" and not r["died"]]
    chk.notes["avx2_seen_when_reported"] = sum(1 for r in steps if "avx2" in r["ran"])
    for r in recs[::max(1, len(recs) // 4)][:4]:
        chk.sample({"level": r["level"], "args": r["args"][:4], "ran": r["ran"],
                    "calls": r["calls"][:1]})
    # the same texts on every level give the same, exact output
    p01.conform(chk, "p02", p01.texts(chk, p01.shapes_only(chk)), range(8) if host_avx2 else
                [m for m in range(8) if m != 6], ("release",) if not chk.thorough else ("debug", "release"),
                "output depends on the processor level or is wrong on one")
    chk.assumptions = [
        "processor levels are imitated by answering CPUID in a patched raw-cpuid",
        "only this program's own instructions are classified (libc dispatches on its own)"]
