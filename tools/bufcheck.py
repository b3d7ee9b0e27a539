"""P03 and P04: histories of buffer operations, generated by MCBuffer, replayed on the code and
judged step by step by BufferTrace."""
import json
import os
from vlib import *

CFG = ("INIT Init\nNEXT Next\nCONSTANT Slots = {%s}\nCONSTANT Pieces <- %s\nCONSTANT Values <- %s\n"
       "CONSTANT Numbers = {%s}\nCONSTANT MaxLen = %d\nCONSTANT MaxOps = %d\nCONSTANT OpNames <- %s\n"
       "CONSTANT Sim = %s\nCONSTANT Trans = %s\nINVARIANT Rules\nPROPERTY StepRules\n"
       "ACTION_CONSTRAINT EmitStep\nVIEW View\n")


def histories(chk):
    out = []
    # every transition of one buffer, by shape
    t = chk.count(tlc("MCBuffer", CFG % ("1", "P1", "NoValues", "0, 1, 3, 4, 5, 16",
                      24 if chk.thorough else 12, 12, "AllOps2", "FALSE", "TRUE"), workers=1,
                      timeout=800))
    a = list(t.json_lines())
    # every short history of two
    t = chk.count(tlc("MCBuffer", CFG % ("1, 2", "P2", "NoValues", "0, 4", 40,
                      4 if chk.thorough else 3, "PairOps", "FALSE", "FALSE"), timeout=800,
                      heap="6g"))
    b = list(t.json_lines())
    # long random histories of three, with every kind of value
    n = 3000 if chk.thorough else 350
    t = chk.count(tlc("MCBuffer", (CFG % ("1, 2, 3", "P3", "AllValues",
                      "0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 40, 64, 100, 257, 1000, 4096, 16384",
                      6000, 30, "AllOps2", "TRUE", "FALSE")), sim=n, depth=32, seed=chk.seed,
                      workers=1, timeout=800))
    c = list(t.json_lines())
    chk.notes["histories"] = {"one_buffer_transitions": len(a), "two_buffers_short": len(b),
                              "three_buffers_long": len(c)}
    cap = 400000 if chk.thorough else 9000
    for x in (a, b, c):
        if len(x) > cap:
            k = len(x) // cap + 1
            x = [h for i, h in enumerate(x) if (i + chk.seed) % k == 0]
        out += x
    return out + grown(chk)


def grown(chk):
    """Buffers that grow far, by steps of every size, with requests around the exact room left."""
    rng = chk.rng
    out = []
    for r in range(300 if chk.thorough else 60):
        h = [rng.choice([{"op": "new", "n": 0}, {"op": "cap", "n": rng.choice([1, 16, 100, 16384])}])]
        for _ in range(rng.randrange(5, 40)):
            n = rng.choice([0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 63, 64, 100, 1000, 5000])
            op = rng.choice(["push_str", "push_str", "write_str", "add_assign", "reserve", "advance",
                             "escape", "value", "push", "clear", "huge"])
            o = {"op": op, "n": n}
            if op in ("push_str", "write_str", "add_assign", "advance"):
                o["t"] = "".join(rng.choice("abcdef ") for _ in range(n))
            elif op == "escape":
                t = "".join(rng.choice("abc<&\"") for _ in range(min(n, 200)))
                o["t"] = t
                o["n"] = sum({"<": 4, "&": 5, "\"": 6}.get(c, 1) for c in t)
            elif op == "push":
                c = rng.choice("a\u007f\u0080\u00e9\u00ff\u07ff\u0800\u20ac\ud7ff\ue000\uffff\U00010000\U0001f600\U0010ffff")
                o["t"] = enc(c)
                o["n"] = len(c.encode())
            elif op == "value":
                i, t = rng.choice([(8, "18446744073709551615"), (10, "340282366920938463463374607431768211455"),
                                   (11, "-170141183460469231731687303715884105728"), (1, "0"),
                                   (12, "-1.7976931348623157e308"), (13, "-2.2250738585072014e-308"),
                                   (15, "-3.4028235e38"), (21, "&lt;")])
                o["d"], o["t"], o["n"] = i, t, len(t)
            elif op == "huge":
                o["n"] = n % 6
            h.append(o)
        for o in h:
            o.setdefault("s", 1)
            o.setdefault("d", 1)
            o.setdefault("t", "")
        out.append(h)
    return out


def replay(chk, hs, profiles):
    d = scratch(chk.pid.lower())
    lines = []
    for h in hs:
        for o in h:
            lines.append("%s %d %d %d %s" % (o["op"], o["s"], o["d"], o["n"], o["t"]))
        lines.append("")
    # split over processes, each with its own part of the histories
    parts = []
    size = (len(hs) + NCPU - 1) // NCPU
    for i in range(0, len(hs), size):
        f = os.path.join(d, "h%d" % i)
        with open(f, "w") as fh:
            for h in hs[i:i + size]:
                for o in h:
                    fh.write("%s %d %d %d %s\n" % (o["op"], o["s"], o["d"], o["n"], o["t"]))
                fh.write("\n")
        parts.append((i, f))
    jobs = [(p, i, f) for p in profiles for i, f in parts]
    rts = {p: build_rt(p) for p in profiles}
    chk.log("replaying %d histories" % len(hs))
    res = pmap(lambda j: run_bin([rts[j[0]].bin("buffer"), j[2]], timeout=800), jobs)
    recs = {}
    total = 0
    for (p, base, f), (rc, out, err) in zip(jobs, res):
        last = None
        end = False
        for r in parse_lines(out):
            if r["x"] < 0:
                end = True
                if r["broken"] and chk.pid == "P04":
                    chk.violation("memory rule broken: " + r["first"],
                                  {"profile": p, "histories": f})
                continue
            total += 1
            last = (base + r.pop("x"), r.pop("at"))
            key = json.dumps(normal(r))
            recs.setdefault(key, (p, last))
        if rc != 0 or not end:
            h, at = last or (base, -1)
            chk.violation("the process ended during a buffer operation", {
                "profile": p, "exit": rc, "after": [h, at],
                "history": hs[h][:at + 2] if at >= 0 else hs[h], "stderr": err[-400:]})
    chk.notes["operations_replayed"] = total
    return recs


def normal(r):
    """Blocks are numbered in order of appearance."""
    ids = {0: 0}

    def num(i):
        return ids.setdefault(i, len(ids))
    for side in ("pre", "post"):
        if side == "post":
            for e in r["h"]:
                e["old"] = num(e["old"])
                e["id"] = num(e["id"])
        for s in r[side]:
            s["b"] = num(s["b"])
    return r


def judge(chk, what):
    hs = histories(chk)
    recs = replay(chk, hs, ("debug", "release"))
    keys = list(recs)
    rs = [json.loads(k) for k in keys]
    chk.log("validating %d distinct steps" % len(rs))
    for i in validate(chk, "BufferTrace", rs, 'CONSTANT What = "%s"\n' % what, heap="6g"):
        p, (h, at) = recs[keys[i]]
        chk.violation("buffer step breaks the %s rules" % what, {
            "profile": p, "step": rs[i], "history": hs[h][:at + 1]})
    for i in (0, len(rs) // 2, len(rs) - 1):
        chk.sample(rs[i])
