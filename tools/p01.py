"""P01: escaping is exact for every text."""
import os
import chars
from vlib import *

SPECIALS = "&\"'<>"
LOOKALIKE = "#"          # the only ordinary byte both vector comparisons report
MODES = [1, 2, 3, 4, 6]  # processor levels that select each scanner (see vendor/raw-cpuid)


def model(chk):
    """The scanners, exhaustively over scaled-down and at the real vector widths."""
    cfg = ("INIT Init\nNEXT Next\nCONSTANT VS = %d\nCONSTANT VL = %d\nCONSTANT W = %d\n"
           "CONSTANT MaxLen = %d\nCONSTANT RealLens = %s\nCONSTANT Texts <- %s\n"
           "CONSTANT Aligns = {%s}\nINVARIANT TypeOK Prefix InBounds NothingSkipped Done%s\n")
    scaled = chk.count(tlc("MCEscapeScan", cfg % (
        4, 8, 2, 11 if chk.thorough else 8, "{}", "AllTexts", "0, 1", ""), timeout=800))
    near = sorted({n for b in (0, 16, 24, 32, 48, 64, 96) for n in range(b - 2, b + 4) if n >= 0})
    lens = range(0, 101) if chk.thorough else near
    real = chk.count(tlc("MCEscapeScan", cfg % (
        16, 32, 8, 0, "{%s}" % ", ".join(map(str, lens)), "SparseTexts",
        ", ".join(map(str, range(8))) if chk.thorough else "0, 3, 7", " Emit"),
        timeout=800, heap="8g"))
    chk.notes["scanner_model"] = {"scaled_states": scaled.distinct, "real_width_states": real.distinct}
    if chk.thorough:
        live = chk.count(tlc("MCEscapeScan", (cfg % (4, 8, 2, 6, "{}", "AllTexts", "0, 1", "")).replace(
            "INIT Init\nNEXT Next", "SPECIFICATION Spec") + "PROPERTY Terminates\n", timeout=800))
        chk.notes["scanner_model"]["liveness_states"] = live.distinct
    return sorted({t.strip('"') for t in real.tuples("TEXT")})


def texts(chk, shapes):
    rng = chk.rng
    out = []
    plain = "abcXYZ019 _-;=/.%$!?*+,:@[]^`{|}~()\\"
    for n, sh in enumerate(shapes):
        s = []
        for i, c in enumerate(sh):
            if c == "s":
                s.append(SPECIALS[(i + n) % 5])
            elif c == "k":
                s.append(LOOKALIKE)
            else:
                s.append(plain[(i * 7 + n) % len(plain)])
        out.append("".join(s))
    # every byte value of a single-byte character at every position of two vectors
    for b in range(128):
        for base in ((16, 33, 67) if chk.thorough else (33,)):
            for p in sorted({0, 1, b % base, base // 2, base - 1}):
                out.append("-" * p + chr(b) + "-" * (base - 1 - p))
    out += [chr(b) for b in range(128)]
    # characters of several bytes across the vector borders, next to special characters
    for ch in ("\u00e9", "\u00a2", "\u20ac", "\u2027", "\u263e", "\U0001f600", "\U00026222", "\u0800",
               "\ud7ff", "\ufffd", "\u0080", "\u07ff", "\U0010ffff", "\u2622", "\u3e27", "\u0722"):
        for at in (0, 5, 12, 13, 14, 15, 16, 29, 30, 31, 32, 45, 61, 62, 63, 64):
            for tail in (0, 3, 16, 33):
                out.append("x" * at + ch + "<" + "y" * tail)
                out.append("&" * (at // 3) + "z" * (at - at // 3) + ch * 2 + "\"" * (tail % 4))
    # lone and dense special characters
    for c in SPECIALS:
        for n in list(range(1, 50)) + [63, 64, 65, 127, 128, 129]:
            out.append(c * n)
    # random texts of mixed density
    alpha = [SPECIALS, SPECIALS + "#", SPECIALS + "abcdefghijklmnopqrstuvwxyz     ",
             "abcdefgh" * 20 + SPECIALS, "#$%&'()*+;<=>?\"! \u00e9\u20ac\U0001f600"]
    for _ in range(12000 if chk.thorough else 2500):
        a = rng.choice(alpha)
        n = rng.choice((rng.randrange(0, 20), rng.randrange(16, 70), rng.randrange(0, 300)))
        out.append("".join(rng.choice(a) for _ in range(n)))
    # texts longer than any buffer step
    for n in ((4095, 4096, 16384, 16385, 70001) if not chk.thorough else
              (1023, 4095, 4096, 4097, 8191, 16383, 16384, 16385, 32768, 65537, 70001)):
        for k in range(3):
            s = [rng.choice("abcdefghij") for _ in range(n)]
            for _ in range((1, 40, n // 4)[k]):
                s[rng.randrange(n)] = rng.choice(SPECIALS)
            out.append("".join(s))
    for n in (5000, 20011):
        out.append("<" * n)
        out.append("\"&" * (n // 2))
    seen = set()
    res = []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


def shapes_only(chk):
    """A small family of shapes that needs no model run: around the vector borders."""
    out = []
    for n in (15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65):
        for p in range(n):
            out.append("p" * p + "s" + "p" * (n - 1 - p))
            q = (p * 5 + 3) % n
            out.append("".join("s" if i == p else "k" if i == q else "p" for i in range(n)))
    return out


def modes_of_host():
    modes = [0] + MODES
    if "avx2" not in open("/proc/cpuinfo").read():
        modes.remove(6)
    return modes


def conform(chk, name, ts, modes, profiles, what):
    """Escapes the texts with the real code. `what` names a text mismatch; None: only the memory
    rules are judged."""
    inputs = [enc(t) for t in ts]
    d = scratch(name)
    f = os.path.join(d, "texts")
    open(f, "w").write("\n".join(inputs) + "\n")
    rts = {p: build_rt(p) for p in profiles}
    chk.log("escaping %d texts" % len(inputs))
    jobs = [(p, m) for p in rts for m in modes]
    res = pmap(lambda j: run_bin([rts[j[0]].bin("escape"), str(j[1]), f,
                                  "1" if chk.thorough else "0"], timeout=800), jobs)
    merged = [dict() for _ in inputs]
    runs = 0
    for (p, m), (rc, out, err) in zip(jobs, res):
        n = 0
        for r in parse_lines(out):
            if r["i"] < 0:
                if r["broken"]:
                    chk.violation("memory rule broken while escaping: " + r["first"],
                                  {"profile": p, "cpu_mode": m})
                continue
            n += 1
            runs += r["n"]
            for o in r["o"]:
                merged[r["i"]].setdefault((o, r["bad"]), (p, m))
        if rc != 0 or n != len(inputs):
            chk.violation("the process ended while escaping", {
                "profile": p, "cpu_mode": m, "exit": rc, "text": inputs[min(n, len(inputs) - 1)],
                "stderr": err[-500:]})
    chk.notes["escape_calls"] = runs
    chk.notes["texts"] = len(inputs)
    if what is None:
        for t, mm in zip(inputs, merged):
            for (o, bad), at in mm.items():
                if bad:
                    chk.violation("memory rule broken while escaping: " + bad,
                                  {"text": t[:400], "seen_in": "%s/mode %d" % at})
        return
    recs = []
    for t, mm in zip(inputs, merged):
        bad = sorted({b for (_, b) in mm if b})
        recs.append({"t": t, "o": sorted({o for (o, _) in mm}), "bad": bad[0] if bad else ""})
    chk.log("validating %d records" % len(recs))
    for i in validate(chk, "EscapeTrace", recs):
        if not merged[i]:
            continue
        chk.violation(what, {
            "text": recs[i]["t"][:400], "outputs": [o[:600] for o in recs[i]["o"]],
            "bad": recs[i]["bad"],
            "seen_in": sorted({"%s/mode %d" % v for v in merged[i].values()})})
    for i in (0, len(recs) // 3, len(recs) // 2):
        chk.sample({"text": recs[i]["t"][:120], "outputs": [o[:160] for o in recs[i]["o"]]})


def run(chk):
    chk.log("model checking the scanners")
    shapes = model(chk)
    if not chk.thorough and len(shapes) > 9000:
        shapes = [s for i, s in enumerate(shapes) if (i + chk.seed) % (len(shapes) // 9000 + 1) == 0]
    ts = texts(chk, shapes)
    conform(chk, "p01", ts, modes_of_host(), ("debug", "release"), "text not escaped exactly")
    chars.sweep(chk, chars.SCAN, modes_of_host(), "a character was not escaped exactly")
    chars.sweep(chk, chars.COOKED + chars.VALUE, [0], "a character was not escaped exactly")
    chk.assumptions = ["the text is valid UTF-8 (Rust's str)",
                       "processor levels are imitated by answering CPUID in a patched raw-cpuid"]
