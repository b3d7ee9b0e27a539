"""P07: compile-time literals render like run-time values."""
import decimal
import struct
from vlib import *
from rustgen import *

CFG = ("INIT Init\nNEXT Next\nINVARIANT SmallAgrees Stable FloatStable Emit\nCONSTANT MaxStr = %d\n"
       "CONSTANT MaxDigits = %d\nCONSTANT Suffixes = {%s}\nCONSTANT FloatDigits = {%s}\nCONSTANT Exps <- %s\n")
SUFFIXES = ["", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"]
BITS = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "": 31, "u64": 64, "i64": 63,
        "u128": 128, "i128": 127, "usize": 64, "isize": 63}

# positions: template around {0}; the variable stands in the same place
POS = {"child": "p!({0})", "value": "p!(a = {0})", "name": "p!({0} = \"v\")", "flag": "p!({0} = bool!(pass(true)))",
       "class": "classes!({0}, {0})", "frag": "frag!({0})", "void": "br!(a = {0}, b = {0})",
       "nested": "div!(b!(\"x\", {0}), {0})"}
# ways to write the literal in that place
WRITE = ["%s", "(%s)", "{ %s }", "({ %s })", "{ (%s) }", "((%s))", "{ { %s } }"]
UNITWRITE = ["{ %s }", "({ %s })", "{ { %s } }", "{ (); %s }", "{ %s () }", "{ let _ = %s }"]
NAMEWRITE = ["%s", "(%s)", "({ %s })", "((%s))"]


def tokens(chk):
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    t = chk.count(tlc("MCLiteral", CFG % (2, 3 if chk.thorough else 2, q(SUFFIXES), q("0127_"), "SomeExps"), timeout=800))
    a = list(t.json_lines())
    t = chk.count(tlc("MCLiteral", CFG % (12, 12, q(["", "u64", "i64", "u128"]), q("0123456789_"), "MoreExps"),
                      sim=3000 if chk.thorough else 600, depth=14, seed=chk.seed, workers=1, timeout=800))
    b = list(t.json_lines())
    chk.notes["literals"] = {"short": len(a), "long": len(b)}
    seen, out = set(), []
    for x in a + b + extremes(chk):
        if x["src"] not in seen:
            seen.add(x["src"])
            out.append(x)
    return out


def under(rng, ds):
    out = []
    for i, d in enumerate(ds):
        out.append(d)
        if rng.random() < 0.2:
            out.append("_")
    return out


def extremes(chk):
    """Largest and other telling values of every type in every radix, and floats of many digits."""
    out = []
    rng = chk.rng
    for s in SUFFIXES:
        top = 2 ** BITS[s] - 1
        for v in {0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 1000, 9999, 10000, 65535, 99999999, 10**8, 10**16, 2**32,
                  10**19, 10**38, top, top - 1, top // 2, top // 10, rng.randrange(top + 1)}:
            if v > top:
                continue
            for r, f in ((2, "b"), (8, "o"), (10, "d"), (16, "x"), (16, "X")):
                ds = under(rng, list(format(v, f)))
                tok = {"kind": "int", "radix": r, "digits": ds, "suffix": s}
                src = {2: "0b", 8: "0o", 10: "", 16: "0x"}[r] + "".join(ds) + s
                out.append({"tok": tok, "src": src})
                if s[:1] in ("", "i") and rng.random() < 0.4:
                    out.append({"tok": {"kind": "neg", "of": tok}, "src": "-" + src})
        if s[:1] in ("", "i"):      # the least value, which has no positive counterpart
            for r, f in ((2, "b"), (8, "o"), (10, "d"), (16, "x")):
                ds = list(format(top + 1, f))
                tok = {"kind": "int", "radix": r, "digits": ds, "suffix": s}
                out.append({"tok": {"kind": "neg", "of": tok}, "src": "-" + {2: "0b", 8: "0o", 10: "", 16: "0x"}[r] + "".join(ds) + s})
    fl = ["0.1", "0.2", "0.3", "1.1", "123456789.125", "16777217.0", "9007199254740993.0", "1e23", "9.5e-10", "5e-324",
          "1.7976931348623157e308", "2.2250738585072014e-308", "4.9e-324", "0.1e-6", "123456.7e-3", "33554431.5",
          "3.4028235e38", "1.17549435e-38", "1e-45", "8.5e-5", "1e15", "1e16", "1e17", "123456789012345680.0",
          "0.00001", "0.000001", "0.0000001", "1e12", "1e13", "1e14", "0.30000000000000004", "2.5e-8", "1e0"]
    fl += ["%d.%de%d" % (rng.randrange(10 ** rng.randrange(1, 10)), rng.randrange(10 ** rng.randrange(1, 12)),
                         rng.randrange(-30, 20)) for _ in range(400 if chk.thorough else 120)]
    # close to the middle between two neighbours, where rounding twice goes wrong
    for _ in range(60 if chk.thorough else 16):
        v = struct.unpack("<f", struct.pack("<I", rng.randrange(0x3a000000, 0x48000000)))[0]
        w = struct.unpack("<f", struct.pack("<I", struct.unpack("<I", struct.pack("<f", v))[0] + 1))[0]
        with decimal.localcontext() as c:
            c.prec = 120
            mid = (decimal.Decimal(v) + decimal.Decimal(w)) / 2
            for d in (decimal.Decimal(10) ** -50, -decimal.Decimal(10) ** -50):
                fl.append(format(mid + d, "f"))
            fl.append(format(mid, "f"))
    for f in fl:
        for s in ("", "f64", "f32", "_f32"):
            if "f32" in s and (abs(float(f)) > 3.4e38):
                continue
            ip, _, rest = f.partition(".") if "." in f else (f.split("e")[0], "", "e" + f.split("e")[1])
            fp, _, ex = rest.partition("e")
            e = "e" if ex else ""
            if ex.startswith("-"):
                e, ex = "e-", ex[1:]
            tok = {"kind": "float", "ip": list(ip), "fp": list(fp), "dot": "." in f, "ex": list(ex), "e": e, "suffix": s}
            out.append({"tok": tok, "src": f + s})
            if rng.random() < 0.3:
                out.append({"tok": {"kind": "neg", "of": tok}, "src": "-" + f + s})
    return out


def float_type(src, tok):
    if tok["kind"] == "neg":
        tok = tok["of"]
    if tok["kind"] == "float":
        return ": f32" if tok["suffix"].endswith("f32") else ": f64"
    return ""


def case(kind, body):
    return Case(None, kind, body=body)


def long(chk):
    """Texts of any length, with characters of several bytes at every offset, written out and computed."""
    out = []
    rng = chk.rng
    for unit in ("\u00e9", "\u20ac", "\U0001f600", "a\u20ac\u00e9\U0001f600", "x<"):
        u = len(unit.encode())
        for size in (250, 520, 1030, 2060, 4100, 8200, 16400, 33000, 66000):
            for off in range(4) if size < 9000 else (rng.randrange(4),) if size < 60000 or chk.thorough else \
                    (0,) if unit == "\u20ac" else ():
                t = "b" * off + unit * (size // u)
                for how in ("lit", "ev") if off == 1 else ("lit",):
                    lf = {"k": "leaf", "how": how, "id": int(how == "ev"), "r": how == "ev", "raw": False, "t": enc(t), "src": rstr(t)}
                    at = {"k": "attr", "name": {"k": "id", "src": "title", "s": "title"}, "flag": "no", "id": 0, "b": False, "val": lf}
                    # in pieces that are put together again
                    n = rng.choice((1, 3, 7))
                    parts = [dict(lf, t=enc(x), src=rstr(x)) for x in (t[j:j + n] for j in range(0, min(len(t), 600), n))]
                    out += [{"k": "el", "tag": "p", "void": False, "items": x} for x in ([lf], [at])]
                    if how == "lit":
                        out.append({"k": "el", "tag": "p", "void": False, "items": parts})
    return [Case({"lets": [], "root": x}, ("sep", "take")[i % 2]) for i, x in enumerate(out)]


def run(chk):
    rng = chk.rng
    judge(chk, "p07t", long(chk), "text", label="a long literal does not render as its value")
    toks = tokens(chk)
    chk.log("%d literals" % len(toks))
    if not chk.thorough:
        by = {}
        for t in toks:
            by.setdefault(t["tok"]["kind"], []).append(t)
        toks = []
        for kd, xs in sorted(by.items()):
            most = {"unit": 500, "neg": 1000}.get(kd, 1500)
            toks += xs if len(xs) <= most else rng.sample(xs, most)
    plan = []
    for i, t in enumerate(toks):
        pos = sorted(POS) if chk.thorough or t["tok"]["kind"] in ("char", "byte", "bool") else \
            sorted(set(POS) - {"name", "flag"}) if t["tok"]["kind"] == "unit" and rng.random() < 0.2 else \
            ["child", rng.choice(["value", "void"]), rng.choice(["class", "frag", "nested"])] if t["tok"]["kind"] == "unit" else \
            ["child", rng.choice(["value", "name", "flag", "void"]), rng.choice(["class", "frag", "nested"])]
        for p in pos:
            if not (t["tok"]["kind"] == "unit" and p in ("name", "flag")):
                plan.append((t, p))
    lits, vars_ = [], {}
    for i, (t, p) in enumerate(plan):
        src = dec(t["src"]).decode("utf8")
        kind = t["tok"]["kind"]
        w = (NAMEWRITE if p in ("name", "flag") else WRITE)[rng.choice((0, 0, 0, 1, 2, 3, 3, 2, 1))]
        if kind == "unit":
            w = rng.choice(UNITWRITE)
        if kind not in ("neg", "unit") and rng.random() < 0.08:
            w = "fwd"
        tmpl = POS[p]
        if w == "fwd":      # through a macro of the user's: as a literal, or as an expression
            body = "macro_rules! m { ($x:%s) => { %s } }\nlet s = render!(m!(%s));\n_rt.take(s);" % (
                rng.choice(("literal", "expr")) if p not in ("name", "flag") else "literal", tmpl.format("$x"), src)
        else:
            body = "let s = render!(%s);\n_rt.take(s);" % tmpl.format(w % src)
        lits.append(case("take", body))
        key = (t["src"], p)
        if key not in vars_:
            v = "(v)" if p in ("name", "flag") else "v"
            vars_[key] = case("take", "let v%s = %s;\nlet s = render!(%s);\n_rt.take(s);" % (
                float_type(src, t["tok"]), "{ %s }" % src if kind == "unit" else src, tmpl.format(v)))
    vk = list(vars_)
    cases = lits + [vars_[x] for x in vk]
    for profile in ("debug", "release") if chk.thorough else ("debug",):
        rt = build_rt(profile)
        chk.log("compiling and running %d templates (%s)" % (len(cases), profile))
        obs, notes = programs(chk, "p07", cases, rt)
        report_notes(chk, notes, cases)
        vout = {key: sorted({o["out"] for o in obs[len(lits) + j]}) for j, key in enumerate(vk)}
        vpan = {key: [o["pan"] for o in obs[len(lits) + j] if o["pan"]] for j, key in enumerate(vk)}
        recs, idx = [], []
        for i, (t, p) in enumerate(plan):
            if not obs[i] or not vout[(t["src"], p)]:
                continue
            if vpan[(t["src"], p)] or any(o["pan"] for o in obs[i]):
                chk.violation("rendering a literal failed", {"source": lits[i].source("c"), "observed": obs[i][:1]})
                continue
            recs.append({"tok": t["tok"], "pos": p, "lit": sorted({o["out"] for o in obs[i]}),
                         "var": vout[(t["src"], p)]})
            idx.append(i)
        chk.log("validating %d records" % len(recs))
        for j in validate(chk, "LiteralTrace", recs, heap="6g"):
            chk.violation("a literal does not render as its value", {
                "profile": profile, "source": lits[idx[j]].source("c"), "record": recs[j]})
        for j in (0, len(recs) // 2, len(recs) - 1):
            chk.sample(recs[j])
    chk.assumptions = ["integer literals too large for their type are not used",
                       "floats of more than 15 (f32: 6) digits are only compared with the value at run time"]
