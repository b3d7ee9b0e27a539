"""P14: scalars and wrappers render their canonical text."""
import struct
import chars as every
from vlib import *
from rustgen import *

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
INTS = dict(WIDTH, **{"i" + k[1:]: v for k, v in WIDTH.items()})
# values to wrap: source and text
BASES = {"lit": ('"a<b"', "a<b"), "empty": ('""', ""), "string": ('String::from("s&t")', "s&t"),
         "char": ("'>'", ">"), "char2": ("'\\u{20ac}'", "\u20ac"), "t": ("true", "true"), "f": ("false", "false"), "unit": ("()", ""),
         "int": ("-5i16", "-5"), "big": ("u128::MAX", str(2**128 - 1)), "min": ("i128::MIN", str(-2**127)),
         "nz": ("std::num::NonZeroI64::new(-9).unwrap()", "-9"), "float": ("2.5f32", "2.5"), "nan": ("-f64::NAN", "NaN"),
         "ninf": ("f32::NEG_INFINITY", "-inf"), "nzero": ("-0.0f64", "-0.0"),
         "cowb": ('Cow::Borrowed("b<\'")', "b<'"), "cowo": ('Cow::<str>::Owned(String::from("o>\\""))', "o>\""),
         "cowe": ('Cow::<str>::Borrowed("")', ""), "cowf": ('Cow::<str>::from(format!("{}&", 1))', "1&"),
         "cowlossy": ('String::from_utf8_lossy(b"l<ossy")', "l<ossy"),
         "cowub": ("Cow::Borrowed(&Own(7))", "own 7<"), "cowuo": ("Cow::<Own>::Owned(Own(8))", "own 8<"),
         "cowsub": ("Cow::Borrowed(Sl::new(\"sl&\"))", "slice sl&"), "cowsuo": ("Cow::<Sl>::Owned(Slo(String::from(\"x\")))", "slice x"),
         "el": ('raw!("<i>")', None), "someint": ("Some(3u8)", "3")}
PLACES = ["let s = render!(%s);", "let s = render!(%s, ());", "let v = %s;\nlet s = render!(v);",
          "let s = render!(frag!(%s));", "let s = render!(iter!(Some(%s)));", "let s = render!(classes!(%s));"]
HEAD14 = HEAD + """use std::borrow::Cow;
/// A type with renderings of its own for borrowed and owned values.
#[derive(Clone)] struct Own(u8);
impl Render for Own { fn render(self, b: &mut laby::internal::Buffer) { "own ".render(b); self.0.render(b); '<'.render(b) } }
impl Render for &Own { fn render(self, b: &mut laby::internal::Buffer) { self.clone().render(b) } }
/// An unsized type.
#[repr(transparent)] struct Sl(str);
struct Slo(String);
impl Sl { fn new(s: &str) -> &Sl { unsafe { &*(s as *const str as *const Sl) } } }
impl std::borrow::Borrow<Sl> for Slo { fn borrow(&self) -> &Sl { Sl::new(&self.0) } }
impl ToOwned for Sl { type Owned = Slo; fn to_owned(&self) -> Slo { Slo(self.0.to_string()) } }
impl Render for &Sl { fn render(self, b: &mut laby::internal::Buffer) { "slice ".render(b); (&self.0).render(b) } }
impl Render for Slo { fn render(self, b: &mut laby::internal::Buffer) { Sl::new(&self.0).render(b) } }
"""


def integers(chk):
    out = []
    rng = chk.rng
    for ty, w in sorted(INTS.items()):
        signed = ty[0] == "i"
        lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if signed else (0, 2 ** w - 1)
        if w <= 16:
            for a in range(lo, hi + 1, 128):
                out.append("r %s %d %d" % (ty, a, a + 127))
        vals = {lo, hi, 0, 1, lo // 2, hi // 2}
        for b in [10 ** k for k in range(40)] + [2 ** k for k in range(129)]:
            for d in (-1, 0, 1):
                vals |= {b + d, -b + d}
        for k in range(40):
            vals |= {int(str(c) * (k + 1)) for c in (1, 4, 9)}
            # groups of digits that are all zeros, or begin with zeros
            vals |= {10 ** k * 10001, 10 ** k * 100000001, 10 ** k * 1000000000000001 + 7}
        n = 2000 if chk.thorough else 150
        for _ in range(n):
            v = rng.getrandbits(rng.randrange(1, w + 1))
            vals |= {v, -v}
        for v in sorted(vals):
            if lo <= v <= hi:
                out.append("i %s %d %x" % (ty, v < 0, abs(v)))
    return out


def floats(chk):
    rng = chk.rng
    out = []
    n = 12000 if chk.thorough else 700
    for ty, pe, pm in (("f64", 11, 52), ("f32", 8, 23)):
        bits = set()
        top = 1 << (pe + pm)
        for e in range(0, 1 << pe, 1 if pe == 8 or chk.thorough else 5):
            bits |= {(e << pm), (e << pm) + 1, ((e + 1) << pm) - 1}
        for k in range(0, pm):
            bits |= {1 << k, (1 << k) - 1, top - 1 - (1 << k)}
        fmt, ifmt = ("<d", "<Q") if ty == "f64" else ("<f", "<I")
        conv = lambda x: struct.unpack(ifmt, struct.pack(fmt, x))[0]
        lim = 308 if ty == "f64" else 38
        for k in range(-lim - 16 if ty == "f64" else -45, lim + 1):
            for m in (1, 5, 9, 12345, 0.3):
                try:
                    b = conv(float("%se%d" % (m, k)))
                except OverflowError:
                    continue
                bits |= {b, b + 1, max(b - 1, 0)}
        for _ in range(n):
            bits.add(rng.getrandbits(pe + pm))
            # few digits, integers, halves, money
            for x in (rng.randrange(10 ** rng.randrange(1, 18)), rng.randrange(10 ** 6) / 100, rng.randrange(1 << 20) / 1024,
                      round(rng.random(), rng.randrange(1, 17)), rng.randrange(10 ** 9) * 10.0 ** rng.randrange(-20, 20)):
                bits.add(conv(float(x)))
        bits = sorted(b for b in bits if b < top)
        if not chk.thorough and len(bits) > 4500:
            bits = rng.sample(bits, 4500)
        # infinity, every kind of not-a-number, zero
        inf = ((1 << pe) - 1) << pm
        bits += [0, inf, inf + 1, inf + (1 << (pm - 1)), (1 << (pe + pm)) - 1]
        for i, b in enumerate(bits):
            for s in (0, 1) if b in (0, inf, inf + 1) or b >= inf else ((i % 3 == 0),):
                out.append("f %s %0*x" % (ty, 16 if ty == "f64" else 8, b + (s << (pe + pm))))
    return out


def chars(chk):
    step = 256
    every = list(range(0, 0x110000, step))
    if chk.thorough:
        return ["c %d %d" % (a, a + step - 1) for a in every]
    keep = set(every[:24]) | {0xd700, 0xd800, 0xdf00, 0xe000, 0xff00, 0xfe00, 0x10000, 0x10ff00, 0x20000, 0xffff00 & 0x10ffff}
    keep |= set(chk.rng.sample(every, 60))
    return ["c %d %d" % (a, a + step - 1) for a in sorted(keep) if a < 0x110000]


def drive(chk, cmds, profile):
    rt = build_rt(profile)
    per = max(1, (len(cmds) + NCPU - 1) // NCPU)

    def one(part):
        return run_bin([rt.bin("values")], stdin=("\n".join(part) + "\n").encode())
    parts = [cmds[i::NCPU] for i in range(NCPU) if cmds[i::NCPU]]
    recs = []
    for part, (rc, out, err) in zip(parts, pmap(one, parts)):
        rs = parse_lines(out)
        if rc != 0 or not rs or rs[-1]["k"] != "#":
            chk.violation("rendering a scalar ended the process", {"after": rs[-1:], "exit": rc, "stderr": err[-500:],
                                                                   "command": part[min(len(rs), len(part) - 1)]})
        recs += [r for r in rs if r["k"] != "#"]
    return recs


def terms(chk):
    t = chk.count(tlc("MCValues", "INIT Init\nNEXT Next\nINVARIANT OneFloat Itself Counting Emit\nCONSTANT P = 3\nCONSTANT X = 3\n"
                      "CONSTANT MaxWrap = 3\nCONSTANT Bases = {%s}\n" % ", ".join('"%s"' % b for b in sorted(BASES) if BASES[b][1] is not None)))
    plan, cases = [], []

    def conc(x):
        if x["w"] == "base":
            return BASES[x["b"]][0], {"w": "base", "t": enc(BASES[x["b"]][1])}, False
        if x["w"] == "none":
            return None, {"w": "none"}, True
        s, n, e = conc(x["x"])
        return ("Some(%s)" % s if s else None), {"w": x["w"], "x": n}, e
    rng = chk.rng
    for x in t.json_lines():
        src, node, absent = conc(x)
        if absent:           # an absent value under some number of present ones
            depth, y = 0, x
            while y["w"] == "some":
                depth, y = depth + 1, y["x"]
            kinds = ["&str", "u8", "String", "()", "Cow<'static, str>", "RenderRaw<&str>"]
            srcs = ["%s%s%s" % ("Some(" * depth, "None::<%s>" % k, ")" * depth) for k in kinds]
        else:
            srcs = [src]
        for s in srcs:
            for p in PLACES:
                cases.append(Case(None, "take", body=(p % s) + "\n_rt.take(s);"))
                plan.append(node)
    return plan, cases


def run(chk):
    plan, cases = terms(chk)
    cmds = integers(chk) + floats(chk) + chars(chk)
    chk.notes["scalars"] = {"commands": len(cmds)}
    for profile in ("debug", "release"):
        chk.log("rendering %d scalars and runs (%s)" % (len(cmds), profile))
        sub = cmds if profile == "debug" or chk.thorough else cmds[chk.seed % 3::3]
        recs = drive(chk, sub, profile)
        if profile == "debug" or chk.thorough:
            rt = build_rt(profile)
            obs, notes = programs(chk, "p14", cases, rt, head=HEAD14)
            report_notes(chk, notes, cases)
            for c, node, o in zip(cases, plan, obs):
                if o:
                    if any(x["pan"] for x in o):
                        chk.violation("rendering a value failed", {"source": c.source("c"), "observed": o[:1]})
                    else:
                        recs.append({"k": "term", "term": node, "outs": sorted({x["out"] for x in o}), "src": c.body})
        chk.rng.shuffle(recs)
        chk.log("validating %d records" % len(recs))
        for j in validate(chk, "ValuesTrace", recs, heap="6g", timeout=3000):
            chk.violation("a scalar or wrapper does not render its canonical text",
                          {"profile": profile, "record": recs[j] if len(json.dumps(recs[j])) < 1500 else json.dumps(recs[j])[:1500]})
        for r in recs[:3]:
            if len(json.dumps(r)) < 1000:
                chk.sample(r)
        chk.notes["records_" + profile] = len(recs)
    every.sweep(chk, every.VALUE, [0], "a character does not render its canonical text", ("debug", "release"))
    chk.assumptions = ["integers wider than 16 bits and floats are sampled around their boundaries; the notation of floats is ryu's"]
