"""P28: what is written in a template keeps its place in the source."""
import os
from vlib import *
from rustgen import *

HEAD28 = r"""#![allow(unused, deprecated)]
@LINT@
use laby::*;
use std::{cell::RefCell, panic::Location};
thread_local! { static SEEN: RefCell<Vec<(u32, u32, u32)>> = RefCell::new(vec![]); }
#[track_caller] fn at(n: u32) -> u32 { let l = Location::caller(); lc(l.line(), l.column(), n) }
fn lc(line: u32, col: u32, n: u32) -> u32 { SEEN.with(|s| s.borrow_mut().push((n, line, col))); n }
fn len(x: impl Render) -> usize { render!(x).len() }
fn id<T>(x: T) -> T { x }
fn num(n: u32) -> u32 { n }
#[laby] fn comp(x: impl Render, #[default(0)] y: impl Render, #[rest] r: impl Render) -> impl Render { b!(title = x, y, r) }
#[laby] fn norest(#[default(0)] y: impl Render) -> impl Render { b!(y) }
fn done(case: usize) { for (n, l, c) in SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) { println!("{case} {n} {l} {c}"); } }
"""
CFG28 = ("INIT Init\nNEXT Next\nCONSTANT Leaves = %s\nCONSTANT Frames = %s\nCONSTANT Gaps = %s\nCONSTANT MaxItems = %d\n"
         "CONSTANT MaxDepth = %d\nCONSTANT Design = \"%s\"\nINVARIANT Stays %s\n")
LEAVES = "at sum not blk fmt line str"
FRAMES = "el void frag classes comp inner let closure some mapped iter if match"
GAPS = "space line indent note wide"


def span_of(s):
    while s.get("expansion") and s["expansion"].get("span"):
        s = s["expansion"]["span"]
    return s["line_start"], s["column_start"]


def run(chk):
    k = 4 if chk.thorough else 1

    def get(leaves, frames, gaps, items, depth, sim=None, seed=0):
        cfg = CFG28 % (tset(leaves), tset(frames), tset(gaps), items, depth, "keep", "Emit")
        t = tlc("Place", cfg, sim=sim, depth=400, seed=chk.seed * 1000 + seed, workers=1, timeout=800) if sim else \
            tlc("Place", cfg, heap="8g")
        chk.count(t)
        return [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    t = tlc("Place", CFG28 % (tset("at line"), tset("el if"), tset("space line"), 2, 1, "reparse", ""), ok=(12,))
    if "Invariant Stays is violated" not in t.text:
        raise ToolError("losing places was not noticed by the specification")
    r = random.Random(chk.seed)
    small = get(LEAVES, FRAMES, "space indent", 2, 1)
    some = lambda xs, n: r.sample(xs, min(len(xs), n))
    good = some(small, 1200 * k) + some(get(LEAVES, FRAMES, GAPS, 9, 4, 2500 * k, 1), 1300 * k)
    bad = {"mistake": [], "flaw": []}
    for i, m in enumerate(("nope", "type", "lint")):
        bad["mistake"].append((m, some(get(m, FRAMES, "space indent", 2, 1), 300 * k)
                               + some(get(m + " at str", FRAMES, GAPS, 7, 4, 4000 * k, 2 + i), 500 * k)))
    flaws = "badvoid badclass badname badmiss badrest"
    bad["flaw"].append(("flaw", some(get("at str", flaws, "space indent", 3, 1), 300 * k)
                        + some(get("at str", FRAMES + " " + flaws, GAPS, 7, 4, 6000 * k, 6), 700 * k)))
    rt = build_rt("debug")
    d = scratch("p28")

    def parts(cases):
        per = max(20, (len(cases) + NCPU - 1) // NCPU)
        return [(i, cases[i:i + per]) for i in range(0, len(cases), per)]

    def write(name, base, cases, lint=""):
        src = os.path.join(d, "%s%d.rs" % (name, base))
        head = HEAD28.replace("@LINT@", lint)
        starts, lines, out = [], head.count("\n"), [head]
        for j, c in enumerate(cases):
            # the template begins a line of its own, to be line 1
            pre = "fn c%d() { let _s = render!(\n" % (base + j)
            body = c["text"] + "\n); done(%d); }\n" % (base + j)
            starts.append(lines + 1)
            lines += (pre + body).count("\n")
            out += [pre, body]
        out.append("fn main() { %s }\n" % " ".join("c%d();" % (base + j) for j in range(len(cases))))
        with open(src, "w") as f:
            f.write("".join(out))
        return src, starts

    def good_one(job):
        base, cs = job
        src, starts = write("g", base, cs)
        ok, diags = rustc(src, src[:-3], rt)
        if not ok:
            return base, cs, starts, None, [(x["message"], [span_of(s) for s in x["spans"] if s["is_primary"]][:1])
                                            for x in diags if x.get("level") == "error"][:5]
        rc, out, err = run_bin([src[:-3]])
        os.unlink(src[:-3])
        return base, cs, starts, out, err

    recs, back = [], []
    for base, cs, starts, out, err in pmap(good_one, parts(good)):
        if out is None:
            chk.violation("a well-formed template does not compile", {"errors": err})
            continue
        seen = {}
        for l in out.splitlines():
            c, n, line, col = map(int, l.split())
            seen.setdefault(c, set()).add((n, line - starts[c - base], col))
        for j, c in enumerate(cs):
            recs.append({"what": "runs", "tree": c["tree"], "gaps": c["gaps"], "seen": sorted(seen.get(base + j, ()))})
            back.append(c)
    chk.log("%d templates ran" % len(recs))

    def bad_one(job):
        what, m, base, cs = job
        src, starts = write(m, base, cs, "#![deny(unused_variables)]" if m == "lint" else "")
        ok, diags = rustc(src, src[:-3] + ".rmeta", rt, emit="metadata")
        res = [set() for _ in cs]
        for dg in diags:
            if dg.get("level") != "error":
                continue
            for s in dg["spans"]:
                if s["is_primary"]:
                    l, c = span_of(s)
                    js = [j for j, st in enumerate(starts) if st <= l]
                    if js:
                        res[js[-1]].add((0, l - starts[js[-1]], c))
        return what, m, cs, res

    jobs = [(w, m, b, cs) for w in bad for m, xs in bad[w] for b, cs in parts(xs)]
    for what, m, cs, res in pmap(bad_one, jobs):
        for c, s in zip(cs, res):
            recs.append({"what": what, "tree": c["tree"], "gaps": c["gaps"], "seen": sorted(s)})
            back.append(c)
    chk.notes["templates"] = {"running": len(good), "with_a_mistake": sum(len(x) for _, x in bad["mistake"]),
                              "malformed": sum(len(x) for _, x in bad["flaw"])}
    chk.log("validating %d records" % len(recs))
    label = {"runs": "an expression does not report the place where it is written",
             "mistake": "a mistake is not reported where it is", "flaw": "a malformed call is not reported where it is"}
    rej = validate(chk, "PlaceTrace", recs)
    for j in rej[:20]:
        chk.violation(label[recs[j]["what"]], {"source": back[j]["text"], "seen": recs[j]["seen"], "tree": recs[j]["tree"]})
    for j in (0, len(recs) // 2, len(recs) - 1):
        chk.sample({"source": back[j]["text"], "seen": recs[j]["seen"]})
