"""P29: the work of rendering grows no faster than what is rendered."""
import os
from vlib import *
from rustgen import *

MAIN = r"""#![allow(unused, deprecated)]
use laby::*;
use laby::internal::Buffer;
use std::fmt::Write;
use std::hint::black_box;
// blocks never grow where they lie
struct Moving;
unsafe impl std::alloc::GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::GlobalAlloc::alloc(&std::alloc::System, l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, l) }
}
#[global_allocator] static MOVING: Moving = Moving;
struct Disp(usize, &'static str);
impl std::fmt::Display for Disp { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for _ in 0..self.0 { f.write_str(self.1)?; } Ok(()) } }
struct Chars(usize, char);
impl std::fmt::Display for Chars { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for _ in 0..self.0 { f.write_char(self.1)?; } Ok(()) } }
#[laby] fn row(a: impl Render, #[default("-")] b: impl Render, #[rest] r: impl Render) -> impl Render { tr!(td!(title = a, b), r) }
fn text(s: &str, n: usize) -> String { let mut t = String::new(); while t.len() < n { t.push_str(s); } t }
struct Work<'a> { n: usize, plain: &'a str, special: &'a str, mixed: &'a str, sparse: &'a str, wide: &'a str, nums: &'a [u64], flts: &'a [f64], strs: &'a [String] }
fn small<T: Render>(x: T) -> String { let mut b = Buffer::new(); x.render(&mut b); b.into_string() }
fn work(which: &str, w: &Work) -> usize {
    let n = w.n;
    match which {
@ARMS@
        _ => panic!("unknown"),
    }
}
#[no_mangle] #[inline(never)] extern "C" fn measured(which: &str, w: &Work) -> usize { black_box(work(black_box(which), black_box(w))) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[2].parse().unwrap();
    let (plain, special, mixed) = (text("plain text ", n), text("<", n), text("a<b&\"c\" ", n));
    let (sparse, wide) = (text("some thirty bytes and a special one <", n), text("\u{20ac}\u{e9}\u{1f600}", n));
    let nums: Vec<u64> = (0..n as u64 / 4).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15)).collect();
    let flts: Vec<f64> = nums.iter().map(|i| *i as f64 / 3.0e7).collect();
    let strs: Vec<String> = (0..n / 8).map(|i| format!("item&{}", i)).collect();
    raw_cpuid::native_cpuid::verif_set_mode(a[3].parse().unwrap());
    // the first use chooses the implementation
    render!(plain.as_str());
    let w = Work { n, plain: &plain, special: &special, mixed: &mixed, sparse: &sparse, wide: &wide, nums: &nums, flts: &flts, strs: &strs };
    println!("{}", measured(&a[1], &w));
}
"""
# what is rendered, of a size proportional to n
TEXTS29 = "plain special mixed sparse wide".split()
EACH = [("%s", ""), ("p!(%s)", "el"), ("p!(title = %s)", "at"), ("classes!(%s, %s)", "cl"), ("Some(%s)", "opt"),
        ("String::from(%s)", "own"), ("std::borrow::Cow::Borrowed(%s)", "cow"), ("raw!(%s)", "raw"), ("disp!(%s)", "disp"),
        ("format_args!(\"{}\", %s)", "fmt"), ("format_args!(\"{:?}\", %s)", "dbg")]
LISTS = [("w.strs.iter().map(|s| s.as_str())", "str"), ("w.strs.iter().map(|s| li!(s.as_str(), id = s.len()))", "el"),
         ("w.strs.iter().map(|s| row!(a = s.as_str(), \"<\", b!(s.as_str())))", "comp"), ("w.nums.iter().copied()", "num"),
         ("w.flts.iter().copied()", "flt"), ("w.plain.chars()", "chr"), ("w.special.chars()", "spc"), ("w.wide.chars()", "wchr"),
         ("w.nums.iter().map(|n| n % 2 == 0)", "bool"), ("w.nums.iter().map(|n| Some(*n as u8))", "opt"),
         ("w.nums.iter().map(|n| frag_match!(if n % 2 == 0 { 'a' } else { \"<\" }))", "if"),
         ("w.nums.iter().map(|n| frag_match!(match n % 3 { 0 => 'a', 1 => i!(n.count_ones()), _ => () }))", "match"),
         ("w.strs.iter().map(|s| raw!(s))", "raw"), ("w.nums.iter().map(|n| format_args!(\"{}\", n).to_string())", "fmt"),
         ("w.strs.iter().map(|s| input!(checked = bool!(s.len() > 6), value = s.as_str()))", "flag"),
         ("(0..n / 16).map(|_| ())", "unit"), ("w.strs.iter().map(|s| { let s = s.as_str(); classes!(s, \"x\", s) })", "cls")]
BUF = [("let mut b = Buffer::new(); for c in w.%s.chars() { b.push(c); } b.len()", "push"),
       ("let mut b = Buffer::new(); for c in w.%s.chars() { laby::Render::render(c, &mut b); } b.len()", "pushesc"),
       ("let mut b = Buffer::new(); for s in w.%s.split_inclusive(' ') { b.push_str(s); } b.len()", "pushstr"),
       ("let mut b = Buffer::new(); for s in w.%s.split_inclusive(' ') { laby::Render::render(s, &mut b); } b.len()", "strsesc"),
       ("let mut b = Buffer::new(); for s in w.%s.split_inclusive(' ') { write!(b, \"{}\", s).unwrap(); } b.len()", "write"),
       ("let mut b = Buffer::new(); for c in w.%s.chars() { b.reserve(1); b.push(c); } b.len()", "reserve"),
       ("let mut b = Buffer::from(w.%s); b.push('x'); let c = b.clone(); c.len() + b.into_string().len()", "clone")]

LEVELLED = ("", "at", "small", "pieces", "fmt", "str", "delim-str", "small-str", "buf-push")


def arms():
    out = {}
    for t in TEXTS29:
        for e, nm in EACH:
            out["%s-%s" % (t, nm)] = "render!(%s).len()" % e.replace("%s", "w." + t)
        out["%s-small" % t] = "small(w.%s).len()" % t
        out["%s-pieces" % t] = "render!(disp!(Disp(n / 8, %s))).len()" % rstr(
            {"plain": "plain te", "special": "<", "mixed": "a<b&", "sparse": "eight by", "wide": "\u20ac<"}[t])
        out["%s-chars" % t] = "small(disp!(Chars(n / 4, '%s'))).len()" % {"plain": "p", "special": "<", "mixed": "&", "sparse": "x",
                                                                     "wide": "\u20ac"}[t]
        for s, nm in BUF:
            out["%s-buf-%s" % (t, nm)] = "{ %s }" % (s % t)
    for e, nm in LISTS:
        out["list-" + nm] = "render!(iter!(%s)).len()" % e
        out["list-small-" + nm] = "small(ul!(iter!(%s))).len()" % e
        out["delim-" + nm] = "render!(iter!(\"--\", %s)).len()" % e
        out["lines-" + nm] = "small(iter_lines!(%s)).len()" % e
    out["nest-iter"] = "render!(iter!((0..n / 256).map(|_| ul!(iter!((0..16).map(|i| li!(i))))))).len()"
    out["many-render"] = "(0..n / 512).map(|i| render!(p!(i)).len()).sum()"
    return out


def run(chk):
    cfg = ("INIT Init\nNEXT Next\nCONSTANT Grow = \"%s\"\nCONSTANT Scan = \"%s\"\nCONSTANT MaxOut = %d\nCONSTANT Pieces = {%s}\n"
           "INVARIANT Linear\n")
    chk.count(tlc("Work", cfg % ("double", "once", 60 if chk.thorough else 36, "1, 2, 3, 7")))
    for g, s in (("fixed", "once"), ("exact", "once"), ("double", "again"), ("double", "ahead")):
        t = tlc("Work", cfg % (g, s, 60, "1, 2"), ok=(12,))
        if "Invariant Linear is violated" not in t.text:
            raise ToolError("the specification does not notice growth %s, scanning %s" % (g, s))
    rt = build_rt("release")
    d = scratch("p29")
    ws = arms()
    src = os.path.join(d, "work.rs")
    with open(src, "w") as f:
        f.write(MAIN.replace("@ARMS@", "\n".join("        %s => %s," % (json.dumps(k), v) for k, v in sorted(ws.items()))))
    exe = os.path.join(d, "work")
    ok, diags = rustc(src, exe, rt, externs=("laby", "raw_cpuid"))
    if not ok:
        raise ToolError("the workloads do not compile: %s" % [(x["message"], lines_of(x)) for x in diags if x.get("level") == "error"][:8])
    sizes = [4096 << j for j in ((0, 1, 2, 3, 4, 5, 6, 7) if chk.thorough else (0, 2, 5))]
    names = sorted(ws)

    def count(name, n, lv):
        rc, out, err = run_bin(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--collect-atstart=no",
                                "--toggle-collect=measured", exe, name, str(n), str(lv)])
        m = re.search(r"Collected : (\d+)", err)
        if rc != 0 or not m:
            raise ToolError("counting %s failed: %s" % (name, err[-800:]))
        return min(int(m.group(1)), 2000000000), int(out)

    steep = []

    def row(job):
        # a row that is hopeless already is not continued, and many of them are enough
        name, lv = job
        r = {"what": name, "level": lv, "n": [], "work": [], "out": []}
        for n in sizes:
            if len(steep) >= 8:
                return None
            w, o = count(name, n, lv)
            r["n"].append(n), r["work"].append(w), r["out"].append(o)
            if w / (n + o) > 3 * r["work"][0] / (r["n"][0] + r["out"][0]) + 8:
                steep.append(name)
                break
        return r

    # every scanner for what is mostly escaping, the best one for the rest
    best = 6 if "avx2" in open("/proc/cpuinfo").read() else 3
    rows = [(x, lv) for x in names for lv in ((1, 3, best) if x.split("-", 1)[1] in LEVELLED else (best,))]
    recs = [r for r in pmap(row, rows) if r]
    chk.log("validating %d records" % len(recs))
    for j in validate(chk, "WorkTrace", recs):
        chk.violation("the work grows faster than what is rendered", {"record": recs[j], "code": ws[recs[j]["what"]]})
    chk.notes["workloads"] = len(recs)
    rate = lambda r, j: r["work"][j] / (r["n"][j] + r["out"][j])
    chk.notes["worst_growth"] = sorted(((round(rate(r, -1) / rate(r, 0), 3), r["what"]) for r in recs), reverse=True)[:8]
    for j in (0, len(recs) // 2, len(recs) - 1):
        chk.sample(recs[j])
    chk.assumptions = ["work is counted in instructions, under valgrind's processor; only its growth is judged"]
