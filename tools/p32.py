"""P32: wrapped values are plain values."""
from vlib import *
from rustgen import *

END = 4
SRC32 = r'''
#![allow(warnings)]
#![deny(unconditional_recursion)]
use laby::*;
use std::{any::Any, cell::{Cell, RefCell}, collections::HashSet, fmt, io::BufRead, rc::Rc};
const TEXTS: [&str; 5] = ["a<b", "", "\"q\"", "x & y", "'"];
const END: usize = @END@;
thread_local! { static ALIVE: RefCell<(usize, HashSet<usize>, bool)> = RefCell::new((0, HashSet::new(), false)); }
/// What a content owns: given back exactly once.
struct Tok(usize);
impl Tok { fn new() -> Tok { ALIVE.with(|a| { let mut a = a.borrow_mut(); a.0 += 1; let n = a.0; a.1.insert(n); Tok(n) }) } }
impl Drop for Tok { fn drop(&mut self) { ALIVE.with(|a| { let mut a = a.borrow_mut(); if !a.1.remove(&self.0) { a.2 = true } }) } }
impl Clone for Tok { fn clone(&self) -> Tok { Tok::new() } }
struct Item(Tok, usize);      // can be rendered, and nothing else
impl Render for Item { fn render(self, b: &mut laby::internal::Buffer) { TEXTS[self.1].render(b) } }
#[derive(Clone)] struct Own(Tok, usize);
#[derive(Clone)] struct Shared(Tok, Rc<Cell<usize>>);
trait Content: Sized { fn at(&self) -> usize; fn put(&self, n: usize) {} fn set(&mut self, n: usize); fn fresh(n: usize) -> Self; }
impl Content for Own { fn at(&self) -> usize { self.1 } fn set(&mut self, n: usize) { self.1 = n } fn fresh(n: usize) -> Own { Own(Tok::new(), n) } }
impl Content for Shared { fn at(&self) -> usize { self.1.get() } fn set(&mut self, n: usize) { self.1.set(n) } fn fresh(n: usize) -> Shared { Shared(Tok::new(), Rc::new(Cell::new(n))) } }
macro_rules! content { ($($t:ty)*) => { $(
    impl AsRef<str> for $t { fn as_ref(&self) -> &str { TEXTS[self.at()] } }
    impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(TEXTS[self.at()]) } }
    impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "at{}of{}", self.at(), self.0.0) } }
    impl Iterator for $t { type Item = Item; fn next(&mut self) -> Option<Item> { let n = self.at(); if n < END { self.set(n + 1); Some(Item(Tok::new(), n)) } else { None } } }
)* } }
content! { Own Shared }
type Sep = RenderIteratorDelimited<Own, Own>;
type SepShared = RenderIteratorDelimited<Shared, Own>;
enum Loose { Own(Own), Shared(Shared) }
trait Handle {
    fn dup(&self) -> Box<dyn Handle>;
    fn dup_from(&mut self, other: &dyn Handle);
    fn step(&mut self);
    fn set(&mut self, n: usize);
    fn renew(&mut self, n: usize);
    fn other(&mut self, n: usize) {}
    fn open(self: Box<Self>) -> Loose;
    fn shown(&self) -> bool;
    fn out(self: Box<Self>, place: &str) -> String;
    fn copy(&self, place: &str) -> String;
    fn any(&self) -> &dyn Any;
}
fn place(x: impl Render, p: &str) -> String {
    match p {
        "alone" => render!(x), "child" => render!(p!(x)), "value" => render!(p!(id = x)), "some" => render!(Some(x)),
        "twice" => { let mut b = laby::internal::Buffer::from("-"); x.render(&mut b); b.push('-'); b.into_string() }
        "branch" => render!(frag_match!(match TEXTS.len() { 0 => "never", _ => x })),
        _ => unreachable!(),
    }
}
macro_rules! handle { ($($t:ty, $c:ty, $l:path, |$s:ident, $n:ident| { $($extra:tt)* } [$($second:tt)*];)*) => { $(
    impl Handle for $t {
        fn dup(&self) -> Box<dyn Handle> { Box::new(self.clone()) }
        fn dup_from(&mut self, other: &dyn Handle) { self.clone_from(other.any().downcast_ref::<$t>().unwrap()) }
        fn step(&mut self) { let _ = self.0.next(); }
        fn set(&mut self, n: usize) { self.0.set(n) }
        fn renew(&mut self, n: usize) { self.0 = <$c>::fresh(n) }
        fn other(&mut self, $n: usize) { let $s = self; $($extra)* }
        fn open(self: Box<Self>) -> Loose { let Self(content $($second)*) = *self; $l(content) }
        fn shown(&self) -> bool { let s = format!("{:?}", self); let _ = format!("{:#?}", self); s.contains(&format!("{:?}", self.0)) }
        fn out(self: Box<Self>, p: &str) -> String { place(*self, p) }
        fn copy(&self, p: &str) -> String { place(self.clone(), p) }
        fn any(&self) -> &dyn Any { self }
    }
)* } }
handle! {
    RenderRaw<Own>, Own, Loose::Own, |s, n| {} []; RenderRaw<Shared>, Shared, Loose::Shared, |s, n| {} [];
    RenderDisplay<Own>, Own, Loose::Own, |s, n| {} []; RenderDisplay<Shared>, Shared, Loose::Shared, |s, n| {} [];
    RenderIterator<Own>, Own, Loose::Own, |s, n| {} []; RenderIterator<Shared>, Shared, Loose::Shared, |s, n| {} [];
    Sep, Own, Loose::Own, |s, n| { s.1 = Own::fresh(n) } [, _]; SepShared, Shared, Loose::Shared, |s, n| { s.1 = Own::fresh(n) } [, _];
}
macro_rules! made { ($c:expr, $w:expr, $how:expr, $k:expr) => {{
    let c = $c;
    match ($w, $how) {
        ("raw", "macro") => Box::new(raw!(c)) as Box<dyn Handle>, ("raw", "new") => Box::new(RenderRaw(c)),
        ("raw", "from") => Box::new(RenderRaw::from(c)), ("raw", "into") => { let x: RenderRaw<_> = c.into(); Box::new(x) }
        ("disp", "macro") => Box::new(disp!(c)), ("disp", "new") => Box::new(RenderDisplay(c)),
        ("disp", "from") => Box::new(RenderDisplay::from(c)), ("disp", "into") => { let x: RenderDisplay<_> = c.into(); Box::new(x) }
        ("list", "macro") => Box::new(iter!(c)), ("list", "new") => Box::new(RenderIterator(c)),
        ("list", "from") => Box::new(RenderIterator::from(c)), ("list", "into") => { let x: RenderIterator<_> = c.into(); Box::new(x) }
        ("sep", "macro") => Box::new(iter!(Own::fresh($k), c)), ("sep", "new") => Box::new(RenderIteratorDelimited(c, Own::fresh($k))),
        _ => unreachable!(),
    }
}} }
fn main() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut hs: Vec<Option<Box<dyn Handle>>> = (0..5).map(|_| None).collect();
        ALIVE.with(|a| *a.borrow_mut() = (0, HashSet::new(), false));
        let mut obs = vec![];
        let (_, _) = ((), ());
        for op in line.split(';') {
            let f: Vec<&str> = op.split(',').collect();
            let (i, k, n): (usize, usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[5].parse().unwrap());
            let (w, kind, how) = (f[3], f[4], f[6]);
            let (mut out, mut shown) = (String::new(), true);
            match f[0] {
                "make" => hs[i] = Some(if kind == "own" { made!(Own::fresh(n), w, how, k) } else { made!(Shared::fresh(n), w, how, k) }),
                "clone" => { let x = hs[i].as_ref().unwrap().dup(); hs[k] = Some(x) }
                "assign" => { let x = hs[i].take().unwrap(); hs[k].as_mut().unwrap().dup_from(&*x); hs[i] = Some(x) }
                "step" => hs[i].as_mut().unwrap().step(),
                "set" => hs[i].as_mut().unwrap().set(n),
                "new" => hs[i].as_mut().unwrap().renew(n),
                "other" => hs[i].as_mut().unwrap().other(n),
                "wrap" => hs[i] = Some(match hs[i].take().unwrap().open() { Loose::Own(c) => made!(c, w, how, n), Loose::Shared(c) => made!(c, w, how, n) }),
                "move" => hs[k] = hs[i].take(),
                "show" => shown = hs[i].as_ref().unwrap().shown(),
                "copy" => out = hs[i].as_ref().unwrap().copy(w),
                "render" => out = hs[i].take().unwrap().out(w),
                "drop" => hs[i] = None,
                _ => unreachable!(),
            }
            obs.push(format!("{{\"out\": {:?}, \"live\": {}, \"shown\": {}}}", out, ALIVE.with(|a| a.borrow().1.len()), shown));
        }
        drop(hs);
        let bad = ALIVE.with(|a| { let a = a.borrow(); a.2 || !a.1.is_empty() });
        println!("{{\"bad\": {}, \"obs\": [{}]}}", bad, obs.join(", "));
    }
}
'''.replace("@END@", str(END))
CFG32 = ("INIT Init\nNEXT Next\nCONSTANT Handles = {%s}\nCONSTANT Wrappers = %s\nCONSTANT Kinds = %s\nCONSTANT Ns = {%s}\nCONSTANT Places = %s\n"
         "CONSTANT Hows = %s\nCONSTANT End = 4\nCONSTANT MaxOps = %d\nCONSTANT Design = \"%s\"\nINVARIANT Faithful Kept%s\n")
W, K, H = "raw disp list sep", "own cell", "macro new from into"
P = "alone child value some twice branch"


def run(chk):
    k = 5 if chk.thorough else 1
    for d in ("shared", "rewind", "early", "half"):
        t = tlc("Copies", CFG32 % ("1, 2", tset("list sep"), tset(K), "0, 2", tset("alone"), tset("new"), 4 if d == "half" else 3, d, ""), ok=(0, 12))
        if t.rc != 12:
            raise ToolError("the specification does not notice wrappers that are " + d)
    def get(t):
        chk.count(t)
        return sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})
    few = get(tlc("Copies", CFG32 % ("1, 2", tset(W), tset(K), "0, 3", tset("alone"), tset("new"), 3, "laby", " Emit"), heap="8g"))
    one = get(tlc("Copies", CFG32 % ("1", tset(W), tset(K), "2", tset(P), tset(H), 3, "laby", " Emit"), heap="8g"))
    four = get(tlc("Copies", CFG32 % ("1, 2", tset("list sep"), tset(K), "1", tset("alone"), tset("macro"), 4 if not chk.thorough else 5, "laby", " Emit"), heap="12g"))
    two = get(tlc("Copies", CFG32 % ("1, 2", tset("sep"), tset("own"), "0, 2", tset("alone"), tset("macro"), 4, "laby", " Emit"), heap="8g"))
    two = [x for x in two if '"assign"' in x]          # between separators of one length
    r = random.Random(chk.seed)
    def sim(i):
        q = random.Random(chk.seed * 100 + i)
        n, o = ((2, 8), (3, 14), (4, 24))[i % 3]
        some = lambda of, m: " ".join(sorted(q.sample(of.split() if isinstance(of, str) else of, m)))
        ns = some([str(x) for x in range(END + 1)], 2).replace(" ", ", ")
        return tlc("Copies", CFG32 % (", ".join(map(str, range(1, n + 1))), tset(W), tset(K), ns, tset(some(P, 2)), tset(some(H, 1)), o, "laby", " Emit"),
                   sim=60, depth=o + 2, seed=chk.seed * 1000 + i, workers=1, timeout=300)
    long = [x for t in pmap(sim, range(12 * k)) for x in (lambda g: r.sample(g, min(len(g), 500)))(get(t))]
    pick = r.sample(few, min(len(few), 4000 * k)) + r.sample(one, min(len(one), 2500 * k)) + r.sample(four, min(len(four), 5000 * k)) + r.sample(two, min(len(two), 3000 * k)) + long
    chk.notes["histories"] = {"two_wrappers": len(few), "one_wrapper": len(one), "lists": len(four), "assigned": len(two), "long": len(long), "used": len(pick)}
    hists = [json.loads(x) for x in pick]
    for prof in ("debug", "release"):
        rt = build_rt(prof)
        d = scratch("p32" + prof)
        src, exe = os.path.join(d, "p.rs"), os.path.join(d, "p")
        open(src, "w").write(SRC32)
        ok, diags = rustc(src, exe, rt)
        if not ok:
            errs = [g for g in diags if g.get("level") == "error"]
            chk.violation("a wrapper cannot be used as its content allows", {"errors": [g["message"] for g in errs][:6],
                          "rendered": [g.get("rendered", "")[:900] for g in errs[:3]]})
            return
        hs = hists if prof == "debug" else hists[chk.seed % 4::4]
        chk.log("replaying %d histories (%s)" % (len(hs), prof))
        parts = [hs[i::NCPU] for i in range(NCPU) if hs[i::NCPU]]
        line = lambda h: ";".join(",".join(str(o[x]) for x in ("op", "i", "k", "w", "kind", "n", "how")) for o in h)
        def go(part):
            return part, run_bin([exe], stdin=("\n".join(map(line, part)) + "\n").encode(), timeout=300)
        recs, of = [], []
        for part, (rc, out, err) in pmap(go, parts):
            got = parse_lines(out)
            if rc != 0 or len(got) != len(part):
                chk.violation("the process ended while using wrapped values", {"profile": prof, "exit": rc, "stderr": err[-500:],
                                                                              "history": line(part[min(len(got), len(part) - 1)])})
            for h, g in zip(part, got):
                recs.append({"ops": h, "obs": g["obs"], "bad": g["bad"]})
                of.append(line(h))
        chk.log("validating %d records" % len(recs))
        for j in validate(chk, "CopiesTrace", recs, "CONSTANT End = %d\n" % END):
            chk.violation("a wrapped value is not what it holds", {"profile": prof, "history": of[j], "observed": recs[j]["obs"], "bad": recs[j]["bad"]})
        for j in (0, len(recs) - 1):
            chk.sample({"history": of[j][:400], "texts": [o["out"] for o in recs[j]["obs"] if o["out"]][:5]})
    chk.assumptions = ["what Debug prints is checked only for containing the content's own"]
