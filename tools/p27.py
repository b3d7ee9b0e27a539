"""P27: templates ask nothing of their values beyond rendering, and do not tie down what holds them."""
import os
from vlib import *
from rustgen import *
from p12 import compile_all

HEAD27 = HEAD + r"""
use std::{cell::Cell, fmt, marker::{PhantomData, PhantomPinned}, rc::Rc, sync::MutexGuard};
static TEXTS: [&str; 40] = [@TEXTS@];
// each type offers this and nothing else
macro_rules! shows { ($([$($g:tt)*] $t:ty, $s:ident => $e:expr;)*) => { $(
    impl<$($g)*> Render for $t { fn render(self, b: &mut laby::internal::Buffer) { let $s = &self; let t: &str = $e; t.render(b) } }
    impl<$($g)*> fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let $s = self; let t: &str = $e; f.write_str(t) } }
    impl<$($g)*> AsRef<str> for $t { fn as_ref(&self) -> &str { let $s = self; $e } }
)* } }
struct Own(usize);
impl Drop for Own { fn drop(&mut self) { self.0 = 0 } }
struct Zst<const N: usize>;
struct Huge([u8; 16384], usize);
struct Pinned(usize, PhantomPinned);
#[repr(align(128))] struct Packed(usize);
struct RcHeld(Rc<usize>);
struct Ptr(*const usize);
struct Dyn(Box<dyn Fn() -> usize>);
struct DynSend(Box<dyn Fn() -> usize + Send>);
struct Celled(Cell<usize>);
struct Guarded(usize, PhantomData<MutexGuard<'static, ()>>);
struct Refs<'a>(&'a str);
impl<'a> Refs<'a> { fn new(s: &'a String) -> Refs<'a> { Refs(s) } }
struct RefCelled<'a>(&'a Cell<usize>);
struct MutRef<'a>(&'a mut usize);
struct Inv<'a>(Cell<&'a str>);
impl<'a> Inv<'a> { fn new(s: &'a String) -> Inv<'a> { Inv(Cell::new(s)) } }
shows! { [] Own, s => TEXTS[s.0]; [const N: usize] Zst<N>, s => TEXTS[N]; [] Huge, s => TEXTS[s.1]; [] Pinned, s => TEXTS[s.0];
    [] Packed, s => TEXTS[s.0]; [] RcHeld, s => TEXTS[*s.0]; [] Ptr, s => TEXTS[unsafe { *s.0 }]; [] Dyn, s => TEXTS[(s.0)()];
    [] DynSend, s => TEXTS[(s.0)()]; [] Celled, s => TEXTS[s.0.get()]; [] Guarded, s => TEXTS[s.0]; ['a] Refs<'a>, s => s.0;
    ['a] RefCelled<'a>, s => TEXTS[s.0.get()]; ['a] MutRef<'a>, s => TEXTS[*s.0]; ['a] Inv<'a>, s => s.0.get(); }
fn opaque(n: usize) -> impl Render { struct By<F>(F); impl<F: FnOnce() -> usize> Render for By<F> {
    fn render(self, b: &mut laby::internal::Buffer) { TEXTS[(self.0)()].render(b) } } By(move || n) }
#[laby] fn comp(x: impl Render, #[default] z: Option<u8>, #[rest] r: impl Render) -> impl Render { b!(title = x, z, r) }
static NUMS: [usize; 40] = [@NUMS@];
fn need_send<T: Render + Send>(_: &T) {}
fn need_sync<T: Render + Sync>(_: &T) {}
fn need_static<T: Render + 'static>(_: &T) {}
"""
HEAD27 = HEAD27.replace("@TEXTS@", ", ".join('"<%d&"' % i for i in range(40))).replace("@NUMS@", ", ".join(map(str, range(40))))
VALUE = {"lit": '"<%d&"', "own": "Own(%d)", "zst": "Zst::<%d>", "huge": "Huge([0; 16384], %d)", "opaque": "opaque(%d)",
         "pinned": "Pinned(%d, PhantomPinned)", "packed": "Packed(%d)", "rc": "RcHeld(Rc::new(%d))", "rawptr": "Ptr(&NUMS[%d])",
         "dyn": "Dyn(Box::new(|| %d))", "dynsend": "DynSend(Box::new(|| %d))", "cell": "Celled(Cell::new(%d))",
         "guard": "Guarded(%d, PhantomData)", "ref": "Refs::new(&s%d)", "refcell": "RefCelled(&c%d)", "mutref": "MutRef(&mut m%d)",
         "inv": "Inv::new(&s%d)", "tmp": "Refs::new(&TEXTS[%d].to_string())", "gen": "t%d", "gens": "t%d", "genss": "t%d"}
LOCAL = {"ref": "let s%d = String::from(TEXTS[%d]);", "inv": "let s%d = String::from(TEXTS[%d]);",
         "refcell": "let c%d = Cell::new(%d);", "mutref": "let mut m%d = %d;"}
BOUND = {"gen": "Render", "gens": "Render + Send", "genss": "Render + Send + Sync + 'static"}


class Source:
    def __init__(self, r):
        self.r = r
        self.leaves = []

    def leaf(self, n):
        self.leaves.append(n)
        e = VALUE[n["kind"]] % n["id"]
        return {"is": "%s", "raw": "raw!(%s)", "disp": self.r.choice(["disp!(%s)", "format_args!(\"{}\", %s).to_string()"])
                if n["kind"] not in ("tmp", "ref", "refcell", "inv", "mutref", "rc", "rawptr", "dyn", "dynsend", "cell", "guard")
                else "disp!(%s)"}[n["how"]] % e

    def item(self, i):
        if i["as"] == "child":
            return self.node(i["x"])
        x = self.node(i["x"])
        if i["as"] == "arg":
            return "x = " + x
        if i["as"] == "value":
            return "title = " + x
        name = x if x[0] not in "{(" and "!" in x else "(%s)" % x
        return {"name": "%s = \"v\"", "flag": self.r.choice(["%s = bool!(pass(true))", "%s = bool!(true)"]),
                "off": "%s = bool!(pass(false))"}[i["as"]] % name

    def node(self, n):
        k = n["k"]
        if k == "leaf":
            return self.leaf(n)
        xs = [self.item(i) for i in n["items"]]
        if k in ("el", "void", "frag", "classes", "comp"):
            return "%s!(%s)" % ({"el": "p", "void": "br"}.get(k, k), ", ".join(xs))
        if k == "some":
            return "Some(%s)" % xs[0]
        if k == "let":
            return "{ let q = %s; q }" % xs[0]
        if k == "closure":
            return "(|| %s)()" % xs[0]
        if k == "map":
            return "iter!((0..2).map(|_| %s))" % xs[0]
        if k == "iter":
            return self.r.choice(["iter!([%s])", "RenderIterator([%s])"]) % ", ".join(xs)
        if k == "delim":
            return "iter!(\"--\", [%s])" % ", ".join(xs)
        take = n["take"] % len(xs)
        if k == "match":
            return "frag_match!(match pass(%d) { %s, %s => %s })" % (
                take, ", ".join("%d => %s" % (j, x) for j, x in enumerate(xs)), "_", "\"never\"")
        conds = ["if pass(%d) == %d { %s }" % (take, j, x) for j, x in enumerate(xs)]
        if self.r.random() < 0.5:
            conds[-1:] = ["{ %s }" % xs[-1]] if len(xs) > 1 else conds
        return "frag_match!(%s)" % " else ".join(conds)


def build(tree, seed):
    s = Source(random.Random(seed))
    e = s.node(tree)
    local = " ".join(LOCAL[n["kind"]] % (n["id"], n["id"]) for n in s.leaves if n["kind"] in LOCAL)
    gens = [n for n in s.leaves if n["kind"] in BOUND]
    return e, local, "".join("T%d: %s, " % (n["id"], BOUND[n["kind"]]) for n in gens), \
        "".join("t%d: T%d, " % (n["id"], n["id"]) for n in gens), "".join("Zst::<%d>, " % n["id"] for n in gens)


def asks(j, tree, what, seed):
    """A function that does this with the markup."""
    e, local, gens, params, _ = build(tree, seed)
    body = {"send": "%s need_send(&%s);", "sync": "%s need_sync(&%s);", "static": "%s need_static(&%s);",
            "block": "let m = { %s %s }; render!(m);", "stmt": "%s let m = %s; render!(m);"}[what] % (local, e)
    return "fn w%d<%s>(%s) { %s }\n" % (j, gens, params, body)


def case(j, tree, can, text, seed):
    e, local, gens, params, args = build(tree, seed)
    how = "let s = render!(%s);" % e
    if tree["k"] == "frag" and len(tree["items"]) != 1 and random.Random(seed + 1).random() < 0.7:
        how = "let s = render!(%s);" % e[len("frag!("):-1]      # several at once, as documented
    if {"send", "static"} <= can:
        how = random.Random(seed).choice([how, "let m = %s; let s = std::thread::spawn(move || render!(m)).join().unwrap();" % e])
    elif {"send", "stmt"} <= can:
        how = random.Random(seed).choice([how, "let m = %s; let s = std::thread::scope(|x| x.spawn(move || render!(m)).join().unwrap());" % e])
    elif "stmt" in can:
        how = random.Random(seed).choice([how, "let m = %s; let s = render!(m);" % e])
    root = {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": "", "t": enc(text)}
    return Case({"lets": [], "root": root}, "take", body="_rt.take(f%d(%s));" % (j, args),
                items="fn f%d<%s>(%s) -> String { %s %s s }" % (j, gens, params, local, how))


CFG27 = ("INIT Init\nNEXT Next\nCONSTANT Kinds = %s\nCONSTANT Frames = %s\nCONSTANT MaxItems = %d\nCONSTANT MaxDepth = %d\n"
         "INVARIANT Decides Emit\n")
KINDS = ("lit own zst huge opaque pinned packed genss rc rawptr dyn cell dynsend guard ref mutref refcell inv tmp gen gens")
FRAMES = "el void frag classes branch match iter delim some map let closure comp"


def run(chk):
    k = 4 if chk.thorough else 1
    def get(t):
        chk.count(t)
        return [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    # every kind of value in every kind of place; two deep; and larger ones
    one = get(tlc("Carry", CFG27 % (tset(KINDS), tset(FRAMES), 2, 1), heap="8g"))
    two = get(tlc("Carry", CFG27 % (tset("lit own rc cell guard ref tmp gen gens"), tset(FRAMES), 3, 2), heap="8g"))
    big = get(tlc("Carry", CFG27 % (tset(KINDS), tset(FRAMES), 9, 4), sim=6000 * k, depth=60, seed=chk.seed * 1000 + 1, workers=1))
    big += get(tlc("Carry", CFG27 % (tset("lit own opaque zst genss ref gens cell"), tset(FRAMES), 14, 5), sim=3000 * k, depth=60,
                   seed=chk.seed * 1000 + 2, workers=1))
    r = random.Random(chk.seed)
    pick = one + r.sample(two, min(len(two), 1500 * k)) + r.sample(big, min(len(big), 1500 * k))
    chk.notes["trees"] = {"one_value": len(one), "three_items": len(two), "larger": len(big), "used": len(pick)}
    rt = build_rt("debug")
    yes, no = [], []
    for j, x in enumerate(pick):
        can = set(x["can"])
        for a in ("send", "sync", "static", "block", "stmt"):
            (yes if a in can else no).append((x["tree"], a))
    yes = r.sample(yes, min(len(yes), 4500 * k))
    no = r.sample(no, min(len(no), 3500 * k))
    chk.log("%d uses possible, %d not" % (len(yes), len(no)))
    good = [asks(j, t, a, chk.seed * 100000 + j) for j, (t, a) in enumerate(yes)]
    bad = [asks(j, t, a, chk.seed * 100000 + 50000 + j) for j, (t, a) in enumerate(no)]
    errors, _ = compile_all(rt, "p27ok", HEAD27, good)
    for i, m in sorted(errors.items())[:20]:
        chk.violation("markup cannot be used as its values can", {"use": yes[i][1], "source": good[i], "error": m})
    errors, rounds = compile_all(rt, "p27no", HEAD27, bad)
    for i in [i for i in range(len(bad)) if i not in errors][:20]:
        chk.violation("markup can be used where its values cannot", {"use": no[i][1], "source": bad[i]})
    chk.notes["uses"] = {"accepted": len(good), "rejected": len(bad), "rounds": rounds}
    msgs = {}
    for m in errors.values():
        m = re.sub(r"`[^`]*`", "`..`", m)
        msgs[m] = msgs.get(m, 0) + 1
    chk.notes["messages"] = dict(sorted(msgs.items(), key=lambda x: -x[1])[:12])
    chk.traces += len(good) + len(bad)
    for s in (good[0], good[-1], bad[0], bad[-1]):
        chk.sample(s)
    cases = [case(j, x["tree"], set(x["can"]), x["text"], chk.seed * 100000 + j) for j, x in enumerate(pick)]
    judge(chk, "p27", cases, "text", label="a value is not rendered whatever its type", head=HEAD27)
