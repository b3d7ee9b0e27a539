"""P24: templates work in every surrounding."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

NAMES24 = ("Option Some None Result Ok Err String str bool u8 usize char Default Render Buffer core std alloc laby drop Box Vec "
           "Iterator IntoIterator Into From default render frag Send Sized Copy Clone Fn FnOnce Drop ToString push_str push inline "
           "format_args concat Cow Arguments Display Write fmt option result primitive string iter convert internal call new "
           "helpers write_str write_fmt panic unreachable macros").split()
ITEM = {"struct": "pub struct %s {}", "enum": "pub enum %s {}", "union": "pub union %s { a: () }", "trait": "pub trait %s {}",
        "type": "pub type %s = ();", "mod": "pub mod %s {}", "fn": "pub fn %s() {}",
        "macro": "macro_rules! %s { ($($t:tt)*) => { not_this_one }; }"}
TRAIT = """
pub trait Everything: crate::u::Sized { fn render(self, _: &mut ::laby::internal::Buffer) {} fn push_str(self, _: &::core::primitive::str) {} fn push(self, _: ::core::primitive::char) {}
    fn into_string(self) -> ::core::primitive::u8 { 1 } fn next(self) {} fn into_iter(self) {} fn unwrap(self) {} fn as_str(self) {} fn default() {} }
impl<T> Everything for T {}
"""
UROOT = """
#[doc(hidden)]
pub mod u {
    pub use alloc::string::String;
    use alloc::vec;
    pub use core::clone::Clone;
    pub use core::marker::Sized;
    pub use core::option::Option::{self, None, Some};
    pub use verifrt::probe::{cond, ev, ex, pass};
    pub use verifrt::run::Rt;
    /// the length of a text
    pub fn len(s: &str) -> usize { s.len() }
    /// whether a text is empty
    pub fn no(s: &str) -> bool { s.is_empty() }
    /// a component from elsewhere
    pub fn some<T>(t: T) -> Option<T> { Some(t) }
    /// text of one's own
    pub fn own(s: &str) -> String { String::from(s) }
    /// markup of several texts
    pub fn all<'a, R>(s: &'a str, f: fn(&'a str) -> R) -> core::iter::Map<alloc::vec::IntoIter<&'a str>, fn(&'a str) -> R> { vec![s, "2"].into_iter().map(f) }
    /// is the text that one
    pub fn is(s: &str, t: &str) -> bool { s == t }
}
"""
COMPS24 = """
/// d
#[::laby::laby] pub fn ka(x: impl ::laby::Render) -> impl ::laby::Render { ::laby::div!(x) }
/// d
#[::laby::laby] pub(crate) fn kb(#[default] x: ::core::primitive::u8, #[default("d")] y: impl ::laby::Render) -> impl ::laby::Render { ::laby::div!(x, y) }
#[::laby::laby] fn kc(#[rest] r: impl ::laby::Render, z: ::core::primitive::i32) -> impl ::laby::Render { ::laby::p!(id = z, r) }
#[::laby::laby] fn kd<T>(x: T) -> impl ::laby::Render where T: ::laby::Render { ::laby::b!(x) }
#[::laby::laby]
#[allow(non_snake_case)]
fn Card(x: impl ::laby::Render, mut y: ::core::primitive::u8) -> impl ::laby::Render { y += 1; ::laby::i!(title = y, x) }
fn ke() -> ::core::primitive::u8 { 7 }
#[::laby::laby] pub fn kf(#[default(ke())] x: ::core::primitive::u8, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { ::laby::u!(x, r) }
"""
V = "a<b"


def constructs():
    """Templates with every construct: (tree, source with $V for a text at hand)."""
    v, n3 = lf(V, "lit"), lf("3", "lit")
    fr = lambda *x: {"k": "frag", "items": list(x)}
    cl = lambda *x: {"k": "classes", "items": list(x)}
    ls = lambda sep, *x: {"k": "list", "sep": enc(sep), "items": list(x)}
    raw = lambda t: dict(lf(t, "lit"), raw=True)
    fl = lambda name, b: {"k": "attr", "name": {"k": "id", "s": name}, "flag": "lit", "id": 0, "b": b, "val": {"k": "none"}}
    dy = lambda name, x: dict(at("x", x), name=dict(lf(name, "lit")))
    one = lf("one", "lit")
    return [
        (el("div"), "::laby::div!()"), (el("div", v), "::laby::div!($V)"), (el("div", v, one, n3), "::laby::div!($V, \"one\", 3)"),
        (el("p", at("id", v), at("class", cl(v, one)), v), "::laby::p!(id = $V, class = ::laby::classes!($V, \"one\"), $V)"),
        (el("p", dy(V, v), dy("q", v)), "::laby::p!({ $V } = $V, \"q\" = $V)"),
        (el("input", fl("disabled", True), fl("a", True)), "::laby::input!(disabled = bool!(true), a = bool!(crate::u::len($V) == 3), b = bool!(crate::u::no($V)), c = bool!(false))"),
        (el("input", dict(fl("x", True), name=v), fl("q", True)), "::laby::input!({ $V } = bool!(crate::u::len($V) == 3), \"q\" = bool!(!crate::u::no($V)))"),
        (el("br"), "::laby::br!()"), (el("img", at("src", v)), "::laby::img!(src = $V)"),
        (el("div", el("p", v), el("p", el("b", v)), el("br")), "::laby::div!(::laby::p!($V), ::laby::p!(::laby::b!($V)), ::laby::br!())"),
        (fr(v, one, el("p", v)), "::laby::frag!($V, \"one\", ::laby::p!($V))"), (fr(), "::laby::frag!()"), (cl(v, one, n3), "::laby::classes!($V, \"one\", 3)"),
        (one, "::laby::frag_match!(if crate::u::len($V) == 3 { \"one\" } else if crate::u::no($V) { ::laby::p!($V) } else { 7 })"),
        (n3, "::laby::frag_match!(if crate::u::no($V) { \"one\" } else { 3 })"), (fr(), "::laby::frag_match!(if crate::u::no($V) { \"one\" })"),
        (v, "::laby::frag_match!(if let crate::u::Some(s) = crate::u::some($V) { s } else { 7 })"),
        (el("p", n3), "::laby::frag_match!(match crate::u::len($V) { 0 => \"one\", n if n > 2 => ::laby::p!(n), _ => { 7 } })"),
        (one, "::laby::frag_match!(match crate::u::len($V) { 3 => { \"one\" } 1 | 2 => { let n = 5; n } _ => () })"),
        (fr(), "::laby::frag_match!(if crate::u::len($V) == 3 {} else { 3 })"), (n3, "::laby::frag_match!(if crate::u::no($V) {} else if crate::u::len($V) == 3 { 3 } else { () })"),
        (fr(), "::laby::frag_match!(match crate::u::len($V) { 3 => {} _ => 3 })"), (n3, "::laby::frag_match!(match $V { \"q\" => (), s => crate::u::len(s) })"),
        (el("p", at("id", n3)), "::laby::p!(id = ::laby::frag_match!(if crate::u::len($V) == 3 { 3 }), ::laby::frag_match!(match 1 { 1 => {} _ => {} }))"),
        (el("input", fl("a", True), fl("c", True)), "::laby::input!(a = bool!({ true }), b = bool!((false)), c = bool!(if crate::u::no($V) { false } else { true }))"),
        (el("p", at("lang", n3), fl("type", True), at("for", v), v), "::laby::p!($V, r#lang = \"3\", r#type = bool!(true), r#for = $V,)"),
        (ls(", "), "::laby::iter!(\", \", crate::u::None::<&::core::primitive::str>)"), (ls("", v), "::laby::iter!(crate::u::some($V))"),
        (el("div", el("p", at("id", n3), el("div", v), v), el("b", one)), "::laby::div!(kc!(ka!(x = $V), $V, z = 3), kd!(x = \"one\"))"),
        (el("div", v, one), "::laby::div!($V, ::laby::frag_match!(if crate::u::len($V) == 3 { ::laby::frag_match!(match 3 { 1 => 1, _ => \"one\" }) }))"),
        (ls("", lf("1", "lit"), lf("2", "lit")), "::laby::iter!([1, 2])"), (ls(", ", v, v), "::laby::iter!(\", \", [$V, $V])"),
        (ls("", el("li", v), el("li", lf("2", "lit"))), "::laby::iter!(crate::u::all($V, |s| ::laby::li!(s)))"),
        (ls("\n", v, n3), "::laby::iter!(\"\\n\", [$V, \"3\"])"), (raw(V), "::laby::raw!($V)"), (raw(V), "::laby::raw!(crate::u::own($V))"), (v, "::laby::disp!($V)"),
        (fr(v, n3), "::laby::disp!(::core::format_args!(\"{}{}\", $V, 3))"), (lf(V, "lit"), "crate::u::own($V)"),
        (raw("<!DOCTYPE html>"), "::laby::DocType::HTML5"), (el("html", at("lang", one), v), "::laby::html!(lang = \"one\", $V)"),
        (el("div", v), "ka!(x = $V)"), (el("div", lf("0", "lit"), lf("d", "lit")), "kb!()"), (el("div", n3, v), "kb!(y = $V, x = 3)"),
        (el("p", at("id", n3), v, one), "kc!($V, z = 3, \"one\")"), (el("p", at("id", n3)), "kc!(z = 3)"), (el("b", v), "kd!(x = $V)"),
        (el("i", at("title", n3), el("div", v)), "Card!(y = 2, x = ka!(x = $V))"), (el("u", lf("7", "lit"), v), "kf!($V)"),
        (el("p", raw("<p>%s</p>3" % V.replace("<", "&lt;"))), "::laby::p!(::laby::raw!(::laby::render!(::laby::p!($V), 3)))"),
        (el("p", raw(V.replace("<", "&lt;"))), "::laby::p!(::laby::raw!(::laby::render!($V)))"),
        (ls("\n", v, n3), "::laby::iter_lines!([$V, \"3\"])"), (ls("\n", v), "::laby::iter_lines!(crate::u::some($V))"), (ls("\n", el("li", v), el("li", lf("2", "lit"))), "::laby::iter_lines!(crate::u::all($V, |s| ::laby::li!(s)))"),
        (fr(raw("<p>%s</p>3" % V.replace("<", "&lt;")), n3), "::laby::frag!(::laby::raw!(::laby::render!(::laby::p!($V), ::laby::disp!(3),)), ::laby::disp!(3))"),
        (fr(v, raw(V)), "::laby::frag!(::laby::RenderDisplay($V), ::laby::RenderRaw($V))"), (fr(), "::laby::raw!(::laby::render!(()))"),
        ({"k": "frag", "items": [el(t) for t in sorted(NORMAL + VOID)]}, "::laby::frag!(%s)" % ", ".join("::laby::%s!()" % t for t in sorted(NORMAL + VOID))),
        (v, "crate::u::some($V)"), (fr(), "()"), (fr(), "crate::u::None::<::core::primitive::bool>"),
        (el("p", v, lf("true", "lit"), lf("-1", "lit"), lf("1.5", "lit")), "::laby::p!($V, crate::u::ex(1, true), -1, 1.5, \"\")"),
    ]


HOSTS = {
    "fn": ("", "let v: &::core::primitive::str = \"%s\"; $B" % V, "v"),
    "method": ("struct H$N<'a> { w: &'a ::core::primitive::str }\nimpl H$N<'_> { fn go(&self, _rt: &mut crate::u::Rt) { $B } }", "H$N { w: \"%s\" }.go(_rt);" % V, "self.w"),
    "trait": ("trait W$N { fn w(&self) -> &::core::primitive::str; fn go(&self, _rt: &mut crate::u::Rt) { $B } }\nstruct H$N {}\n"
              "impl W$N for H$N { fn w(&self) -> &::core::primitive::str { \"%s\" } }" % V, "H$N {}.go(_rt);", "self.w()"),
    "closure": ("", "(|v: &::core::primitive::str, _rt: &mut crate::u::Rt| { $B })(\"%s\", _rt);" % V, "v"),
    "generic": ("fn g$N<'a, T, const N: ::core::primitive::usize>(v: T, _rt: &mut crate::u::Rt) where T: ::core::marker::Copy + ::core::convert::Into<&'a ::core::primitive::str> { $B }",
                "g$N::<_, 3>(\"%s\", _rt);" % V, "::core::convert::Into::<&'a ::core::primitive::str>::into(v)"),
    "nested": ("", "{ mod deep { pub fn d() -> &'static ::core::primitive::str { \"%s\" } }\n fn inner(_rt: &mut crate::u::Rt) { let v = deep::d(); $B }\n inner(_rt); }" % V, "v"),
    "macro": ("", "{ macro_rules! here { ($r:expr, $v:expr) => { { let v: &::core::primitive::str = $v; let _rt = $r; $B } } }\n here!(_rt, \"%s\") }" % V, "v"),
}
LINTS = {"": "#![allow(warnings)]", "deny": "#![deny(warnings)]\n#![allow(dead_code)]", "unsafe": "#![allow(warnings)]\n#![forbid(unsafe_code)]",
         "groups": "#![deny(warnings, unused, nonstandard_style, future_incompatible, let_underscore, refining_impl_trait, rust_2018_idioms, "
                   "rust_2021_compatibility, unsafe_code, trivial_casts, trivial_numeric_casts, single_use_lifetimes, "
                   "variant_size_differences, unused_import_braces, meta_variable_misuse, missing_abi, non_ascii_idents)]\n#![allow(dead_code)]"}


QUIET = ("#[allow(warnings, unused, nonstandard_style, future_incompatible, let_underscore, refining_impl_trait, rust_2018_idioms, "
         "rust_2021_compatibility, single_use_lifetimes, variant_size_differences)] ")


class Surrounding:
    def __init__(self, no, e, cons, decl=False):
        self.no, self.e, self.cons, self.decl = no, e, cons, decl

    def shown(self):
        return dict({k: v for k, v in self.e.items() if k != "names"}, decl_macro=self.decl)

    def source(self, only=None):
        e = self.e
        out = [LINTS[e["lint"]] + "\n#![allow(deprecated)]"]
        if self.decl:
            out.append("#![feature(decl_macro)]")
        if e["pre"] == "core":
            out.append("#![no_std]")
        out.append("//! Templates.")
        if e["ed"] == 2015:
            out.append(QUIET + "extern crate laby;\n" + QUIET + "extern crate verifrt;")
        out.append(QUIET + "extern crate alloc;" + ("\n" + QUIET + "extern crate core;" if e["ed"] == 2015 and e["pre"] != "core" else ""))
        out.append(QUIET + UROOT)
        out.append("mod t {" + ("\n#![no_implicit_prelude]" if e["pre"] == "none" else ""))
        if e["imp"] == "names":
            out.append("#[allow(unused_imports)] use ::laby::{div, p, input, frag_match, iter, raw, Render as _};")
        elif e["imp"] == "glob":
            out.append("#[allow(unused_imports)] use %slaby::*;" % ("" if e["ed"] == 2015 else "::"))
        if e["kind"] != "none":
            out += [QUIET + " " + ITEM[e["kind"]] % n for n in e["names"]]
        if e["meth"]:
            out.append(QUIET + TRAIT)
        if e["ed"] != 2015:
            out.append(COMPS24)
        item, stmt, val = HOSTS[e["host"]]
        for i, (_, code) in enumerate(self.cons):
            if e["ed"] == 2015 and re.search(r"\bk[a-f]!|Card!", code):
                code = "()"       # a use item begins at the root of the crate there
            b = "let _ = $V; let m = %s; let s = ::laby::render!(m); _rt.take(s);" % code
            b = b.replace("$V", val)
            sub = lambda t: t.replace("$B", b).replace("$N", str(i))
            out.append("%s\n/// d\npub fn c%d(_rt: &mut crate::u::Rt) { %s }" % (sub(item), i, sub(stmt)))
        out.append("}\npub use t::{%s};" % ", ".join("c%d" % i for i in range(len(self.cons))))
        return "\n".join(out) + "\n"


CFG24 = ("INIT Init\nNEXT Next\nCONSTANT Editions = {%s}\nCONSTANT Preludes = %s\nCONSTANT Kinds = %s\nCONSTANT Names = %s\nCONSTANT Hosts = %s\n"
         "CONSTANT Lints = %s\nCONSTANT Imports = %s\nCONSTANT Style = \"%s\"\nCONSTANT Out = %s\nINVARIANT Own %s\n")


def mentioned(chk):
    """Names the expansions of this tree mention, over those known here."""
    from p20 import SAMPLE, KEYWORDS
    d = scratch("p24x")
    src, out = os.path.join(d, "sample.rs"), os.path.join(d, "sample.out")
    open(src, "w").write("#![allow(unused)]\nuse laby::*; use verifrt::probe::pass;\n" + SAMPLE)
    ok, _ = rustc(src, out, build_rt("debug"), extra=["-Zunpretty=expanded"], env={"RUSTC_BOOTSTRAP": "1"})
    if not ok or not os.path.exists(out):
        return []
    text = re.sub(r'"(\\.|[^"\\])*"|//[^\n]*|r#', " ", open(out).read())
    own = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", SAMPLE))
    got = {n for n in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", text)} - own - KEYWORDS
    return sorted(n for n in got if not n.startswith("_"))


def compile_and_run(chk, pick, cons, d, rt, decl=False):
    """Every construct in every surrounding: the records, and where each comes from."""
    sur = [Surrounding(i, e, cons, decl) for i, e in enumerate(pick)]
    chk.log("compiling %d surroundings of %d constructs" % (len(sur), len(cons)))

    def build(s):
        src, out = os.path.join(d, "e%d.rs" % s.no), os.path.join(d, "libe%d.rlib" % s.no)
        open(src, "w").write(s.source())
        ok, diags = rustc(src, out, rt, extra=("--crate-type", "rlib"), edition=str(s.e["ed"]))
        return s, ok, diags, out

    good = []
    for s, ok, diags, out in pmap(build, sur):
        if ok:
            good.append((s, out))
        else:
            errs = [g for g in diags if g.get("level") == "error"]
            lines = s.source().splitlines()
            hit = sorted({l for g in errs for l in lines_of(g)})
            chk.violation("a template is not accepted in some surrounding", {
                "surrounding": s.shown(), "errors": [g["message"] for g in errs][:6],
                "rendered": [g.get("rendered", "")[:600] for g in errs[:2]],
                "lines": [lines[l - 1][:300] for l in hit[:4]]})
    if not good:
        return [], []
    chk.log("running %d" % len(good))
    recs, of = [], []
    parts = [good[i::NCPU] for i in range(NCPU) if good[i::NCPU]]

    def go(part):
        k = part[0][0].no
        src, exe = os.path.join(d, "main%d.rs" % k), os.path.join(d, "main%d" % k)
        with open(src, "w") as f:
            f.write(("#![feature(decl_macro)]\n" if decl else "") + HEAD + "fn main() { run(&[%s]) }\n" % ", ".join(
                '("%d", e%d::c%d as fn(&mut Rt))' % (s.no * 1000 + i, s.no, i) for s, _ in part for i in range(len(cons))))
        ok, diags = rustc(src, exe, rt, extra=sum((("--extern", "e%d=%s" % (s.no, o)) for s, o in part), ()))
        if not ok:
            raise ToolError("templates cannot be linked: " + str([g["message"] for g in diags][:3]))
        return part, run_bin([exe], timeout=300)

    for part, (rc, out, err) in pmap(go, parts):
        if rc != 0:
            chk.violation("the process ended while rendering", {"exit": rc, "stderr": err[-400:]})
        got = {}
        for x in parse_lines(out):
            if x["c"] != "#":
                got.setdefault(int(x["c"]), []).append(x)
        for s, _ in part:
            for i, (tree, code) in enumerate(cons):
                o = got.get(s.no * 1000 + i)
                if o and not (s.e["ed"] == 2015 and re.search(r"\bk[a-f]!|Card!", code)):
                    recs.append(record(Case({"lets": [], "root": tree}, "take"), o))
                    of.append((s, i))
    return recs, of


def run(chk):
    names = list(NAMES24)
    mined = [n for n in mentioned(chk) if n not in names]
    mined = [n for n in mined if n not in ("no_std", "feature", "allow", "macro_use", "derive", "rustfmt", "prelude_import")]
    names += mined[:60]
    one = "Option Some None Default Render Buffer core std laby alloc bool str usize String frag render push_str default format_args".split()
    kinds = "none " + " ".join(ITEM)
    full = (", ".join(["2015", "2018", "2021", "2024"]), tset("std core none"), tset(kinds))
    rest = (tset(" ".join(HOSTS)), '{"", "deny", "unsafe", "groups"}', tset("path names glob"))
    t = tlc("Surround", CFG24 % (full + (tset("none *"),) + rest + ("root", "TRUE", "Emit")), heap="8g")
    chk.count(t)
    envs = sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})
    t = tlc("Surround", CFG24 % (full + (tset("none * " + " ".join(one)), tset("fn"), '{""}', tset("path names glob")) + ("root", "TRUE", "Emit")), heap="8g")
    chk.count(t)
    singles = sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})
    # every other way of mentioning things fails somewhere
    for style in ("bare", "through", "prim", "method"):
        t = tlc("Surround", CFG24 % (full + (tset("none *"), tset("fn"), '{""}', tset("path glob")) + (style, "FALSE", "")), ok=(0, 12))
        if t.rc != 12:
            raise ToolError("names mentioned in the style '%s' are not told apart" % style)
    r = random.Random(chk.seed)
    envs, singles = [json.loads(x) for x in envs], [json.loads(x) for x in singles]
    r.shuffle(envs)
    r.shuffle(singles)
    pick, seen = [], set()
    for e in envs:
        ks = sorted(e.items(), key=str)
        new = {(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]}
        if len(new - seen) >= (3 if not chk.thorough else 1):
            pick.append(e)
            seen |= new
    n = len(pick)
    pick += r.sample(envs, min(len(envs), 1200 if chk.thorough else 30))
    ones = [e for e in singles if e["own"] not in ("none", "*")]
    seen1 = set()
    for e in ones:
        if (e["own"], e["kind"]) not in seen1 and (chk.thorough or len(seen1) < 70):
            seen1.add((e["own"], e["kind"]))
            pick.append(e)
    cons = constructs()
    for e in pick:
        e["names"] = [] if e["own"] == "none" else names if e["own"] == "*" else [e["own"]]
    chk.notes["surroundings"] = {"of_the_specification": len(envs) + len(ones), "run": len(pick), "pairwise": n, "pairs_covered": len(seen), "names": len(names),
                                 "found_in_expansions": mined, "constructs": len(cons)}
    rt = build_rt("debug")
    d = scratch("p24")
    # names no item of a kind can have are not the user's to use
    bad = {}
    for k in ITEM:
        src = os.path.join(d, "u_%s.rs" % k)
        open(src, "w").write("#![allow(warnings)]\n" + "\n".join("mod q%d { %s }" % (i, ITEM[k] % n) for i, n in enumerate(names)) + "\n")
        _, diags = rustc(src, os.path.join(d, "u.rmeta"), rt, emit="metadata", extra=("--crate-type", "rlib"))
        bad[k] = {names[l - 2] for g in diags if g.get("level") == "error" for l in lines_of(g)}
    for e in pick:
        if e["kind"] != "none":
            e["names"] = [n for n in e["names"] if n not in bad[e["kind"]]]
    recs, of = compile_and_run(chk, pick, cons, d, rt)
    # components declared with macros 2.0
    decl = [e for e in pick if e["ed"] != 2015]
    decl = decl[::1 if chk.thorough else 4]
    more = compile_and_run(chk, decl, cons, scratch("p24d"), build_rt("decl"), True)
    recs, of = recs + more[0], of + more[1]
    chk.notes["surroundings"]["with_decl_macro"] = len(decl)
    chk.log("validating %d records" % len(recs))
    # the same record is judged once
    uniq, first = [], {}
    for j, x in enumerate(recs):
        key = json.dumps(x, sort_keys=True)
        if key not in first:
            first[key] = len(uniq)
            uniq.append(x)
    rej = set(validate(chk, "TemplateTrace", uniq, 'CONSTANT What = "text"\n', heap="6g"))
    for j, x in enumerate(recs):
        if first[json.dumps(x, sort_keys=True)] in rej:
            s, i = of[j]
            chk.violation("a template renders something else in some surrounding", {
                "surrounding": s.shown(), "source": cons[i][1], "observed": x["obs"][:1]})
    chk.notes["records"] = len(recs)
    for j in (0, len(recs) // 2):
        s, i = of[j]
        chk.sample({"surrounding": s.shown(), "source": cons[i][1], "out": recs[j]["obs"][0]["out"]})
    chk.assumptions = ["const, static and unit or tuple struct names are not covered: Rust matches them in patterns",
                       "lints are those of the compiler of this sandbox; braces and parentheses the user wrote around an argument are the user's"]
