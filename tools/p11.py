"""P11: named calls bind each parameter to the right argument."""
from vlib import *
from rustgen import *
from comp import *

# (items, statements making `s: String', events evaluated (any order), text) : what a direct call would do
DIRECT = [
    ("#[laby] const fn add(a: u32, #[default(40)] b: u32) -> u32 { a * 100 + b }",
     "const N: u32 = add!(b = 2, a = 7); const M: u32 = add!(a = 1); let s = format!(\"{} {}\", N, M);", [], "702 140"),
    ("#[laby] fn borrow<'a>(x: &'a str, y: &'a String) -> impl Render + 'a { frag!(x, y.as_str()) }",
     "let s = render!(borrow!(y = &String::from(\"y1\"), x = &String::from(\"x1\")));", [], "x1y1"),
    ("#[laby] fn push(v: &mut Vec<u32>, n: u32) -> usize { v.push(n); v.len() }",
     "let mut v = vec![1]; let l = push!(n = 5, v = &mut v); let s = format!(\"{} {:?}\", l, v);", [], "2 [1, 5]"),
    ("#[laby] fn pair<A, B>(b: B, a: A) -> (A, B) { (a, b) }",
     "let (p, q): (u8, &str) = pair!(a = 5, b = \"q\"); let s = format!(\"{}{}\", p, q);", [], "5q"),
    ("#[laby] fn opt(x: Option<u32>) -> Option<u32> { x.map(|x| x + 1) }\n"
     "fn through() -> Option<u32> { let a = opt!(x = Some(ex(1, 4)))?; opt!(x = opt!(x = None::<u32>.or(Some(a)))) }\n"
     "fn early() -> Option<u32> { let _ = opt!(x = Some(None::<u32>?)); unreachable!() }",
     "let s = format!(\"{:?} {:?}\", through(), early());", [1], "Some(7) None"),
    ("#[laby] fn two(a: u32, b: u32) -> u32 { a * 10 + b }",
     "let mut n = 0; let s = format!(\"{}\", loop { n += 1; let x = two!(b = if n < 3 { continue } else { n }, a = 4); break x });",
     [], "43"),
    ("#[laby] unsafe fn danger(p: *const u8, #[default] off: usize) -> u8 { *p.add(off) }",
     "let b = [7u8, 8]; let s = unsafe { format!(\"{}{}\", danger!(p = b.as_ptr()), danger!(off = 1, p = b.as_ptr())) };", [], "78"),
    ("#[laby] fn gen<const N: usize, T: Copy + Into<u64>>(xs: [T; N], #[default(1)] k: u64) -> u64 { xs.iter().map(|x| (*x).into()).sum::<u64>() * k }",
     "let s = format!(\"{} {}\", gen!(xs = [1u8, 2, 3]), gen!(k = 10, xs = [1u32; 4]));", [], "6 40"),
    ("#[laby] fn many(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8) -> String "
     "{ format!(\"{:?}\", (a, b, c, d, e, f, g, h, i, j, k, l)) }",
     "let s = many!(l = ex(12, 12), a = ex(1, 1), k = ex(11, 11), b = ex(2, 2), j = 10, c = 3, i = 9, d = 4, h = 8, e = 5, g = 7, f = 6);",
     [1, 2, 11, 12], "(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)"),
    ("#[laby] fn shadow(a: &str, b: &str, c: &str) -> String { [a, b, c].concat() }",
     "let (a, b, c) = (\"A\", \"B\", \"C\"); let s = shadow!(c = a, a = b, b = c) + &shadow!(a = a, b = b, c = c) + &shadow!(b = a, c = b, a = c);",
     [], "BCAABCCAB"),
    ("#[laby] fn again(x: &str, #[default(\"d\")] y: &str) -> String { format!(\"{x}{y}\") }",
     "let s = again!(x = \"1\") + &again!(y = \"2\", x = \"3\") + &again!(x = \"a\", x = \"b\", y = \"c\", x = \"e\") + &again!(x = \"4\");",
     [], "1d32ec4d"),
    ("#[laby] fn again2(#[default(ex(1, 5))] x: u8) -> u8 { x }",
     "let s = format!(\"{}{}{}\", again2!(), again2!(x = 6), again2!());", [1, 1], "565"),
    ("#[laby] fn dup(x: &str) -> String { x.into() }",
     "let s = dup!(x = ex(1, \"a\"), x = ex(2, \"b\"), x = ex(3, \"c\"));", [3], "c"),
    ("#[laby] fn unit() {}\n#[laby] fn never(x: u32) -> ! { panic!(\"{}\", x) }",
     "unit!(); let s = match unit!() { () => String::from(\"unit\") }; if s.is_empty() { never!(x = 1) }", [], "unit"),
    ("#[laby] fn restonly(#[rest] r: impl Render) -> String { render!(r) }",
     "let s = restonly!() + &restonly!(\"<\") + &restonly!(1, \"b\", restonly!(\"c\", 'd'), None::<u8>,);", [], "&lt;1bcd"),
    ("#[laby] fn restmany(a: u8, #[rest] r: impl Render, #[default(3)] z: u8) -> String { render!(z, \":\", r, \":\", a) }",
     "let s = restmany!(1, 2, 3, 4, 5, 6, a = 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, ex(1, 23), 24, 25) + "
     "&restmany!(z = 1, \"a\", \"b\", \"c\", \"d\", \"e\", \"f\", \"g\", \"h\", \"i\", \"j\", \"k\", \"l\", a = 2);",
     [1], "3:1234568910111213141516171819202122232425:71:abcdefghijkl:2"),
    ("#[laby] fn mid(a: u8, #[rest] r: impl Render, z: u8) -> String { render!(a, r, z) }",
     "let s = mid!(\"x\", z = ex(2, 9), \"y\", a = ex(1, 1), \"z\") + &mid!(a = 1, z = 2);", [1, 2], "1xyz912"),
    ("#[laby] fn recur(n: u32, #[default] acc: u64) -> u64 { if n == 0 { acc } else { recur!(acc = acc * 10 + n as u64, n = n - 1) } }",
     "let s = format!(\"{}\", recur!(n = 5));", [], "54321"),
    ("mod outer { pub mod inner { #[laby::laby] pub fn deep(a: u8, #[default(a2())] b: u8) -> u8 { a + b } pub fn a2() -> u8 { 3 } } "
     "pub use inner::deep; pub use inner::a2; }\nuse outer::{deep, a2};",
     "let s = format!(\"{} {}\", deep!(a = 1), outer::inner::deep!(b = 10, a = 1));", [], "4 11"),
    ("#[laby] fn closure(f: impl Fn(u8) -> u8, x: u8) -> u8 { f(x) }",
     "let k = 3; let s = format!(\"{}\", closure!(x = 4, f = |x| x * k));", [], "12"),
    ("#[laby] fn blocky(a: i32, b: i32) -> i32 { a - b }",
     "let s = format!(\"{}\", blocky!(b = { let t = 2; t * t }, a = match 3 { n if n > 2 => 50, _ => 0 }));", [], "46"),
    ("#[laby] fn ops(a: bool, b: i32, c: i32) -> String { format!(\"{a}{b}{c}\") }",
     "let x = 3; let s = ops!(c = -x, b = x + 1 * 2, a = x == 3 && !(x > 4));", [], "true5-3"),
    ("#[laby] fn assign(a: (), b: u8) -> u8 { b }",
     "let mut x = 1; let s = format!(\"{}\", assign!(a = { x = 5; }, b = 2)) + &x.to_string();", [], "25"),
    ("#[laby] fn lit(x: &str) -> String { x.to_string() }",
     "let s = lit!(x = concat!(\"a\", 1)) + lit!(x = stringify!(q r)).as_str() + &lit!(x = &format!(\"{}\", 5));", [], "a1q r5"),
    ("#[laby] fn ren(x: impl Render) -> impl Render { div!(x) }",
     "use ren as other; let s = render!(other!(x = other!(x = \"&\")));", [], "<div><div>&amp;</div></div>"),
    ("#[laby] fn item(t: impl Render, #[rest] c: impl Render) -> impl Render { li!(b!(t), c) }",
     "let s = render!(ul!(iter!((1..4).map(|n| item!(t = n, \"<\", n)))));", [],
     "<ul><li><b>1</b>&lt;1</li><li><b>2</b>&lt;2</li><li><b>3</b>&lt;3</li></ul>"),
    ("#[laby] fn drops(a: String, b: String) -> usize { a.len() * 10 + b.len() }",
     "let (p, q) = (String::from(\"xxx\"), String::from(\"y\")); let s = format!(\"{}\", drops!(b = p, a = q));", [], "13"),
    ("#[laby] fn wherely<T>(b: T, a: T) -> String where T: Into<String> + Clone, { a.clone().into() + &b.into() }",
     "let s = wherely!(a = \"1\", b = \"2\");", [], "12"),
    ("#[laby] fn attrs(#[allow(unused_variables)] a: u8, #[cfg_attr(any(), nothing)] #[default(7)] b: u8) -> u8 { b }",
     "let s = attrs!(a = 1).to_string();", [], "7"),
    ("#[laby]\n/// Documented.\n#[must_use]\n#[inline(always)]\npub(crate) fn doc(\n  a: u8,\n  #[default] b: Option<u8>,\n) -> Option<u8> { b.or(Some(a)) }",
     "let s = format!(\"{:?}{:?}\", doc!(a = 1), doc!(a = 1, b = Some(2)));", [], "Some(1)Some(2)"),
    ("#[laby] fn restfn(#[rest(core::convert::identity)] r: &'static str, k: u8) -> String { format!(\"{r}{k}\") }",
     "let s = restfn!(k = 1, \"only\") + &restfn!(\"one\", k = 2);", [], "only1one2"),
    ("fn twice(a: impl Render) -> String { render!(\"(\", a, \")\") }\n"
     "#[laby] fn restone(#[rest(twice)] r: String, #[default(2)] k: u8) -> String { format!(\"{r}{k}\") }",
     "let s = restone!(\"<\") + &restone!(k = 3, div!()) + &restone!('x', k = 1);", [], "(&lt;)2(<div></div>)3(x)1"),
    ("fn sub(a: i32, b: i32) -> i32 { a - b }\n#[laby] fn resttwo(k: i32, #[rest(sub)] r: i32) -> String { format!(\"{r} {k}\") }",
     "let s = resttwo!(ex(1, 10), k = 1, ex(2, 3));", [1, 2], "7 1"),
    ("#[laby] fn restnone(#[rest(String::new)] r: String, k: u8) -> String { format!(\"<{r}>{k}\") }",
     "let s = restnone!(k = 1);", [], "<>1"),
    ("#[laby] fn restsome(#[rest(Some)] r: Option<u8>) -> u8 { r.unwrap_or(0) + 1 }", "let s = restsome!(5).to_string();", [], "6"),
    ("#[laby] fn three(a: u8, b: u8, c: u8) -> u32 { a as u32 * 100 + b as u32 * 100 + c as u32 * 100 }",
     "let mut n = 0; let mut next = || { n += 1; n }; let s = three!(a = next(), b = next(), c = next()).to_string();", [], "600"),
    ("#[laby] fn alike(#[rest] r: impl Render, #[default] a: u8) -> String { render!(r, a) }",
     "let mut n = 0; let mut next = || { n += 1; n }; let s = alike!(next(), next(), next());", [], "1230"),
    # visible in part of the crate only, and called from there
    ("mod va { pub mod b { #[laby::laby] pub(in super::super) fn vis1(n: u8, #[default] m: u8) -> u8 { n + m } }\n"
     "pub mod d { pub mod e { use super::super::b::vis1; pub fn f() -> u8 { vis1!(n = 1) } } } use b::vis1; pub fn g() -> u8 { vis1!(m = 1, n = 2) } }\n"
     "use va::b::vis1;", "let s = format!(\"{}{}{}{}\", va::d::e::f(), va::g(), vis1!(n = 5), va::b::vis1!(n = 6));", [], "1356"),
    ("mod vb { pub mod b { #[laby::laby] pub(super) fn vis2(n: u8, #[default] m: u8) -> u8 { n + m }\n"
     "#[laby::laby] pub(in super) fn vis3(n: u8) -> u8 { n } pub fn h() -> u8 { vis2!(n = 4) + vis3!(n = 1) } }\n"
     "use b::vis2; pub fn g() -> u8 { vis2!(m = 1, n = 2) + b::vis2!(n = 0) } }",
     "let s = format!(\"{}{}\", vb::g(), vb::b::h());", [], "35"),
    ("mod vc { #[laby::laby] pub(self) fn vis4(n: u8) -> u8 { n } pub mod i { use super::vis4; pub fn h() -> u8 { vis4!(n = 1) } }\n"
     "#[laby::laby] pub(in self) fn vis5(n: u8) -> u8 { n + 1 } pub fn g() -> u8 { vis4!(n = 2) + vis5!(n = 2) } }",
     "let s = format!(\"{}{}\", vc::g(), vc::i::h());", [], "51"),
    ("mod vd { pub mod b { #[laby::laby] pub(crate) fn vis6(n: u8) -> u8 { n } #[laby::laby] pub(in crate) fn vis7(n: u8) -> u8 { n + 1 }\n"
     "#[laby::laby] pub fn vis8(n: u8) -> u8 { n + 2 } } pub(crate) use b::{vis6, vis7, vis8}; }",
     "use vd::{vis6, vis7, vis8}; let s = format!(\"{}{}{}{}{}\", vis6!(n = 2), vis7!(n = 2), vd::b::vis8!(n = 2), vd::b::vis6!(n = 5), vd::b::vis7!(n = 5));",
     [], "23456"),
    ("#[laby] fn dynamic(x: &dyn std::fmt::Display, y: &[u8]) -> String { format!(\"{x}{y:?}\") }",
     "let s = dynamic!(y = &[1, 2], x = &5) + &dynamic!(y = &vec![3], x = &String::from(\"z\"));", [], "5[1, 2]z[3]"),
]


def many():
    """Any number of arguments, named and unnamed, with and without a wrapping function."""
    out = []
    for n in (5, 8, 9, 12, 13, 16, 17, 24, 32, 33, 64, 65, 100):
        ps = ", ".join("a%d: u32" % i for i in range(n))
        all_ = "[%s]" % ", ".join("a%d" % i for i in range(n))
        want = " ".join(str(i * 7) for i in range(n))
        rest = ", ".join(("k = 1, " if i == n // 2 else "") + ("ex(%d, %d)" % (i + 1, i * 7) if i < 3 else str(i * 7))
                         for i in range(n))
        out.append(("fn w(%s) -> String { %s.map(|x| x.to_string()).join(\" \") }\n#[laby] fn c(#[rest(w)] r: String, k: u8) -> String "
                    "{ format!(\"{r}:{k}\") }" % (ps, all_), "let s = c!(%s);" % rest, [1, 2, 3], want + ":1"))
        out.append(("#[laby] fn c(#[default] k: u8, #[rest] r: impl Render) -> String { render!(r, ':', k) }",
                    "let s = c!(%s);" % rest, [1, 2, 3], want.replace(" ", "") + ":1"))
        named = ", ".join("a%d = %s" % (i, "ex(%d, %d)" % (i + 1, i * 7) if i < 3 else i * 7)
                          for i in sorted(range(n), key=lambda i: (i * 5) % 7 * 1000 - i))
        out.append(("#[laby] fn c(%s) -> String { %s.map(|x| x.to_string()).join(\" \") }" % (ps, all_),
                    "let s = c!(%s);" % named, [1, 2, 3], want))
        dfl = ", ".join("#[default(%d)] a%d: u32" % (i * 7, i) if i % 3 else "a%d: u32" % i for i in range(n))
        some = ", ".join("a%d = %s" % (i, "ex(%d, %d)" % (i + 1, i * 7) if i < 3 else i * 7)
                         for i in range(n) if i % 3 == 0 or i < 3)
        out.append(("#[laby] fn c(%s, #[rest] r: impl Render) -> String { format!(\"{} {}\", %s.map(|x| x.to_string()).join(\" \"), render!(r)) }"
                    % (dfl, all_), "let s = c!(\"x\", %s, \"<\");" % some, [1, 2, 3], want + " x&lt;"))
    return out


def direct(calls=DIRECT):
    out = []
    for items, stmts, evs, text in calls + [("", "\n".join(x[:2])) + x[2:] for x in many()]:
        root = {"k": "frag", "items": [{"k": "leaf", "how": "src", "id": i, "r": False, "raw": True, "src": "", "t": ""}
                                       for i in evs]
                + [{"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": "", "t": enc(text)}]}
        out.append(Case({"lets": [], "root": root}, "take", body=stmts + "\n_rt.take(s);", items=items,
                        meta={"open": True}))
    return out


def run(chk):
    k = 5 if chk.thorough else 1
    small = good(calls_of(chk, 3, 3))
    if chk.thorough:
        small += good(calls_of(chk, 3, 4))
    big = good(calls_of(chk, 6, 8, sim=9000 * k, seed=1))
    chk.notes["calls"] = {"all_up_to_3_params": len(small), "larger_sampled": len(big)}
    r = random.Random(chk.seed)
    pick = small * 2 + r.sample(big, min(len(big), 900 * k))
    cases = [case_of(i, chk.seed * 100000 + i, c, small, depth=(1, 2)[i % 5 == 0]) for i, c in enumerate(pick)]
    judge(chk, "p11", cases + direct(), "call", label="a parameter is bound to the wrong argument")
    judge(chk, "p11r", direct() + cases[chk.seed % 6::6], "call", profiles=("release",),
          label="a parameter is bound to the wrong argument")
    chk.assumptions = ["the order in which different arguments are evaluated is left open"]
