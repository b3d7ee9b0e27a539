"""P16: building allocates nothing; rendering allocates only output."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

ITEMS = """
#[laby] fn card(title: impl Render, #[default(())] extra: impl Render, #[rest] body: impl Render) -> impl Render {
    div!(class = "card", h1!(title), extra, body) }
#[laby] fn twice<T: Render + Copy>(x: T) -> impl Render { frag!(x, b!(x)) }
struct Grid(u32);
impl Render for Grid { fn render(self, b: &mut laby::internal::Buffer) {
    table!(iter!((0..self.0).map(|i| tr!(iter!((0..8u32).map(move |j| td!(class = "c", i, '-', j))))))).render(b) } }
static TEXT: &str = "0123456789<abcdef>0123456789&ABCDEF\\"0123456789'uvwxyz";
fn page(n: u32) -> impl Render { html!(head!(title!("T<", n)), body!(class = "x", hidden = bool!(n > 3), p!(n), iter!(", ", 0..n))) }
"""

# markup that allocates nothing of its own, of every size
FIXED = [
    '"x"', '()', 'None::<u8>', 'frag!()', 'p!()', 'div!("a<b", 1, \'c\', 2.5, true, ())', 'raw!(TEXT)', 'p!(TEXT, TEXT)', 'a!(href = TEXT, TEXT)',
    'classes!("a", 1, Some(2), None::<u8>, \'<\')', 'Cow::Borrowed("<c>")', 'u128::MAX', 'i128::MIN', 'f64::MIN', '-1.5e-300', 'f32::MAX', 'f64::NAN',
    'NonZeroU8::new(3)', 'div!(hidden = bool!(true), hidden = bool!(pass(false)), (pass("n")) = bool!(pass(true)))', 'DocType::HTML5', '(DocType::HTML5)',
    'frag_match!(if pass(false) { "a" } else if let Some(x) = pass(Some(3)) { b!(x) } else { () })', 'frag_match!(match pass(2) { 1 => "x", n if n > 5 => b!(n), n => frag!(n, n) })',
    'card!(title = "t", "b1", 2, b!("b3"))', 'card!(extra = TEXT, title = p!(TEXT))', 'card!(title = card!(title = 1, 2), card!(title = 3))', 'twice!(x = "<x>")',
    'page(0)', 'page(10)', 'page(300)', 'iter!([1, 2, 3])', 'iter!(", ", 0..10)', 'iter!(TEXT.chars())', 'iter_lines!(TEXT.split(\'<\'))', 'iter!("-", TEXT.as_bytes().iter().copied())',
    'Grid(3)', 'Grid(100)', 'Grid(2000)', 'iter!(0..100000u32)', 'iter!("<>", (0..20000u32).map(|i| li!(i)))', 'iter!(std::iter::repeat("<").take(200000))',
    'iter!(std::iter::repeat(TEXT).take(20000))', 'iter!(std::iter::repeat(\'x\').take(1000000))', 'iter!(std::iter::repeat(raw!("y")).take(1000000))',
    'iter!(std::iter::repeat(1.5f64).take(100000))', 'iter!(std::iter::repeat(\'<\').take(300000))', 'iter!(std::iter::repeat(true).take(300000))',
    'iter!("", std::iter::repeat("abc").take(300000))', 'iter!((0..60000u32).map(|i| disp!(i)))', 'disp!(1.5)', 'disp!(\'<\')', 'disp!(TEXT)', 'RenderDisplay(true)',
    'disp!(Pieces(&[Piece::Str("<a>"), Piece::Char(\'&\'), Piece::Pad("x", 40, \'<\'), Piece::Args("\'")]))',
    'disp!(Pieces(&[Piece::Pad("x", 40000, \'<\'), Piece::Lpad("x", 4000, \'&\')]))', 'Some(Some(p!(Some(1))))', 'iter!((0..1000).map(|i| if i % 2 == 0 { Some(i) } else { None }))',
    'iter!((0..500u32).map(page))', 'div!(' + ", ".join('"k%d<"' % i for i in range(120)) + ')', 'div!(' + ", ".join('a%d = pass("v%d")' % (i, i) for i in range(120)) + ')',
    'classes!(' + ", ".join('pass(%d)' % i for i in range(90)) + ')', 'frag!(' + ", ".join('pass(\'%s\')' % "<&>ab"[i % 5] for i in range(100)) + ')',
    "div!(" * 40 + '"deep"' + ")" * 40,
    '{ let v = [1u8, 2, 3]; iter!("|", v) }', '{ let s = TEXT; p!(s, s, title = s) }', 'pass_render(p!(pass_render(b!("x"))))', '(|| i!("c"))()',
    'if pass(true) { Some(p!("q")) } else { None }', 'frag_match!(if pass(true) { Grid(50) } else { "x" })',
]
# markup with temporaries: rendered where it is built
TEMP = ['format_args!("{}", TEXT)', 'p!(format_args!("{:>10}{:?}{:5.1}", 1, "<", 2.55))', 'p!(title = format_args!("<{}>", TEXT), format_args!("{}{}", 1, TEXT))',
        'format_args!("{:>30000}", "<")', 'frag!(format_args!("{}", format_args!("<{}>", 3)), "x")', 'iter!("-", [format_args!("{}", 1), format_args!("{:?}", TEXT)])',
        'RenderDisplay(format_args!("{:#?}", (1, "<", [2, 3])))', 'format_args!("")', 'format_args!("lit<")', 'Some(format_args!("{:e}", 1.5))']


def fixed_cases(chk):
    out = []
    for s in FIXED:
        out.append(("sep", "let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();" % s))
        out.append(("take", "let s = render!(%s);\n_rt.take(s);" % s))
        out.append(("take", "let s = render!(DocType::HTML5, %s, \"end\");\n_rt.take(s);" % s))
        out.append(("sep", "let m = %s;\nlet n = div!(1, Some(m));\n_rt.built();\nlaby::Render::render(n, _rt.buf());\n_rt.done();" % s))
    for s in TEMP:
        out.append(("sep", "match %s { m => { _rt.built(); laby::Render::render(m, _rt.buf()); _rt.done() } }" % s))
        out.append(("take", "let s = render!(%s);\n_rt.take(s);" % s))
    return [Case(None, k, body=b) for k, b in out]


def model(chk):
    cfg = ("SPECIFICATION Spec\nCONSTANT MaxLen = %d\nCONSTANT Sizes = {%s}\nCONSTANT Starts = {%s}\nCONSTANT MaxExprs = 2\n"
           "CONSTANT Remember = %d\nINVARIANT KeepsRoom BuildsNothing AtMostOne Logarithmic Doubles EnoughRoom\n")
    chk.count(tlc("Growth", cfg % (40, "0, 1, 2, 7", "0, 1, 3, 16, 43", 0), timeout=800))
    chk.count(tlc("Growth", cfg % (200, "1, 64, 131", "0, 1, 64, 203", 0), timeout=800))
    chk.count(tlc("Growth", cfg % (200, "0, 1, 7, 64", "0, 1, 3, 64, 203", 5 if chk.thorough else 4), timeout=800))


def run(chk):
    model(chk)
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit ev", "se sl st", "el void frag", "el frag", "flat", 4, 3, cap=1200 * k, seed=1)
    b = trees(chk, "lit ev ex none raw plain", "se sl le ee st sf sx", "el void frag classes if match", "el frag classes if match",
              "flat wrap let do", 18, 6, sim=1500 * k, cap=1000 * k, seed=2)
    cases = fixed_cases(chk)
    nf = len(cases)
    for i, t in enumerate(a + b):
        nm = Namer(chk.seed * 100000 + i, noalloc=i % 3 == 0, longer=True)
        c = Case(nm.tree(t), ("sep", "sep", "take")[i % 3])
        c.al = nm.al
        if not nm.odd:
            cases.append(c)
    for profile in ("debug", "release"):
        rt = build_rt(profile)
        sub = list(range(len(cases))) if profile == "debug" or chk.thorough else \
            list(range(nf)) + list(range(nf + chk.seed % 3, len(cases), 3))
        cs = [cases[i] for i in sub]
        chk.log("compiling and running %d templates (%s)" % (len(cs), profile))
        obs, notes = programs(chk, "p16", cs, rt, head=HEAD + "use std::borrow::Cow; use std::num::*;\n" + ITEMS)
        report_notes(chk, notes, cs)
        recs, idx = [], []
        for j, c in enumerate(cs):
            if not obs[j]:
                continue
            if any(o["pan"] for o in obs[j]):
                chk.violation("rendering failed", {"source": c.source("c"), "observed": obs[j][:1]})
                continue
            m = [x for o in obs[j] for x in o["m"]]
            if c.ast is None:
                recs.append({"fixed": True, "own": 0, "kind": c.kind, "m": m})
            else:
                recs.append({"fixed": False, "al": c.al, "kind": c.kind, "m": m, "lets": slim(c.ast["lets"]), "root": slim(c.ast["root"])})
            idx.append(j)
        chk.log("validating %d records" % len(recs))
        for j in validate(chk, "AllocTrace", recs, heap="6g"):
            chk.violation("more is allocated than the output needs", {
                "profile": profile, "source": cs[idx[j]].source("c"), "counted": recs[j]["m"]})
        for j in (0, len(recs) // 2, len(recs) - 1):
            if recs:
                chk.sample({"source": cs[idx[j]].source("c")[:500], "counted": recs[j]["m"]})
        chk.notes["templates_" + profile] = len(recs)
    chk.assumptions = ["expressions' own allocations are known from the values chosen (one block each for owned texts)"]
