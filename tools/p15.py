"""P15: formatted values are escaped however they are written."""
import chars
from vlib import *
from rustgen import *

# places of a value, as (source, text around and between its occurrences)
PLACES = [("p!(%s)", ["<p>", "</p>"]), ("%s", ["", ""]), ("a!(href = %s)", ["<a href=\"", "\"></a>"]),
          ("img!(alt = \"x\", src = %s)", ["<img alt=\"x\" src=\"", "\">"]),
          ("p!(\"a\", %s, b!(\"c\"))", ["<p>a", "<b>c</b></p>"]), ("classes!(\"k\", %s, 'l')", ["k ", " l"]),
          ("frag!(%s, %s)", ["", "", ""]), ("classes!(%s, %s)", ["", " ", ""]),
          ("div!(b!(\"<\", %s), title = %s)", ["<div title=\"", "\"><b>&lt;", "</b></div>"]),
          ("frag!(1, Some(%s), ())", ["1", ""]), ("comp!(x = %s)", ["<i>", "</i>"]), ("rest!(%s, \"z\")", ["<u>", "z</u>"]),
          ("iter!(std::iter::once(%s))", ["", ""]), ("frag_match!(if true { %s } else { \"\" })", ["", ""])]
# temporaries die with a block or a branch
NO_TEMP = {"comp!(x = %s)", "rest!(%s, \"z\")", "frag_match!(if true { %s } else { \"\" })"}
ITEMS = """
use std::fmt::Write as _;
#[laby] fn comp(x: impl Render) -> impl Render { i!(x) }
#[laby] fn rest(#[rest] r: impl Render) -> impl Render { u!(r) }
#[derive(Debug, Clone, Default)] struct Rec<'a> { name: &'a str, c: char, v: Vec<u8>, o: Option<&'a str>, t: (i32, &'a str) }
#[derive(Debug)] enum En { A, B(&'static str), C { d: char } }
struct Padded(&'static str);
impl std::fmt::Display for Padded { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.pad(self.0) } }
struct Chars(&'static str);
impl std::fmt::Display for Chars { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    for c in self.0.chars() { f.write_char(c)?; } Ok(()) } }
struct Bytes(&'static str);
impl std::fmt::Display for Bytes { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut at = 0; while at < self.0.len() { let mut e = at + 1; while !self.0.is_char_boundary(e) { e += 1; }
      f.write_str(&self.0[at..e])?; f.write_str("")?; at = e; } Ok(()) } }
struct Flags;
impl std::fmt::Display for Flags { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}{:?}{}{}{}<{:?}", f.width(), f.precision(), f.alternate(), f.sign_plus(), f.sign_aware_zero_pad(), f.fill()) } }
struct Nest(u32);
impl std::fmt::Display for Nest { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    if self.0 == 0 { f.write_str("<&>") } else { write!(f, "'{}'{:>6}", Nest(self.0 - 1), "\\"") } } }
struct Wr(&'static str);
impl std::fmt::Display for Wr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    struct Up<'a, 'b>(&'a mut std::fmt::Formatter<'b>);
    impl<'a, 'b> std::fmt::Write for Up<'a, 'b> { fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() { for u in c.to_uppercase() { self.0.write_char(u)?; } } Ok(()) } }
    write!(Up(f), "{}-{:<<4}", self.0, '&') } }
static LONG: &str = "0123456789abcdef<0123456789abcdef&0123456789abcdef'0123456789\\"ABCDEFGHIJKLMNOPQRSTUVWXYZ>end";
"""

# arguments of a format macro, by what they may stand for
REAL = [
 '"<{}>", "a&b"', '"{:>8}|{:<8}|{:^8}", "<", "&", "\\""', '"{:<<10}", "x"', '"{:&>10}", "<x"', '"{:\'^9}", 7',
 '"{:\\">5}", \'<\'', '"{:?}", "q\\"<\\n\\u{e9}\\u{7f}\'"', '"{:?}", \'\\\'\'', '"{:?}", vec!["<", "&"]',
 '"{:#?}", Rec { name: "<n>", c: \'&\', v: vec![1, 2], o: Some("o\\""), t: (1, "\'") }', '"{:?}", Rec::default()',
 '"{:#?}", vec![En::A, En::B("<"), En::C { d: \'\\"\' }]', '"{:#?}", (1, "<", Some(\'>\'))', '"{:08.3}", 3.14159', '"{:e}", 123456.0',
 '"{:+}", 5', '"{:#x} {:#b} {:#o} {:#X}", 255, 5, 8, 48879', '"{:#010x}", 255', '"{0} {1} {0}", "<", "&"',
 '"{a}{b}{a}", a = "<", b = 3', '"{:w$.p$}", "<&>abc", w = 10, p = 4', '"{:>1$}", "<", 12', '"{:.*}", 3, "<<<<<"', '"{{<}}{}", "}"',
 '"<&>"', '"plain"', '""', '"{}", ""', '"{LONG}"', '"{}{}", LONG, LONG', '"{:>200}", "<"', '"{:<<300}", ""', '"{:?}", LONG',
 '"{}", format_args!("{}&{:>4}", "<", \'>\')', '"<{}>", format_args!("<{}>", format_args!("<{}>", 1))', '"{}", Padded("<p>")', '"{:>9}", Padded("<p>")',
 '"{:&^9.2}", Padded("<p>")', '"{}", Chars("a<b&c\\"d\'e>\\u{20ac}\\u{1f600}f")', '"{}", Bytes("a<\\u{e9}&\\"\'>")', '"{:>+#09.4}", Flags', '"{:<>7}", Flags',
 '"{}", Flags', '"{}", Nest(4)', '"{}", Wr("a<b\\u{df}\'")', '"{}", \'\\u{1c4}\'.to_lowercase()', '"{}", "\'<\\u{e9}".escape_debug()', '"{}", "<&".escape_unicode()',
 '"{}", "<\\n".escape_default()', '"{:?}", std::time::Duration::from_millis(1500)', '"{}", std::path::Path::new("/<a>&\'b\\"").display()',
 '"{:?}", std::path::Path::new("/<a>&\'b\\"")', '"{}", "x<".parse::<i32>().unwrap_err()', '"{:?}", std::str::from_utf8(&[60, 255, 38])', '"{}", String::from_utf8_lossy(&[60, 255, 38])',
 '"{}", std::net::Ipv6Addr::LOCALHOST', '"{:?}", Some("<")', '"{:?}", std::collections::BTreeMap::from([("<k>", \'&\'), ("l", \'"\')])', '"{:#?}", std::collections::BTreeMap::from([("<k>", vec![\'&\'])])',
 '"{:?}", "<a>&".as_bytes()', '"{:02x?}", b"<&"', '"{}", Box::new("<b>")', '"{}", std::rc::Rc::new(String::from("&rc\'"))', '"{}", &&&"<"',
 '"{:p}", std::ptr::null::<u8>()', '"{}", f64::NAN', '"{:10}|", f32::INFINITY', '"{:?} {:?}", 0.1, 1e21', '"{}", u128::MAX', '"{:>45}", i128::MIN', '"{}", true', '"{:<7}&", false',
 '"{:?}", ()', '"{}", std::process::id() > 0', '"{:5}<", \'\\u{4e2d}\'', '"{:-^7}", "\\u{20ac}"', '"{}\\u{e9}<{}", \'\\u{e9}\', \'&\'', '"\\u{20ac}{:\\u{20ac}>5}\'", "<"',
 '"{:?}", "\\u{301}<"', '"{}{}{}{}{}{}{}{}{}{}", "<", 1, \'&\', "", "\\"", 2u8, \'\\\'\', "> >", -3, "&&"',
 '"{:?}", std::any::type_name::<Option<&str>>()', '"{}", std::fmt::Error', '"{}", std::iter::repeat(LONG).take(40).collect::<String>()',
 '"{:>20000}", "<"', '"{:<<20000}", "x"', '"{}", concat!("<", 1, "&", true)', '"{}", stringify!(a < b && c > d)', 'concat!("<", "{}", ">"), "\'"',
]
# displayable values rendered directly
SHOWN = ['Padded("<p>")', 'Chars("a<b&")', 'Bytes("\\"<\\u{e9}>")', 'Flags', 'Nest(3)', 'Wr("a\'<")', '"<str>"', 'String::from("<s&>")', '\'<\'', '1.5', 'u8::MAX',
         'std::fmt::Error', '"<&".escape_unicode()', 'Box::new("<b>")', 'std::rc::Rc::new(String::from("&\'"))', '&&"<"', 'true', 'std::net::Ipv4Addr::LOCALHOST',
         'std::borrow::Cow::<str>::Borrowed("<c>")', 'std::cell::RefCell::new(1).take()', 'LONG', 'f32::NAN', '1e300', '0.1f32', '-0.0', '\'\\u{1c4}\'.to_uppercase()']


def piece(p):
    t, n, c = rstr(dec(p["t"])), p["n"], p["c"]
    k = p["p"]
    if k == "char":
        return "Piece::Char(%s)" % ({"'": "'\\''", '"': "'\"'"}.get(p["t"], "'%s'" % p["t"]))
    if k in ("pad", "lpad", "cpad"):
        return "Piece::%s(%s, %d, '%s')" % (k.capitalize(), t, n, c)
    if k == "prec":
        return "Piece::Prec(%s, %d)" % (t, n)
    return "Piece::%s(%s)" % ({"str": "Str", "args": "Args"}[k], t)


def as_format(ps, rng):
    """The same pieces as a format string and arguments."""
    s, args = "", []
    for p in ps:
        t = rstr(dec(p["t"]))
        v = rng.choice(["%s", "pass(%s)", "&String::from(%s)"]) % t
        k = p["p"]
        al = {"pad": "<", "lpad": ">", "cpad": "^"}
        if k == "str" and rng.random() < 0.6:
            s += p["t"].replace("{", "{{").replace("}", "}}")
        elif k in al:
            s += "{:%s%s%d}" % (p["c"], al[k], p["n"])
            args.append(v)
        elif k == "prec":
            s += "{:.%d}" % p["n"]
            args.append(v)
        elif k == "args":
            s += "{}"
            args.append('format_args!("<{}>", %s)' % v)
        elif k == "char":
            s += "{}"
            args.append("%s.chars().next().unwrap()" % t)
        else:
            s += "{}"
            args.append(v)
    return ", ".join([rstr(dec(s))] + args)


def model(chk):
    cfg = ('INIT Init\nNEXT Next\nCONSTANT Texts <- %s\nCONSTANT Pads = {%s}\nCONSTANT MaxPieces = %d\nCONSTANT MaxDepth = 1\n'
           'INVARIANT Commutes Before Emit\n')
    t = chk.count(tlc("Fmt", cfg % ("FewTexts", "2, 4", 2), timeout=800))
    a = [x for x in t.json_lines()]
    t = chk.count(tlc("Fmt", cfg % ("MoreTexts", "0, 1, 3, 5, 18", 12),
                      sim=4000 if chk.thorough else 800, depth=60, seed=chk.seed, workers=1, timeout=800))
    b = [x for x in t.json_lines()]
    t = chk.count(tlc("Fmt", (cfg % ("FewTexts", "2", 1)).replace("INIT Init\nNEXT Next", "SPECIFICATION Spec"), timeout=800))
    chk.notes["pieces"] = {"short": len(a), "long": len(b)}
    return a, b


def run(chk):
    rng = chk.rng
    a, b = model(chk)
    nofail = lambda ps: ps and all(p["p"] != "fail" for p in ps)
    a = [x for x in a if nofail(x)]
    b = [x for x in b if nofail(x)]
    ca, cb = (len(a), 4000) if chk.thorough else (1500, 700)
    a = a if len(a) <= ca else rng.sample(a, ca)
    b = b if len(b) <= cb else rng.sample(b, cb)
    plan = []          # (pieces, source of the value, source of its plain text, temporaries)
    for ps in a + b:
        v = "Pieces(&[%s])" % ", ".join(piece(p) for p in ps)
        f = as_format(ps, rng)
        plan.append((ps, rng.choice(["disp!(%s)", "RenderDisplay(%s)", "RenderDisplay::from(%s)", "disp!(&%s)"]) % v,
                     "(%s).to_string()" % v, False))
        plan.append((ps, rng.choice(["format_args!(%s)", "format_args!(\"{}\", format_args!(%s))"]) % f, "format!(%s)" % f, True))
        if rng.random() < 0.2:
            plan.append((ps, "format_args!(\"{}\", %s)" % v, "(%s).to_string()" % v, True))
    for r in REAL:
        for _ in range(len(PLACES) if chk.thorough else 5):
            plan.append(([], "format_args!(%s)" % r, "format!(%s)" % r, True))
            plan.append(([], "disp!(format_args!(%s))" % r, "format!(%s)" % r, True))
    for r in SHOWN:
        for _ in range(len(PLACES) if chk.thorough else 5):
            plan.append(([], "disp!(%s)" % r, "(%s).to_string()" % r, False))
            plan.append(([], "format_args!(\"{}\", %s)" % r, "(%s).to_string()" % r, True))
    cases, plains = [], {}
    for i, (ps, src, plain, temp) in enumerate(plan):
        while True:
            tmpl, frame = rng.choice(PLACES)
            if not (temp and tmpl in NO_TEMP):
                break
        m = tmpl.replace("%s", "\0").replace("\0", src)
        form = rng.randrange(3)
        if form == 0:
            body = "let s = render!(%s);\n_rt.take(s);" % m
        elif form == 1:
            body = "laby::Render::render(%s, _rt.buf());\n_rt.done();" % m
        elif temp:
            body = "match %s { m => { _rt.built(); laby::Render::render(m, _rt.buf()); _rt.done() } }" % m
        else:
            body = "let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();" % m
        c = Case(None, "take", body=body)
        c.frame = frame
        cases.append(c)
        if plain not in plains:
            plains[plain] = Case(None, "take", body="let s: String = %s;\n_rt.take(s);" % plain)
    pk = list(plains)
    for profile, sel in (("debug", slice(None)), ("release", slice(chk.seed % 4, None, 1 if chk.thorough else 4))):
        sub = cases[sel]
        splan = plan[sel]
        used = sorted({p[2] for p in splan})
        allc = sub + [plains[k] for k in used]
        rt = build_rt(profile)
        chk.log("compiling and running %d templates (%s)" % (len(allc), profile))
        obs, notes = programs(chk, "p15", allc, rt, head=HEAD + ITEMS)
        report_notes(chk, notes, allc)
        pout = {k: obs[len(sub) + j][0]["out"] for j, k in enumerate(used) if obs[len(sub) + j]}
        recs, idx = [], []
        for j, (ps, src, plain, temp) in enumerate(splan):
            if not obs[j] or plain not in pout:
                continue
            if any(o["pan"] or not o["pre"] for o in obs[j]):
                chk.violation("rendering a formatted value failed", {"source": sub[j].source("c"), "observed": obs[j][:1]})
                continue
            recs.append({"pieces": ps, "plain": pout[plain], "frame": sub[j].frame,
                         "outs": sorted({o["out"] for o in obs[j]})})
            idx.append(j)
        chk.log("validating %d records" % len(recs))
        for j in validate(chk, "FmtTrace", recs, heap="6g"):
            chk.violation("a formatted value is not rendered as the escaped form of its text", {
                "profile": profile, "source": sub[idx[j]].source("c"), "record": json.dumps(recs[j])[:3000]})
        for j in (0, len(recs) // 2, len(recs) - 1):
            if recs:
                chk.sample({"source": sub[idx[j]].source("c")[:600], "out": recs[j]["outs"][0][:300]})
        chk.notes["formatted_" + profile] = len(recs)
    chars.sweep(chk, chars.FORMAT + [o for o in chars.COOKED if o.startswith("args")], [0],
                "a formatted character is not rendered escaped", ("debug", "release"))
    chk.assumptions = ["what formatting an ordinary (unscripted) value to a string gives is recorded from std's format!"]
