"""P13: iterators are rendered lazily, in order, with exact separators."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

PLAIN = ["iter!(%s)", "RenderIterator(%s)", "RenderIterator::from(%s)"]
DELIM = ["iter!(%s, %s)", "iter!(String::from(%s), %s)", "iter!(Sep(%s), %s)", "iter!(Box::<str>::from(%s), %s)",
         "iter!(std::borrow::Cow::Borrowed(%s), %s)"]
STYLES = ["%s", "Coll(%s)", "%s.fuse()", "%s.into_iter()", "Box::new(%s)", "Hinted(%s, 0, Some(0))",
          "Hinted(%s, 3, None)", "Hinted(%s, 1000, Some(1000))", "Hinted(%s, 1, Some(1))",
          "Hinted(%s, 0, None)"]
ITEMS = """
/// An iterator whose size hint is of no use.
struct Hinted<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) }
}
#[laby] fn comp(x: impl Render, #[rest] r: impl Render) -> impl Render { div!(x, r) }
"""


def model(chk):
    cfg = ("INIT Init\nNEXT Next\nCONSTANT MaxLen = %d\nCONSTANT Texts = {%s}\nCONSTANT Seps = {%s}\n"
           "INVARIANT Prefix Done Counts Emit\n")
    t = chk.count(tlc("MCIter", cfg % (6 if chk.thorough else 5, '"a<", ""', '"", ", ", "<br>"')))
    a = list(t.json_lines())
    t = chk.count(tlc("MCIter", cfg % (40, '"x", "&", ""', '"", "|", "\'&"'), sim=400 if chk.thorough else 80,
                      depth=60, seed=chk.seed, workers=1))
    b = list(t.json_lines())
    t = chk.count(tlc("MCIter", (cfg % (3, '"a"', '"-"')).replace("INIT Init\nNEXT Next", "SPECIFICATION Spec")
                      + "PROPERTY Ends\n"))
    chk.notes["scripts"] = {"short": len(a), "long": len(b)}
    if len(a) > 3000 and not chk.thorough:
        a = chk.rng.sample(a, 3000)
    if len(b) > 600 and not chk.thorough:
        b = chk.rng.sample(b, 600)
    return a, b


def place(rng, n, j, lets):
    if j == 0:
        return n
    if j == 1:
        return el("ul", lf("h"), n, lf("f", "ev", 2))
    if j == 2:
        return el("p", at("title", n), lf("t", "lit"))
    if j == 3:
        return {"k": "frag", "items": [n, lf("z")]}
    if j == 4:
        return {"k": "classes", "items": [lf("c", "lit"), n, lf("d", "ev", 3)]}
    if j == 5:
        return {"k": "wrap", "w": rng.choice(["fn", "some", "letin", "paren"]), "x": n}
    if j == 6:
        return {"k": "if", "conds": [{"id": 2, "b": True, "form": "b"}], "arms": [n, lf("no")]}
    lets.append(n)
    return el("p", lf("x", "ev", 2), {"k": "var", "v": len(lets)})


def build(chk, nodes, base):
    rng = chk.rng
    out = []
    for i, n in enumerate(nodes):
        n = dict(n)
        n["id"] = 10
        n["style"] = rng.choice(STYLES)
        if n["sep"] == "" and rng.random() < 0.6:
            n["mac"] = rng.choice(PLAIN)
        else:
            n["two"] = True
            n["mac"] = rng.choice(DELIM)
        if n["sep"] == "|" and rng.random() < 0.3:
            n["sep"], n["mac"], n["two"] = enc("\n"), "iter_lines!(%s)", False
        lets = []
        root = place(rng, n, (i + base) % 8, lets)
        out.append(Case({"lets": lets, "root": root}, ("sep", "sep", "take")[i % 3]))
    return out


def real(chk):
    """Ordinary iterators, and several wrapped iterators in one another."""
    w = lambda s, t: Case({"lets": [], "root": {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True,
                                                "src": s, "t": enc(t)}}, "sep")
    out = [w("iter!(vec![1, 2, 3])", "123"), w("iter!(\", \", [1u8, 2, 3])", "1, 2, 3"),
           w("iter!(\"<\", \"a&b\".chars())", "a<&amp;<b"), w("iter!(\"-\", (0..5).filter(|x| x % 2 == 0))", "0-2-4"),
           w("iter!(\"-\", (0..5).map(|x| li!(x)))", "-".join("<li>%d</li>" % x for x in range(5))),
           w("iter!(\",\", None::<u8>)", ""), w("iter!(\",\", Some(\"<\"))", "&lt;"),
           w("iter!(std::iter::empty::<&str>())", ""), w("iter!(\"x\", std::iter::repeat('q').take(3))", "qxqxq"),
           w("iter!(\";\", (0..3).map(|i| iter!(\",\", (0..i))))", ";0;0,1"),
           w("iter!(\" \", \"a b  c\".split(' '))", "a b  c"), w("iter_lines!([\"a\", \"\", \"b\"])", "a\n\nb"),
           w("iter!(\"&\", (0..3).rev().chain(7..9))", "2&1&0&7&8"),
           w("iter!(\",\", std::collections::BTreeMap::from([(1, 'a'), (2, 'b')]).into_values())", "a,b"),
           w("iter!(\",\", std::iter::successors(Some(1u32), |x| if *x < 100 { Some(x * 3) } else { None }))", "1,3,9,27,81,243"),
           w("iter!((0..2000).map(|_| \"<\"))", "&lt;" * 2000),
           w("iter!(\"--\", (0..3000).map(|x| x))", "--".join(map(str, range(3000))))]
    return out


def run(chk):
    a, b = model(chk)
    cases = build(chk, a, 0) + build(chk, a, 3) + build(chk, b, 1) + real(chk)
    judge(chk, "p13", cases, "all", label="iterator not rendered lazily, in order, separated exactly", head=HEAD + ITEMS)
    judge(chk, "p13r", cases[chk.seed % 3::3], "all", profiles=("release",),
          label="iterator not rendered lazily, in order, separated exactly", head=HEAD + ITEMS)
