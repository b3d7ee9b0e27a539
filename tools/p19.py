"""P19: only explicitly raw text bypasses escaping."""
import chars
from vlib import *
from rustgen import *
from p05 import lf, el, at

ITEMS = """
#[laby] fn comp(x: impl Render) -> impl Render { div!(x) }
#[laby] fn comprest(#[rest] x: impl Render) -> impl Render { div!(x) }
fn plainfn(x: impl Render) -> impl Render { x }
"""


def leaf(src, t, raw):
    return {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": raw, "src": src, "t": enc(t)}


CONTENTS = TEXTS + ["&", "\"", "'", ">", "&lt;", "&amp;lt;", "<&>\"'", "a" * 31 + "<", "a" * 32 + "&",
                    "<script>alert(\"x\")</script>" * 3, "\u00e9\"\u20ac'\U0001f600>", "x" * 15 + "'" + "y" * 40,
                    "<" * 70]

RAW = ["raw!(%s)", "raw!(String::from(%s))", "RenderRaw(%s)", "RenderRaw::from(%s)", "raw!(Box::<str>::from(%s))",
       "raw!(std::borrow::Cow::Borrowed(%s))", "raw!(Sep(%s))", "Some(raw!(%s))", "raw!(std::rc::Rc::<str>::from(%s))",
       "raw!(if true { %s } else { \"\" })", "raw!({ %s })", "(raw!(%s))", "{ raw!(%s) }"]
COOKED = ["%s", "(%s)", "{ %s }", "pass(%s)", "String::from(%s)", "Some(%s)", "Some(String::from(%s))",
          "std::borrow::Cow::Borrowed(%s)", "std::borrow::Cow::<str>::Owned(String::from(%s))",
          "disp!(%s)", "RenderDisplay::from(%s)", "plainfn(%s)", "iter!(%s.chars())", "iter!(Some(%s))",
          "iter!(vec![%s])", "disp!(String::from(%s))", "{ let s = %s; s }", "Some(Some(%s))"]
TAKE_ONLY = ["format_args!(\"{}\", %s)", "&*String::from(%s)", "raw!(&String::from(%s))"]

POSITIONS = [
    ("child", lambda x: el("p", x)), ("child2", lambda x: el("p", lf("a", "lit"), x, lf("b", "lit"))),
    ("root", lambda x: x), ("val", lambda x: el("a", at("href", x))),
    ("void", lambda x: el("img", at("alt", x), at("src", x))),
    ("name", lambda x: el("a", {"k": "attr", "name": x, "flag": "no", "id": 0, "b": False, "val": lf("v", "lit")})),
    ("flagname", lambda x: el("a", {"k": "attr", "name": x, "flag": "dyn", "id": 1, "b": True, "src": "ex(1, true)",
                                    "val": {"k": "none"}})),
    ("class", lambda x: el("p", at("class", {"k": "classes", "items": [x, lf("k", "lit"), x]}))),
    ("frag", lambda x: {"k": "frag", "items": [x, x]}),
    ("nested", lambda x: el("div", {"k": "frag", "items": [el("b", x), {"k": "classes", "items": [x, x]}]})),
    ("branch", lambda x: el("p", {"k": "if", "conds": [{"id": 1, "b": False, "form": "b"}], "arms": [lf("no", "lit"), x]})),
    ("let", None),
    ("call", lambda x: {"k": "wrap", "w": "call", "x": x}),
    ("rest", lambda x: {"k": "wrap", "w": "callrest", "x": x}),
    ("fn", lambda x: el("p", {"k": "wrap", "w": "fn", "x": x})),
    ("some", lambda x: {"k": "wrap", "w": "some", "x": x}),
]


class S19(Src):
    def wrap(self, w, x):
        if w == "call":
            return "comp!(x = %s)" % self.node(x)
        if w == "callrest":
            return "comprest!(%s)" % self.node(x)
        return Src.wrap(self, w, x)


def div(n):
    """What the components above render around their argument."""
    if isinstance(n, list):
        return [div(x) for x in n]
    if isinstance(n, dict):
        if n.get("k") == "wrap" and n["w"] in ("call", "callrest"):
            return el("div", div(n["x"]))
        return {k: div(v) for k, v in n.items()}
    return n


def everywhere(chk):
    out = []
    i = 0
    for raw, forms in ((True, RAW), (False, COOKED)):
        for form in forms + [f for f in TAKE_ONLY if f.startswith("raw!") == raw]:
            for name, pos in POSITIONS:
                n = 4 if not chk.thorough else 14
                for c in [CONTENTS[(i * 7 + j * 5 + chk.seed) % len(CONTENTS)] for j in range(n)]:
                    i += 1
                    if form in TAKE_ONLY and name in ("let", "branch", "call", "rest", "frag", "class", "nested"):
                        continue
                    if name in ("name", "flagname") and form.startswith("{"):
                        continue      # not an attribute name for Rust's parser
                    x = leaf(form % rstr(c), c, raw)
                    lets = []
                    if name == "let":
                        lets, root = [el("q", x)], el("p", {"k": "var", "v": 1})
                    else:
                        root = pos(x)
                    kind = "take" if form in TAKE_ONLY or i % 2 else "sep"
                    ast = {"lets": lets, "root": root}
                    s = S19()
                    b = ["let v%d = %s;" % (j + 1, s.node(y)) for j, y in enumerate(lets)]
                    if kind == "take":
                        b.append("let s = render!(%s);\n_rt.take(s);" % s.node(root))
                    else:
                        b.append("let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();" % s.node(root))
                    out.append(Case(div(ast), kind, body="\n".join(b)))
    return out


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit raw ev", "sr re", "el classes", "el frag", "flat", 4, 3, cap=1500 * k, seed=1)
    b = trees(chk, "lit ev ex raw rawev plain none", "se le ee sr re rr rt et", "el void frag classes if match",
              "el frag classes", "flat wrap let do", 14, 5, sim=1500 * k, cap=900 * k, seed=2)
    cases = everywhere(chk)
    cases += [Case(Namer(chk.seed * 100000 + i, longer=True).tree(t), ("sep", "take")[i % 2])
              for i, t in enumerate(a + b)]
    judge(chk, "p19", cases, "text", label="text escaped or left unescaped wrongly", head=HEAD + ITEMS)
    judge(chk, "p19r", cases[chk.seed % 4::4], "text", profiles=("release",),
          label="text escaped or left unescaped wrongly", head=HEAD + ITEMS)
    chars.sweep(chk, chars.RAW + chars.COOKED + chars.VALUE + chars.FORMAT, [0], "a character escaped or left unescaped wrongly")
