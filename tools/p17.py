"""P17: a failure while rendering leaves a valid, usable buffer."""
from vlib import *
from rustgen import *
from p05 import lf, el, at


def F(form="", t="part<"):
    return {"k": "fail", "id": 1, "t": enc(t), "form": form}


def hl():
    return {"k": "leaf", "how": "held", "id": 1, "r": True, "raw": False, "t": ""}


def items(rng, n, fail):
    q = [{"k": "leaf", "how": "hitem", "id": 1, "r": True, "raw": False, "t": ""} for _ in range(n)]
    if fail:
        q[rng.randrange(n)] = F("item")
    return q


def a_list(rng):
    return {"k": "list", "sep": enc(rng.choice(["", ", ", "<br>"])), "items": items(rng, rng.randrange(1, 6), rng.random() < 0.5),
            "style": rng.choice(["[%s]", "vec![%s]", "vec![%s].into_iter().filter(|_| true)", "std::collections::VecDeque::from([%s])"])}


def a_script(rng):
    at_ = rng.randrange(1, 5)
    return {"k": "fiter", "id": 1, "sep": enc(rng.choice(["", "|", "&amp;"])), "at": at_,
            "script": [{"some": True, "t": enc(rng.choice(["a", "<", ""]))} for _ in range(at_ + rng.randrange(2))]}


def spice(a, rng):
    """Lists of held values, failing iterators, caught failures and components among the rest."""
    def go(n, top=False):
        k = n["k"]
        if k in ("el", "frag", "classes"):
            n["items"] = [go(x) for x in n["items"]]
        elif k == "attr":
            if n["flag"] == "no":
                n["val"] = go(n["val"])
            return n
        elif k in ("wrap", "do"):
            n["x"] = go(n["x"])
        elif k == "if":
            n["arms"] = [go(x) for x in n["arms"]]
        elif k == "match":
            for x in n["arms"]:
                x["x"] = go(x["x"])
        p = rng.random()
        if k == "leaf" and p < 0.15:
            return a_list(rng)
        if k == "leaf" and p < 0.2:
            return a_script(rng)
        if k == "fail" and p < 0.3:
            return {"k": "catch", "x": n}
        if not top and k not in ("id", "cfail") and p > 0.93:
            return {"k": "catch", "x": n}
        if not top and k in ("el", "leaf", "fail") and 0.86 < p < 0.93:
            return {"k": "wrap", "w": rng.choice(["call", "callrest"]), "x": n}
        return n
    a["lets"] = [go(x) for x in a["lets"]]
    a["root"] = go(a["root"], True)
    return a


class S17(Src):
    def wrap(self, w, x):
        if w == "call":
            return "comp!(x = %s)" % self.node(x)
        if w == "callrest":
            return "comprest!(%s)" % self.node(x)
        return Src.wrap(self, w, x)


def div(n):
    if isinstance(n, list):
        return [div(x) for x in n]
    if isinstance(n, dict):
        if n.get("k") == "wrap" and n["w"].startswith("call"):
            return el("div", div(n["x"]))
        return {k: div(v) for k, v in n.items()}
    return n


ITEMS = """
#[laby] fn comp(x: impl Render) -> impl Render { div!(x) }
#[laby] fn comprest(#[rest] x: impl Render) -> impl Render { div!(x) }
"""


def everywhere():
    """Every kind of failure in every position, between values whose drop is seen."""
    out = []
    for form in sorted(set(FAILS)) + ["item"]:
        pos = [lambda x: x, lambda x: el("p", hl(), x, hl()), lambda x: el("a", at("href", x), hl(), at("b", hl())),
               lambda x: el("img", at("a", hl()), at("src", x), at("z", hl())), lambda x: {"k": "frag", "items": [hl(), x, hl()]},
               lambda x: {"k": "classes", "items": [lf("c", "lit"), x, hl()]}, lambda x: el("div", el("b", hl(), el("i", x)), hl()),
               lambda x: el("p", at("class", {"k": "classes", "items": [hl(), x, hl()]}), lf("k", "lit")),
               lambda x: {"k": "if", "conds": [{"id": 1, "b": True, "form": "b"}], "arms": [el("p", hl(), x), hl()]},
               lambda x: {"k": "wrap", "w": "some", "x": x}, lambda x: el("p", {"k": "wrap", "w": "call", "x": x}, hl()),
               lambda x: {"k": "wrap", "w": "callrest", "x": x}, lambda x: el("p", lf("a", "lit"), {"k": "catch", "x": x}, hl(), lf("b", "lit")),
               lambda x: {"k": "frag", "items": [{"k": "catch", "x": el("b", hl(), x, hl())}, {"k": "catch", "x": F()}, hl(), F()]},
               lambda x: {"k": "list", "sep": "-", "style": "[%s]", "items": [x]} if form == "item" else el("p", x, F()),
               lambda x: el("p", {"k": "leaf", "how": "lit", "id": 0, "r": False, "raw": False, "t": "", "big": 1}, x)]
        for p in pos:
            out.append({"lets": [], "root": p(F(form if form == "item" else "", ""))})
            if form != "item":
                pin(out[-1]["root"], form)
    return out


def pin(n, form):
    """Fixes the form of failure."""
    if isinstance(n, list):
        for x in n:
            pin(x, form)
    elif isinstance(n, dict):
        if n.get("k") == "fail" and n.get("form") != "item":
            n["pin"] = form
        for x in n.values():
            pin(x, form)


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "held fail cfail", "se sF sx", "el frag", "el", "flat", 4, 3, cap=2200 * k, seed=1)
    b = trees(chk, "lit held fail ev held", "se sl sF le ee st", "el void frag classes if match", "el frag classes if match",
              "flat wrap let do", 16, 5, sim=1800 * k, cap=1300 * k, seed=2)
    c = trees(chk, "lit held ev cfail held", "se sl sx ee sf", "el void frag classes if match", "el frag classes",
              "flat wrap let do", 14, 4, sim=900 * k, cap=600 * k, seed=3)
    d = trees(chk, "lit held ev plain", "se sl le", "el frag classes match", "el frag if", "flat wrap let", 12, 4,
              sim=500 * k, cap=300 * k, seed=4)
    cases = []
    for i, t in enumerate(everywhere() + everywhere() + a + b + c + d):
        nm = Namer(chk.seed * 100000 + i)
        t = nm.tree(spice(t, chk.rng) if i % 2 else t)
        case = Case(div(t), ("sep", "sep", "take")[i % 3], meta={"held": nm.held})
        s = S17()
        body = ["let v%d = %s;" % (j + 1, s.node(x)) for j, x in enumerate(t["lets"])]
        m = s.node(t["root"])
        body.append("let s = render!(%s);\n_rt.take(s);" % m if case.kind == "take" else
                    "let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();" % m)
        case.body = "\n".join(body)
        cases.append(case)
    judge(chk, "p17", cases, "fail", memory=True, label="a failure did not leave what was rendered before it", head=HEAD + ITEMS)
    judge(chk, "p17r", cases[chk.seed % 4::4], "fail", profiles=("release",), memory=True,
          label="a failure did not leave what was rendered before it", head=HEAD + ITEMS)
    chk.assumptions = ["failures are Rust panics (unwinding) and formatting errors"]
