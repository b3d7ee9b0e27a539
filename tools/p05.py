"""P05: markup has exactly the documented shape."""
from vlib import *
from rustgen import *


def lf(t, how="ev", id=1):
    return {"k": "leaf", "how": how, "id": id if how in ("ev", "ex") else 0, "r": how == "ev",
            "raw": False, "t": enc(t), "src": rstr(t)}


def at(name, val):
    return {"k": "attr", "name": {"k": "id", "src": name, "s": name}, "flag": "no", "id": 0, "b": False,
            "val": val}


def el(tag, *items):
    return {"k": "el", "tag": tag, "void": tag in VOID, "items": list(items)}


def every_tag(chk):
    """Every element macro: alone, with attributes and children, inside others, by path."""
    out = []
    tags = NORMAL + VOID
    for i, t in enumerate(tags):
        v = t in VOID
        other = NORMAL[(i * 7 + 3) % len(NORMAL)]
        full = ([at("id", lf("a<b")), at("x", lf("l&", "lit"))]
                + ([] if v else [lf("k\"", "lit"), at("z", lf("late")), lf("c>", "ev", 2)]))
        trees_ = [el(t), el(t, *full), el(other, el(t)), el(other, lf("x", "lit"), el(t, *full), lf("y")),
                  {"k": "frag", "items": [el(t), el(t, *full), el(t)]},
                  {"k": "classes", "items": [el(t), el(t, *full)]},
                  {"k": "wrap", "w": "path", "x": el(t, *full)},
                  el(other, {"k": "wrap", "w": "path", "x": el(t, *full)}, el(t)),
                  el(other, at("v", el(t, *full)))]
        if not v:
            trees_ += [el(t, el(t, el(t, lf("z")))), el(t, el("br"), el(other, el(t)), lf("", "lit"))]
        for x in trees_:
            out.append(Case({"lets": [], "root": x}, ("sep", "take")[len(out) % 2]))
    return out


def big(chk):
    """Many attributes and children, deep nesting, repeated names."""
    out = []
    rng = chk.rng
    for n in (2, 9, 10, 11, 30, 60, 99, 101, 130):
        kinds = [("ev", "lit"), ("ev", "ev"), ("lit", "lit"), ("ex", "ev")][n % 4]
        out.append(el("div", *[at("a%d" % (j % 7), lf("v%d<" % j, kinds[j % 2], j + 1)) for j in range(n)]))
        out.append(el("ul", *[lf("k%d&" % j, kinds[(j + 1) % 2], j + 1) for j in range(n)]))
        mixed = []
        for j in range(n):
            c = rng.randrange(4)
            mixed.append(at("m%d" % (j % 5), lf("w%d" % j, "ev", j + 1)) if c == 0 else
                         lf("t%d'" % j, "ev", j + 1) if c == 1 else
                         el(rng.choice(NORMAL), at("q", lf("%d" % j)), lf("u%d" % j, "lit")) if c == 2 else
                         el(rng.choice(VOID), at("q", lf("%d\"" % j, "ev", j + 1))))
        out.append(el("section", *mixed))
        out.append(el("input", *[at("a", lf("%d" % (j * j), ("lit", "ev")[j % 2], j + 1)) for j in range(n)]))
    for depth in (5, 17, 33, 60):
        x = lf("deep<")
        y = lf("deep<")
        for j in range(depth):
            x = el(NORMAL[(j * 13) % len(NORMAL)], at("d", lf("%d" % j)), x, lf("after%d" % j, "lit"))
            y = el(NORMAL[(j * 5) % len(NORMAL)], y)
        out += [x, y]
    # the same attribute, child and element again and again
    for how in ("lit", "ev", "ex"):
        for tag in ("div", "input"):
            same = at("class", lf("same", how, 1))
            kid = [] if tag in VOID else [lf("kid<", how, 1)]
            b = dict(same, flag="lit", b=True, val={"k": "none"}, src="true")
            out += [el(tag, same, same), el(tag, same, at("x", lf("1", how, 2)), same, *(kid * 3)),
                    el(tag, b, same, b, b), el("p", el(tag, same), el(tag, same)),
                    {"k": "frag", "items": [el(tag, same, same, *kid)] * 3},
                    {"k": "classes", "items": [el(tag, same, *kid)] * 3},
                    {"k": "classes", "items": [lf("c", how, 1)] * 4}]
    return [Case({"lets": [], "root": x}, ("sep", "take")[i % 2]) for i, x in enumerate(out)]


def run(chk):
    k = 5 if chk.thorough else 1
    a = trees(chk, "lit ev", "sl se el", "el void", "el void", "flat", 5 if chk.thorough else 4, 3,
              cap=4000 * k, seed=1)
    b = trees(chk, "lit ev ex none plit doc dolit", "sl se ll le ee lx st sf s1 s0 et", "el void frag classes", "el void",
              "flat wrap let do", 16, 5, sim=1500 * k, cap=1000 * k, seed=2)
    cases = [Case(Namer(chk.seed * 100000 + i).tree(t), ("sep", "take")[i % 2]) for i, t in enumerate(a + b)]
    judge(chk, "p05", every_tag(chk) + big(chk) + cases, "text", label="the text is not the template's")
