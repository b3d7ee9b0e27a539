"""P09: boolean attributes appear by name or not at all."""
from vlib import *
from rustgen import *


def values(chk):
    """Unmarked attributes with boolean values, and values that are nearly booleans."""
    out = []
    n = 0
    for tag in ("input", "div", "option", "wbr"):
        for b in (True, False):
            for how, src in (("lit", "%s"), ("lit", "(%s)"), ("lit", "{ %s }"), ("ev", "%s"), ("ex", "%s"),
                             ("plain", "%s"), ("ex", "Some(%s)"), ("ev", "!!%s")):
                for name in ({"k": "id", "src": "checked", "s": "checked"},
                             {"k": "leaf", "how": "lit", "id": 0, "r": False, "raw": False, "src": "\"data-b\"",
                              "t": "data-b"},
                             {"k": "leaf", "how": "ev", "id": 9, "r": True, "raw": False, "src": "\"dyn\"", "t": "dyn"}):
                    n += 1
                    t = "true" if b else "false"
                    x = {"k": "attr", "name": name, "flag": "no", "id": 0, "b": False,
                         "val": {"k": "leaf", "how": how, "id": 1 if how in ("ev", "ex") else 0, "r": how == "ev",
                                 "raw": False, "t": t, "src": src % t}}
                    root = {"k": "el", "tag": tag, "void": tag in VOID, "items": [x]}
                    out.append(Case({"lets": [], "root": root}, ("sep", "take")[n % 2]))
    return out


def run(chk):
    k = 4 if chk.thorough else 1
    forms = "st sf s1 s0 lt lf l1 l0 et ef e1 se"
    a = trees(chk, "lit", forms, "el", "el void", "flat", 4, 2, cap=3500 * k, seed=1)
    b = trees(chk, "lit ev", forms + " e0 le ee", "el void frag", "el void", "flat wrap let do", 16, 4,
              sim=1000 * k, cap=700 * k, seed=2)
    cases = values(chk) + [Case(Namer(chk.seed * 100000 + i).tree(t), ("sep", "take")[i % 2])
                           for i, t in enumerate(a + b)]
    # conditions written alike, with another answer every time
    c = [x for x in trees(chk, "ex", "se st sf", "el void", "el", "flat", 4, 2, cap=3000 * k, seed=4) if Ticks.fit(x)]
    chk.rng.shuffle(c)
    cases += [Ticks(chk.seed * 100000 + i).case(t, ("sep", "take")[i % 2]) for i, t in enumerate(c[:400 * k])]
    judge(chk, "p09", cases, "text", label="boolean attribute not rendered by name or not at all")
    judge(chk, "p09r", cases[chk.seed % 4::4], "text", profiles=("release",),
          label="boolean attribute not rendered by name or not at all")
