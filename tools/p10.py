"""P10: conditional fragments render exactly the branch taken."""
from vlib import *
from rustgen import *
from p05 import lf, el


def long_chains(chk):
    """Chains of every length, each branch of a type of its own, every branch selected once."""
    out = []
    bodies = ["\"s%d<\"", "%du8", "'c'", "true", "()", "None::<u8>", "Some(%d)", "div!(\"d%d\")", "frag!()",
              "raw!(\"<r%d>\")", "String::from(\"o%d&\")"]
    texts = ["s%d<", "%d", "c", "true", "", "", "%d", None, "", None, "o%d&"]

    def body(j):
        b = j % len(bodies)
        src = bodies[b] % j if "%" in bodies[b] else bodies[b]
        if b == 7:
            return el("div", lf("d%d" % j, "lit"))
        if b == 8:
            return {"k": "frag", "items": []}
        if b == 9:
            return {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": src, "t": "<r%d>" % j}
        t = texts[b] % j if "%" in texts[b] else texts[b]
        return {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": False, "src": src, "t": t}

    sizes = (1, 2, 3, 5, 9, 10, 11, 12, 23) + ((40, 64) if chk.thorough else ())
    for n in sizes:
        for form in ("if", "ifelse", "match"):
            for taken in range(n + (form == "if")):
                if n > 12 and taken % 5 and taken < n - 2:
                    continue
                arms = [{"k": "do", "id": 500 + j, "x": body(j + taken)} if j % 3 == 0 else body(j + taken)
                        for j in range(n)]
                if form == "match":
                    m = {"k": "match", "id": 1, "v": taken + 1, "form": ("int", "str", "opt")[taken % 3],
                         "arms": [{"any": j == n - 1, "pats": [j + 1, j + 101], "gid": 100 + j if j % 4 == 1 and j < n - 1 else 0,
                                   "gb": True, "x": arms[j]} for j in range(n)]}
                else:
                    c = n - 1 if form == "ifelse" else n
                    if c == 0:
                        continue
                    m = {"k": "if", "conds": [{"id": 100 + j, "b": j >= taken, "form": ("b", "let")[j % 2]}
                                              for j in range(c)], "arms": arms}
                root = (m, el("p", lf("a"), m), {"k": "classes", "items": [m, m]})[(n + taken) % 3]
                out.append(Case({"lets": [], "root": root}, ("sep", "take")[taken % 2]))
    return out


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit ev", "se", "if match el frag", "if match", "flat do", 4, 4, cap=3000 * k, seed=1)
    e = trees(chk, "lit none", "se", "if match el", "if match", "flat", 4, 4, cap=1500 * k, seed=3)
    b = trees(chk, "lit ev ex none empty", "se st", "if match el frag classes", "if match", "flat do wrap",
              16, 6, sim=2500 * k, cap=1500 * k, seed=2)
    cases = long_chains(chk)
    cases += [Case(Namer(chk.seed * 100000 + i).tree(t), ("sep", "sep", "take")[i % 3]) for i, t in enumerate(a + b + e)]
    judge(chk, "p10", cases, "all", label="not exactly the branch taken")
    judge(chk, "p10r", cases[chk.seed % 4::4], "all", profiles=("release",), label="not exactly the branch taken")
