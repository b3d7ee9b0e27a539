"""P06: how markup is composed does not change what it renders."""
from vlib import *
from rustgen import *


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit ev", "se", "el void frag classes", "el frag classes", "flat wrap let do", 3, 3,
              cap=1200 * k, seed=1)
    b = trees(chk, "lit ev ex plain raw none doc", "sl se le st", "el void frag classes if match", "el frag classes if",
              "flat wrap let do", 14, 5, sim=900 * k, cap=500 * k, seed=2)
    cases = []
    for i, t in enumerate(a + b):
        t = Namer(chk.seed * 100000 + i, longer=True).tree(t)
        cases.append(Case(t, "sep"))
        cases.append(Case(t, "take"))
        for j in range(2):
            cases.append(Case(wrapped(t, chk.rng, (1.0, 0.5)[j]), ("sep", "take")[(i + j) % 2]))
    # a value put in one piece into a parent and into a list
    judge(chk, "p06", cases, "text", label="composition changed the text")
    judge(chk, "p06r", cases[chk.seed % 4::4], "text", profiles=("release",), label="composition changed the text")
