"""P08: each embedded expression is evaluated once, when built, and rendered once, in order."""
from vlib import *
from rustgen import *


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit ev", "se sl ee", "el frag", "el", "flat wrap", 5 if chk.thorough else 4, 3,
              cap=3000 * k, seed=1)
    b = trees(chk, "lit ev ex none rawev dolit", "sl se le ee sx st sf lt s1 sd ld pe pd pt pf", "el void frag classes if match",
              "el void frag classes if match", "flat wrap let do", 16, 5, sim=2000 * k, cap=1500 * k, seed=2)
    cases = [Case(Namer(chk.seed * 100000 + i).tree(t), ("sep", "sep", "take")[i % 3]) for i, t in enumerate(a + b)]
    # written alike, but another value every time
    c = [x for x in trees(chk, "ev ex", "se st sf ee", "el void frag classes", "el frag classes", "flat", 4, 3, cap=3000 * k, seed=4) if Ticks.fit(x)]
    c += [x for x in trees(chk, "ev ex", "se st sf ee", "el void frag classes", "el frag classes", "flat let wrap", 14, 4, sim=2500 * k, cap=2000 * k, seed=5)
          if Ticks.fit(x)]
    chk.rng.shuffle(c)
    cases += [Ticks(chk.seed * 100000 + i).case(t, ("sep", "take")[i % 2]) for i, t in enumerate(c[:600 * k])]
    judge(chk, "p08", cases, "events", label="expressions not evaluated once, when built, in order")
    judge(chk, "p08r", cases[chk.seed % 3::3], "events", profiles=("release",),
          label="expressions not evaluated once, when built, in order")
