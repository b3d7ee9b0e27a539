"""P18: fragments and class lists join values exactly."""
from vlib import *
from rustgen import *


def doctype():
    leaf = {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": "DocType::HTML5",
            "t": "<!DOCTYPE html>"}
    x = {"k": "leaf", "how": "lit", "id": 0, "r": False, "raw": False, "src": "\"x\"", "t": "x"}
    html = {"k": "el", "tag": "html", "void": False, "items": [x]}
    roots = [leaf, {"k": "frag", "items": [leaf]}, {"k": "frag", "items": [leaf, html]},
             {"k": "classes", "items": [leaf, leaf]}, {"k": "el", "tag": "p", "void": False, "items": [leaf, x, leaf]},
             {"k": "wrap", "w": "some", "x": leaf}]
    return [Case({"lets": [], "root": r}, kind) for r in roots for kind in ("sep", "take")]


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit ev empty", "sl", "frag classes el", "frag classes", "flat", 5, 3, cap=5000 * k, seed=1)
    b = trees(chk, "lit empty ev ex none raw plain plit doc dolit", "se st", "frag classes el void if match", "frag classes el",
              "flat wrap let do", 18, 5, sim=2000 * k, cap=1200 * k, seed=2)
    c = trees(chk, "lit empty ev none", "sl", "classes", "classes frag", "flat", 40, 2, sim=200 * k, cap=150 * k, seed=3)
    cases = doctype() + [Case(Namer(chk.seed * 100000 + i).tree(t), ("sep", "take")[i % 2])
                         for i, t in enumerate(a + b + c)]
    judge(chk, "p18", cases, "text", label="values not joined exactly")
