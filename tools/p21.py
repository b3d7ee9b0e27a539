"""P21: component macros work the same in both generation modes."""
import os
from vlib import *
from rustgen import *
from comp import *
from p11 import direct, DIRECT

# without what macro_rules! components need: the function in scope under its own name where they are called
BYPATH = [
    ("mod ua { pub mod b { #[laby::laby] pub(in super::super) fn c(n: u8, #[default] m: u8) -> u8 { n + m } }\n"
     "pub mod d { pub mod e { use super::super::b::c; pub fn f() -> u8 { c!(n = 1) } } } use b::c; pub fn g() -> u8 { c!(m = 1, n = 2) } }\n"
     "use ua::b::c as other;", "let s = format!(\"{}{}{}{}\", ua::d::e::f(), ua::g(), other!(n = 5), ua::b::c!(n = 6));", [], "1356"),
    ("mod ub { pub mod b { #[laby::laby] pub(super) fn c(n: u8, #[default] m: u8) -> u8 { n + m } pub(in super) mod z { "
     "#[laby::laby] pub(in super::super) fn c2(n: u8) -> u8 { n } } pub fn h() -> u8 { c!(n = 4) + z::c2!(n = 1) } }\n"
     "use b::c; pub fn g() -> u8 { c!(m = 1, n = 2) + b::c!(n = 0) } }",
     "let s = format!(\"{}{}\", ub::g(), ub::b::h());", [], "35"),
    ("mod uc { #[laby::laby] pub(self) fn c(n: u8) -> u8 { n } pub mod i { pub fn h() -> u8 { super::c!(n = 1) } }\n"
     "#[laby::laby] pub(in self) fn d(n: u8) -> u8 { n + 1 } pub fn g() -> u8 { c!(n = 2) + d!(n = 2) } }",
     "let s = format!(\"{}{}\", uc::g(), uc::i::h());", [], "51"),
    ("mod ud { pub mod b { #[laby::laby] pub(crate) fn c(n: u8) -> u8 { n } #[laby::laby] pub(in crate) fn d(n: u8) -> u8 { n + 1 }\n"
     "#[laby::laby] pub fn e(n: u8) -> u8 { n + 2 } } pub(crate) use b::e; pub(crate) use b::{c, d}; }",
     "use ud::{c, d as d2}; let s = format!(\"{}{}{}{}{}\", c!(n = 2), d2!(n = 2), ud::e!(n = 2), ud::b::c!(n = 5), ud::b::d!(n = 5));",
     [], "23456"),
]

DECL = "#![feature(decl_macro)]\n"


def run(chk):
    k = 4 if chk.thorough else 1
    small = good(calls_of(chk, 3, 3))
    big = good(calls_of(chk, 6, 8, sim=5000 * k, seed=1))
    chk.notes["calls"] = {"all_up_to_3_params_3_args": len(small), "larger_sampled": len(big)}
    r = random.Random(chk.seed)
    pick = small + r.sample(big, min(len(big), 600 * k))
    near = [case_of(i, chk.seed * 100000 + i, c, small, decl="near") for i, c in enumerate(pick)]
    lib = []
    far = [case_of(10000 + i, chk.seed * 100000 + 50000 + i, c, small, decl="far", lib=lib)
           for i, c in enumerate(r.sample(pick, min(len(pick), 700 * k)))]
    rt = build_rt("decl")
    # a crate of public components, used from other crates
    d = scratch("p21lib")
    src = os.path.join(d, "comps.rs")
    with open(src, "w") as f:
        f.write(DECL + HEAD + "\n".join(lib) + "\n")
    out = os.path.join(d, "libcomps.rlib")
    ok, diags = rustc(src, out, rt, extra=("--crate-type", "rlib"))
    if not ok:
        chk.violation("public components do not compile", {
            "errors": [(x["message"], lines_of(x)) for x in diags if x.get("level") == "error"][:10], "source": lib[:3]})
    what = "a parameter is bound to the wrong argument (decl_macro)"
    judge(chk, "p21", near + direct(DIRECT + BYPATH), "call", profiles=("decl",), label=what, head=DECL + HEAD)
    if ok:
        judge(chk, "p21f", far, "call", profiles=("decl",), label=what, head=DECL + HEAD,
              extra=("--extern", "comps=" + out))
    chk.assumptions = ["the nightly toolchain of this sandbox, with a newer proc-macro2 than the repository's lock file names",
                       "the order in which different arguments are evaluated is left open"]
