"""P22: leaving a template early behaves as in ordinary code."""
from vlib import *
from rustgen import *
from p05 import lf, el, at
from p17 import div

# around the body: (items, statements); $B the body, which ends by falling through
KINDS22 = {
    "fn": ("fn b_$N(_rt: &mut Rt) -> Result<(), u32> { $B Ok(()) }", "if let Err(i) = b_$N(_rt) { why(i); left() }"),
    "opt": ("fn b_$N(_rt: &mut Rt) -> Option<()> { $B Some(()) }", "if b_$N(_rt).is_none() { left() }"),
    "unit": ("fn b_$N(_rt: &mut Rt, fin: &mut bool) { $B *fin = true; }", "let mut fin = false; b_$N(_rt, &mut fin); if !fin { left() }"),
    "string": ("fn b_$N(_rt: &mut Rt, fin: &mut bool) -> String { $B *fin = true; String::new() }",
               "let mut fin = false; let _ = b_$N(_rt, &mut fin); if !fin { left() }"),
    "method": ("struct S$N; impl S$N { fn go<'a>(&self, _rt: &'a mut Rt) -> Result<&'a str, Box<dyn std::error::Error>> { $B Ok(\"\") } }",
               "if let Err(e) = S$N.go(_rt) { why(e.to_string().parse().unwrap()); left() }"),
    "closure": ("", "let r = (|| -> Result<(), u32> { $B Ok(()) })(); if let Err(i) = r { why(i); left() }"),
    "block": ("", "let r: Result<(), u32> = 'out: { $B Ok(()) }; if let Err(i) = r { why(i); left() }"),
    "loop": ("", "let r: Result<(), u32> = 'out: loop { $B break 'out Ok(()) }; if let Err(i) = r { why(i); left() }"),
    "for": ("", "let mut fin = false; 'out: for n in 0..2 { if n == 1 { break } $B fin = true; break } if !fin { left() }"),
    "while": ("", "let mut fin = false; let mut n = 0; 'out: while n < 1 { n += 1; { $B fin = true; } } if !fin { left() }"),
    "nested": ("", "let mut fin = false; 'out: for _ in 0..1 { 'in_: loop { $B fin = true; break } } if !fin { left() }"),
    "async": ("", "let r = drive(async { $B Ok::<(), u32>(()) }); match r { None => left(), Some(Err(i)) => { why(i); left() } Some(Ok(())) => {} }"),
    "asyncfn": ("async fn b_$N(_rt: &mut Rt) -> Option<()> { $B Some(()) }", "if drive(b_$N(_rt)).flatten().is_none() { left() }"),
    "asyncmove": ("", "let r = drive(async move { let one = async { $B Ok::<(), u32>(()) }; soon(1, ()).await; one.await }); "
                  "match r { None => left(), Some(Err(i)) => { why(i); left() } Some(Ok(())) => {} }"),
}
RES = ["if pass(true) { $S; return Err($I) } else { never::<$T>() }", "{ $S; Err::<$T, u32>($I)? }", "{ $S; Err::<$T, u32>($I) }?",
       "match Err::<$T, u32>($I) { Ok(x) => x, Err(i) => { $S; return Err(i) } }", "Err::<$T, u32>({ $S; $I })?",
       "({ $S; return Err($I); never::<$T>() })", "Ok::<$T, u32>({ $S; Err::<$T, u32>($I)? })?"]
OPT = ["{ $S; gone::<$T>($I)? }", "if pass(true) { $S; why($I); return None } else { never::<$T>() }", "gone::<$T>({ $S; $I })?",
       "match pass(Some(3)) { None => never::<$T>(), Some(_) => { $S; why($I); return None } }"]
BRK = ["if pass(true) { $S; break 'out Err($I) } else { never::<$T>() }", "({ $S; break 'out Err($I); never::<$T>() })",
       "match Err::<$T, u32>($I) { Ok(x) => x, Err(i) => { $S; break 'out Err(i) } }"]
GO = "if pass(true) { $S; why($I); %s } else { never::<$T>() }"
HANG = ["{ $S; hang::<$T>($I).await }", "hang::<$T>({ $S; $I }).await", "{ soon(2, ()).await; $S; hang::<Option<$T>>($I).await.unwrap() }"]
LEAVES = {
    "fn": RES, "opt": OPT, "unit": [GO % "return", GO % "return ()"],
    "string": [GO % "return String::new()", GO % 'return "early".into()', GO % 'return render!(p!("early"))', GO % 'return render!("ear", "ly")'],
    "method": ["{ $S; Err::<$T, String>($I.to_string())? }", "{ $S; \"no$I\".parse::<u8>().map(|_| never::<$T>()).or(Err(\"$I\"))? }",
               "if pass(true) { $S; return Err(\"$I\".into()) } else { never::<$T>() }"],
    "closure": RES, "block": BRK, "loop": BRK + ["if pass(true) { $S; break Err($I) } else { never::<$T>() }"],
    "for": [GO % "continue", GO % "break", GO % "continue 'out", GO % "break 'out"],
    "while": [GO % "continue", GO % "break", GO % "continue 'out"], "nested": [GO % "continue 'out", GO % "break 'out", GO % "break 'in_"],
    "async": RES + HANG, "asyncfn": OPT + HANG, "asyncmove": RES + HANG,
}
# ways for an expression not to leave
STAY = {"*": ["$E", "$E", "match pass(Some(())) { Some(()) => $E, None => loop {} }", "loop { break $E }", "'q: { if pass(true) { break 'q $E } loop {} }"],
        "res": ["Ok::<_, u32>($E)?", "{ let v = Ok::<_, u32>($E); v? }", "if pass(false) { return Err(999) } else { $E }", "(Ok::<_, u32>(Some($E))?).unwrap()"],
        "opt": ["Some($E)?", "if pass(false) { return None } else { $E }", "Some(Some($E))??"],
        "box": ["Ok::<_, String>($E)?", "if pass(false) { return Err(\"no\".into()) } else { $E }"],
        "loop": ["if pass(false) { break 'out Err(999) } else { $E }"], "go": ["if pass(false) { break } else { $E }", "if pass(false) { continue } else { $E }"],
        "async": ["soon(0, $E).await", "soon(3, $E).await", "async { $E }.await", "{ let f = soon(1, $E); soon(2, ()).await; f.await }"]}
KIND_OF = {"fn": ["res"], "opt": ["opt"], "unit": [], "string": [], "method": ["box"], "closure": ["res"], "block": ["loop"], "loop": ["loop"], "for": ["go"],
           "while": ["go"], "nested": ["go"], "async": ["res", "async", "async"], "asyncfn": ["opt", "async", "async"], "asyncmove": ["res", "async"]}
TYPES22 = ["&'static str", "String", "Option<u8>", "Held<&'static str>", "()", "char", "u64"]


class S22(Src):
    def __init__(self, kind, rng):
        Src.__init__(self)
        self.kind = kind
        self.r = rng

    def leave(self, step, i, ty):
        return self.r.choice(LEAVES[self.kind]).replace("$S", step).replace("$I", str(i)).replace("$T", ty)

    def stay(self, e):
        ways = STAY["*"] + [w for k in KIND_OF[self.kind] for w in STAY[k] * 2]
        return self.r.choice(ways).replace("$E", e)

    def leaf(self, n):
        s = Src.leaf(self, n)
        return self.stay(s) if n["how"] in ("ev", "ex", "held", "rawev") else s

    def node(self, n):
        if n["k"] == "cfail":
            e = self.leave("note(%d)" % n["id"], n["id"], self.r.choice(TYPES22))
            w = self.r.random()
            return "raw!(%s)" % self.leave("note(%d)" % n["id"], n["id"], "String") if w < 0.1 else \
                "iter!(%s)" % self.leave("note(%d)" % n["id"], n["id"], "[u8; 2]") if w < 0.2 else \
                "iter!(\", \", %s)" % self.leave("note(%d)" % n["id"], n["id"], "Vec<String>") if w < 0.25 else \
                "Some(%s)" % e if w < 0.35 and not e.startswith("{ ") else "(%s)" % e if w < 0.45 else e
        return Src.node(self, n)

    def item(self, x):
        if x["k"] == "attr" and x["flag"] == "dyn" and x.get("leave"):
            name = x["name"]["src"] if x["name"]["k"] == "id" else self.name(x["name"])
            return "%s = bool!(%s)" % (name, self.leave("note(%d)" % x["id"], x["id"], "bool"))
        if x["k"] == "attr" and x["flag"] == "dyn" and x["id"]:
            name = x["name"]["src"] if x["name"]["k"] == "id" else self.name(x["name"])
            return "%s = bool!(%s)" % (name, self.stay(x["src"]))
        return Src.item(self, x)

    def cond(self, c):
        if not c.get("leave"):
            return Src.cond(self, c)
        step = "cond(%d, true)" % c["id"]
        if self.r.random() < 0.3:
            return "let Some(_) = (%s)" % self.leave(step, c["id"], "Option<u8>")
        return "(%s)" % self.leave(step, c["id"], "bool") if self.r.random() < 0.5 else "{ %s }" % self.leave(step, c["id"], "bool")

    def match(self, n):
        if n.get("leave"):
            n = dict(n, form="int")
            s = Src.match(self, n)
            return s.replace("match ex(%d, %d) {" % (n["id"], n["v"]), "match (%s) {" % self.leave("note(%d)" % n["id"], n["id"], "i32"), 1)
        s = Src.match(self, n)
        for a in n["arms"]:
            if a.get("leave") and a["gid"]:
                s = s.replace("cond(%d, %s)" % (a["gid"], "true" if a["gb"] else "false"),
                              "(%s)" % self.leave("cond(%d, true)" % a["gid"], a["gid"], "bool"), 1)
        return s

    def wrap(self, w, x):
        if w == "closure":
            w = "letin"
        if w.startswith("call"):
            return CALLS[w] % self.node(x)
        return Src.wrap(self, w, x)


CALLS = {"call": "comp!(x = %s)", "callrest": "comprest!(%s)", "calldef": "compdef!(x = %s)", "callcls": "compcls!(%s)",
         "callmix": "compmix!(%s, a = (), x = ())", "callmiy": "compmix!((), x = %s)", "callkey": "compkey!(r#type = %s)"}
COMPS = """
#[laby] fn comp(x: impl Render) -> impl Render { div!(x) }
#[laby] fn comprest(#[rest] x: impl Render) -> impl Render { div!(x) }
#[laby] fn compdef(#[default("none")] x: impl Render) -> impl Render { div!(x) }
fn same<T>(x: T) -> T { x }
#[laby] fn compcls(#[rest(same)] x: impl Render) -> impl Render { div!(x) }
#[laby] fn compmix(#[default] a: (), x: impl Render, #[rest] r: impl Render) -> impl Render { div!(a, x, r) }
#[laby] fn compkey<T: Render>(#[default(())] z: (), r#type: T) -> impl Render { div!(r#type) }
"""
ITEMS = COMPS + """
use verifrt::probe::{why, left, gone, never, soon, hang, drive, Held};
"""


def calls(n, rng, p, top=True):
    """Some markup goes through components."""
    k = n["k"]
    if k in ("el", "frag", "classes"):
        n["items"] = [calls(x, rng, p, False) for x in n["items"]]
    elif k == "attr":
        if n["flag"] == "no":
            n["val"] = calls(n["val"], rng, p, False)
        return n
    elif k in ("wrap", "do"):
        n["x"] = calls(n["x"], rng, p, False)
    elif k == "if":
        n["arms"] = [calls(x, rng, p, False) for x in n["arms"]]
    elif k == "match":
        for x in n["arms"]:
            x["x"] = calls(x["x"], rng, p, False)
    if not top and k in ("el", "leaf", "cfail", "frag") and rng.random() < p:
        return {"k": "wrap", "w": rng.choice(sorted(CALLS)), "x": n}
    return n


def everywhere():
    """Leaving from every position, between values whose drop is seen."""
    cf = lambda: {"k": "cfail", "id": 1}
    hl = lambda: {"k": "leaf", "how": "held", "id": 1, "r": True, "raw": False, "t": ""}
    flag = lambda name: {"k": "attr", "name": name, "flag": "dyn", "id": 1, "b": True, "leave": True, "val": {"k": "none"}}
    ident = {"k": "id", "src": "hidden", "s": "hidden"}
    dynname = lambda: {"k": "leaf", "how": "ev", "id": 1, "r": True, "raw": False, "t": ""}
    co = lambda leave: {"id": 1, "b": True, "leave": leave}
    arm = lambda any_, leave, x: {"any": any_, "pats": [1], "gid": 0 if any_ else 1, "gb": True, "leave": leave, "x": x}
    q = [cf(), el("p", hl(), cf(), hl()), el("a", at("href", cf()), hl()), el("a", at("id", hl()), hl(), at("href", cf())),
         el("input", at("a", hl()), flag(ident), at("b", hl())), el("p", hl(), flag(dynname()), hl()),
         {"k": "frag", "items": [hl(), cf(), hl()]}, {"k": "classes", "items": [hl(), cf(), hl()]},
         el("p", at("class", {"k": "classes", "items": [hl(), cf(), hl()]}), hl()), el("p", hl(), el("b", hl(), el("i", cf()), hl())),
         {"k": "if", "conds": [co(False)], "arms": [el("p", hl(), cf()), hl()]}, el("p", hl(), {"k": "if", "conds": [co(True)], "arms": [hl(), hl()]}),
         {"k": "if", "conds": [dict(co(False), b=False), co(True)], "arms": [hl(), cf(), hl()]},
         {"k": "if", "conds": [co(False)], "arms": [cf(), hl()]}, {"k": "if", "conds": [dict(co(False), b=False)], "arms": [hl(), cf()]},
         {"k": "if", "conds": [dict(co(False), b=False)], "arms": [cf()]}, {"k": "if", "conds": [co(False)], "arms": [cf()]},
         {"k": "match", "id": 1, "v": 1, "leave": True, "arms": [arm(False, False, hl()), arm(True, False, hl())]},
         {"k": "match", "id": 1, "v": 1, "arms": [arm(False, True, hl()), arm(True, False, hl())]},
         {"k": "match", "id": 1, "v": 1, "arms": [arm(False, False, cf()), arm(True, False, hl())]},
         {"k": "match", "id": 1, "v": 2, "arms": [arm(False, False, cf()), arm(True, False, hl())]},
         el("p", hl(), {"k": "match", "id": 1, "v": 2, "arms": [arm(False, False, hl()), dict(arm(True, False, el("b", hl(), cf())), gid=0)]}),
         
         el("p", hl(), {"k": "wrap", "w": "some", "x": cf()}), {"k": "do", "id": 1, "x": el("p", cf())}]
    q += [el("p", hl(), {"k": "wrap", "w": w, "x": x}, hl()) for w in sorted(CALLS) for x in (cf(), el("i", hl(), cf()))]
    out = [{"lets": [], "root": x} for x in q]
    out += [{"lets": [hl(), el("p", hl(), cf())], "root": el("p", {"k": "var", "v": 1}, {"k": "var", "v": 2})},
            {"lets": [el("p", hl())], "root": el("p", {"k": "var", "v": 1}, cf(), hl())}]
    return out


def run(chk):
    k = 4 if chk.thorough else 1
    a = trees(chk, "lit held cfail", "se sx sL eL", "el frag lif lmatch", "el lif", "flat", 4, 3, cap=1200 * k, seed=1)
    b = trees(chk, "lit held ev cfail held", "se sx ee sf eL", "el void frag classes if match lif lmatch", "el frag classes if match lif lmatch",
              "flat wrap let do", 14, 5, sim=1500 * k, cap=900 * k, seed=2)
    c = trees(chk, "lit held ev ex none rawev", "se ee st sf et ef", "el void frag classes if match", "el frag classes if match", "flat wrap let do",
              14, 5, sim=700 * k, cap=400 * k, seed=3)
    rng = random.Random(chk.seed)
    ks = sorted(KINDS22)
    cases = []
    todo = [(t, kd) for t in everywhere() for kd in ks] + [(t, None) for t in a + b + c]
    for i, (t, kind) in enumerate(todo):
        kind = kind or ks[i % len(ks)]
        nm = Namer(chk.seed * 100000 + i)
        t = nm.tree(t)
        t["lets"] = [calls(x, rng, 0.1) for x in t["lets"]]
        t["root"] = calls(t["root"], rng, 0.1)
        if i % 3 == 2 and t["root"]["k"] != "frag" and rng.random() < 0.5:
            t["root"] = {"k": "frag", "items": [t["root"], lf("k", "lit")]}
        case = Case(div(t), ("sep", "sep", "take")[i % 3], meta={"held": nm.held})
        s = S22(kind, rng)
        body = ["let v%d = %s;" % (j + 1, s.node(x)) for j, x in enumerate(t["lets"])]
        many = case.kind == "take" and t["root"]["k"] == "frag" and len(t["root"]["items"]) > 1
        m = s.items(t["root"]) if many else s.node(t["root"])
        body.append("let s = render!(%s);\n_rt.take(s);" % m if case.kind == "take" else
                    "let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();" % m)
        items, around = KINDS22[kind]
        full = "\n".join(body)
        case.items = items.replace("$N", str(i)).replace("$B", full)
        case.body = around.replace("$N", str(i)).replace("$B", full)
        cases.append(case)
    judge(chk, "p22", cases, "leave", memory=True, label="leaving a template is not what it is in ordinary code", head=HEAD + ITEMS)
    judge(chk, "p22r", cases[chk.seed % 4::4], "leave", profiles=("release",), memory=True,
          label="leaving a template is not what it is in ordinary code", head=HEAD + ITEMS)
