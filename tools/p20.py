"""P20: user names never clash with generated code."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

NAMES20 = ("t1 t2 t3 t10 T1 T2 T3 buffer buf frag value render x call tag node name div p class classes bool str laby "
           "core std alloc iter raw disp expr del args rest this i e f String Render Buffer variant_1 html enabled "
           "attr r#type r#match element children item arg func Default Option Into IntoIterator Self_ doc vis sig "
           "macro_ k v n m default push_str").split()
FUNC_ONLY = "Some None Ok Err".split()
KINDS = "local param pat arm iflet closure func tparam type cparam loop shadow".split()
POS = ("child children val void name nameid flag frag classes ifcond ifbody scrut armbody guard render1 render2 iter "
       "iterd itermap raw disp comp rest block fn closure let").split()
STR = "::core::primitive::str"


# every construct once, with enough of each part to see how generated names are counted
SAMPLE = """
#[laby] fn sa(zz1: impl Render, #[default(1)] zz2: u8, #[rest] zz3: impl Render, zz4: &'static str) -> impl Render { div!(zz1, zz2, zz3, zz4) }
#[laby] fn sb<Zq: Render>(zz1: Zq) -> impl Render { p!(zz1) }
#[laby] fn sc() -> impl Render { br!() }
fn main() {
    let zz = pass(1);
    let _ = div!(pass(1), pass(2), zz, id = pass(3), pass(4) = pass(5), a = bool!(zz > 0), pass(6) = bool!(zz > 0), "t", p!(pass(8), input!(v = pass(9))));
    let _ = frag!(pass(1), pass(2), zz);
    let _ = classes!(pass(1), pass(2), zz);
    let _ = frag_match!(if zz > 1 { p!(zz) } else if zz > 2 { 2 } else if let Some(_) = Some(zz) { "3" } else { pass(4) });
    let _ = frag_match!(match zz { 1 => p!(zz), 2 | 3 if zz > 0 => "2", _ => pass(4) });
    let _ = render!(pass(1));
    let _ = render!(pass(1), "x", p!(zz));
    let _ = iter!([1, 2]).render(&mut internal::Buffer::new());
    let _ = iter!(", ", [1, 2]).render(&mut internal::Buffer::new());
    let _ = render!(raw!("x"), disp!(zz), html!(pass(1)), sa!(pass(1), zz1 = pass(2), pass(3), zz4 = ""), sb!(zz1 = 3), sc!());
}
"""
KEYWORDS = set(("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move "
                "mut pub ref return self Self static struct super trait true type unsafe use where while union macro_rules "
                "abstract become box do final macro override priv try typeof unsized virtual yield gen").split())


def generated(chk):
    """Identifiers the macros of this tree put into the programs they expand to."""
    d = scratch("p20x")
    src, out = os.path.join(d, "sample.rs"), os.path.join(d, "sample.out")
    open(src, "w").write("#![allow(unused)]\nuse laby::*; use verifrt::probe::pass;\n" + SAMPLE)
    ok, _ = rustc(src, out, build_rt("debug"), extra=["-Zunpretty=expanded"], env={"RUSTC_BOOTSTRAP": "1"})
    if not ok or not os.path.exists(out):
        return []
    text = re.sub(r'"(\\.|[^"\\])*"|//[^\n]*|r#', " ", open(out).read())
    own = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", SAMPLE))
    got = set()
    for m in re.finditer(r"(\.|::|')?\s*\b([A-Za-z_][A-Za-z0-9_]*)\b(!?)(\s*::)?", text):
        n = m.group(2)
        if m.group(1) or m.group(3) or m.group(4) or n.startswith("_") or n in KEYWORDS or n in own or n in FUNC_ONLY:
            continue
        got.add(n)
    # those a program may use at all, outside of any template
    got = sorted(got)
    src = os.path.join(d, "usable.rs")
    lines = ["fn u%d(%s: u8) { let %s = 1; let (%s, _) = (%s, 2); match 1 { %s => () } } fn v%d<%s: Tn>() { fn %s() {} } "
             "fn w%d() { struct %s {} }" % ((i,) + (n,) * 5 + (i, n, n, i, n)) for i, n in enumerate(got)]
    open(src, "w").write(HEAD + "fn main() {}\n" + "\n".join(lines) + "\n")
    ok, diags = rustc(src, os.path.join(d, "usable"), build_rt("debug"))
    base = HEAD.count("\n") + 2
    bad = {l - base for g in diags if g.get("level") == "error" for l in lines_of(g)}
    return [n for i, n in enumerate(got) if i not in bad]


def use(u):
    n = u["n"]
    return {"func": n + "()", "tparam": "tn::<%s>()" % n, "type": "<%s as Tn>::T" % n}.get(u["kind"], n)


class Build:
    def __init__(self, no, c, rng):
        self.no = no
        self.c = c
        self.r = rng
        self.text = {c["a"]["n"]: "type<a>" if c["a"]["kind"] == "tparam" else "va<%d" % no,
                     c["b"]["n"]: "type<b>" if c["b"]["kind"] == "tparam" else "vb&%d" % no}
        self.items = []

    def leaf(self, u, raw=False, form="%s"):
        return {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": raw, "src": form % use(u), "t": enc(self.text[u["n"]])}

    def test(self, u):
        return "%s == %s" % (use(u), rstr(self.text[u["n"]]))

    def position(self, p, x, u, w):
        """x: the markup inside; u, w: the two uses."""
        y = self.leaf(u)
        s = Src()
        tag = self.r.choice(NORMAL)
        if p == "child":
            return el(tag, x)
        if p == "children":
            return el(tag, x, lf("|", "lit"), y, self.leaf(w))
        if p == "val":
            return el(tag, at("href", x), at(self.r.choice(["title", "t1", "buffer", "value"]), y))
        if p == "void":
            return el(self.r.choice(VOID), at("alt", x), at("t2", y))
        if p == "name":
            return el(tag, {"k": "attr", "name": self.leaf(u, form="pass(%s)"), "flag": "no", "id": 0, "b": False, "val": x},
                      self.leaf(w))
        if p == "nameid":
            a = at("x", x)
            a["name"] = {"k": "id", "src": u["n"], "s": u["n"].replace("r#", "")}
            return el(tag, a, y)
        if p == "flag":
            return el(tag, {"k": "attr", "name": {"k": "id", "s": u["n"].replace("r#", ""), "src": u["n"]}, "flag": "dyn", "id": 0,
                            "b": True, "src": self.test(u), "val": {"k": "none"}},
                      {"k": "attr", "name": self.leaf(w, form="pass(%s)"), "flag": "dyn", "id": 0, "b": False,
                       "src": "!(%s)" % self.test(u), "val": {"k": "none"}}, x)
        if p == "frag":
            return {"k": "frag", "items": [x, y]}
        if p == "classes":
            return {"k": "classes", "items": [x, y, self.leaf(w)]}
        if p in ("ifcond", "ifbody"):
            c = self.test(u) if p == "ifcond" else "1 < 2"
            n = {"k": "if", "conds": [{"id": 0, "b": True, "form": "b"}], "arms": [x, y]}
            n["code"] = "frag_match!(if %s { %s } else { %s })" % (c, s.node(x), s.node(y))
            return n
        if p in ("scrut", "armbody", "guard"):
            n = {"k": "match", "id": 0, "v": 1, "form": "int", "arms": [
                {"any": False, "pats": [1], "gid": 0, "gb": True, "x": x}, {"any": True, "pats": [], "gid": 0, "gb": True, "x": y}]}
            if p == "guard":
                n["arms"][0], n["arms"][1] = dict(n["arms"][0], any=True, pats=[]), n["arms"][1]
            head = {"scrut": ("match %s" % use(u), rstr(self.text[u["n"]]), "_"), "armbody": ("match 1", "1", "_"),
                    "guard": ("match 1", "_ if %s" % self.test(u), "_")}[p]
            n["code"] = "frag_match!(%s { %s => %s, %s => %s })" % (head[0], head[1], s.node(x), head[2], s.node(y))
            return n
        if p == "render1":
            return {"k": "wrap", "w": "", "x": x, "code": "raw!(render!(%s))" % s.node(x)}
        if p == "render2":
            f = {"k": "frag", "items": [x, y, self.leaf(w)]}
            return dict(f, code="raw!(render!(%s))" % s.items(f))
        if p == "iter":
            return {"k": "list", "sep": "", "items": [x], "code": "iter!(::core::iter::once(%s))" % s.node(x)}
        if p == "iterd":
            l = {"k": "list", "sep": enc(self.text[u["n"]]), "items": [self.leaf(w), self.leaf(u), self.leaf(w)]}
            l["code"] = "iter!(%s, [%s, %s, %s])" % (use(u), use(w), use(u), use(w))
            return {"k": "frag", "items": [l, x]}
        if p == "itermap":
            l = {"k": "list", "sep": "", "items": [el("li", y), el("li", y)]}
            l["code"] = "iter!([1, 2].map(|_| %s))" % s.node(el("li", y))
            return {"k": "frag", "items": [l, x]}
        if p == "raw":
            return {"k": "frag", "items": [self.leaf(u, True, "raw!(%s)"), x]}
        if p == "disp":
            return {"k": "frag", "items": [self.leaf(u, False, "disp!(%s)"), x]}
        if p == "comp":
            # a component whose parameters have the names in use
            f = "k20_%d_%d" % (self.no, len(self.items))
            self.items.append("#[laby] fn %s(%s: impl Render, %s: impl Render) -> impl Render { div!(%s, %s) }"
                              % (f, u["n"], w["n"], u["n"], w["n"]))
            n = el("div", y, x)
            n["code"] = "%s!(%s = %s, %s = %s)" % (f, w["n"], s.node(x), u["n"], s.node(y))
            if self.r.random() < 0.5:
                n["code"] = "%s!(%s = %s, %s = %s)" % (f, u["n"], s.node(y), w["n"], s.node(x))
            return n
        if p == "rest":
            f = "k20_%d_%d" % (self.no, len(self.items))
            self.items.append("#[laby] fn %s(%s: &'static str, #[rest] %s: impl Render, #[default(\"d\")] dd: &'static str) "
                              "-> impl Render { p!(%s, %s, dd) }" % (f, u["n"], w["n"], u["n"], w["n"]))
            n = el("p", y, x, self.leaf(w), lf("d", "lit"))
            n["code"] = "%s!(%s, %s = %s, %s)" % (f, s.node(x), u["n"], use(u), use(w))
            return n
        if p == "block":
            return {"k": "frag", "items": [x, y], "code": "{ let z = frag!(%s, %s); z }" % (s.node(x), s.node(y))}
        if p == "fn":
            return {"k": "wrap", "w": "fn", "x": x}
        if p == "closure":
            return {"k": "frag", "items": [x, y], "code": "(|| frag!(%s, %s))()" % (s.node(x), s.node(y))}
        if p == "let":
            return {"k": "wrap", "w": "letin", "x": x} if "y" not in self.text else x
        raise ToolError(p)

    def case(self):
        a, b = self.c["a"], self.c["b"]
        x = self.leaf(a)
        st = self.c["stack"]
        for j, p in enumerate(reversed(st)):
            u, w = ((b, a), (a, b))[j % 2] if self.r.random() < 0.5 else ((a, b), (b, a))[j % 2]
            x = self.position(p, x, u, w)
        s = Src()
        code = s.node(x)
        params, gens, gargs, args, named, inner, comp = [], [], [], [], [], [], False
        uses = [a] if a["n"] == b["n"] else [a, b]
        out = code
        for u in uses:
            n, t, k = u["n"], rstr(self.text[u["n"]]), u["kind"]
            if k == "local":
                inner.append("let %s = %s;" % (n, t))
            elif k == "shadow":
                inner.append("let %s = 5; let %s = if %s == 5 { %s } else { \"\" };" % (n, n, n, t))
            elif k == "pat":
                inner.append("let (%s, [_, ..]) = (%s, [1, 2]);" % (n, t))
            elif k == "func":
                inner.append("fn %s() -> &'static %s { %s }" % (n, STR, t))
            elif k == "type":
                inner.append("struct %s {} impl Tn for %s { const T: &'static %s = %s; }" % (n, n, STR, t))
            elif k in ("param", "cparam"):
                params.append("%s: &'static %s" % (n, STR))
                args.append(t)
                named.append("%s = %s" % (n, t))
                comp = comp or k == "cparam"
            elif k == "tparam":
                gens.append("%s: Tn" % n)
                gargs.append("verifrt::probe::Name" + ("A" if u is a else "B"))
            elif k == "arm":
                out = "frag_match!(match %s { %s => %s })" % (t, n, out)
            elif k == "iflet":
                out = "frag_match!(if let ::core::option::Option::Some(%s) = ::core::option::Option::Some(%s) { %s })" % (n, t, out)
            elif k == "closure":
                out = "(|%s: &'static %s| raw!(render!(%s)))(%s)" % (n, STR, out, t)
            elif k == "loop":
                out = "raw!({ let mut all = ::std::string::String::new(); for %s in [%s] { all += &render!(%s); } all })" % (n, t, out)
        form = self.r.choice(["render!(%s)", "render!(%s)", "render!(%s,)", "render!(\"\", %s)", "{ let q = %s; render!(q) }"])
        if gens and comp:
            comp = False
        f = "q20_%d" % self.no
        fn = "%sfn %s%s(%s) -> ::std::string::String { %s %s }" % (
            "#[laby] " if comp else "", f, "<%s>" % ", ".join(gens) if gens else "", ", ".join(params),
            " ".join(inner), form % out)
        self.r.shuffle(named)
        call = "%s!(%s)" % (f, ", ".join(named)) if comp else \
            "%s%s(%s)" % (f, "::<%s>" % ", ".join(gargs) if gargs else "", ", ".join(args))
        return Case({"lets": [], "root": x}, "take", body="let s = %s;\n_rt.take(s);" % call,
                    items="\n".join(self.items + [fn]))


def usable(c):
    """Uses Rust itself has no room for."""
    ns = {c["a"]["n"], c["b"]["n"]}
    for u in (c["a"], c["b"]):
        if u["n"] in FUNC_ONLY and u["kind"] != "func":
            return False
    st = c["stack"]
    if ns & set(FUNC_ONLY) and set(st) & {"comp", "rest", "nameid", "flag"}:
        return False              # no parameter can have that name
    if len(ns) == 1 and set(st) & {"comp", "rest"}:
        return False              # one name for two parameters
    if st.count("itermap") + st.count("iterd") > 2:
        return False
    return True


def run(chk):
    k = 5 if chk.thorough else 1
    cfg = ("INIT Init\nNEXT Next\nCONSTANT UserNames = %s\nCONSTANT Kinds = %s\nCONSTANT Positions = %s\n"
           "CONSTANT MaxDepth = %d\nCONSTANT Careless = %s\nINVARIANT Clean %s\n")
    mined = generated(chk)
    r = random.Random(chk.seed + 5)
    mined = sorted(r.sample(mined, 60) if len(mined) > 60 else mined)
    names = NAMES20 + FUNC_ONLY
    names += [n for n in mined if n not in names and "r#" + n not in names]
    chk.log("generated code mentions %s" % " ".join(mined))
    few = "t1 buffer value buf frag tag"
    # the meaning of names along every stack of positions; a careless generator is caught
    chk.count(tlc("Names", cfg % (tset(few), tset("local tparam"), tset(" ".join(POS)), 2 + (k > 1), "FALSE", ""), heap="8g"))
    t = tlc("Names", cfg % (tset(few), tset("local"), tset(" ".join(POS)), 2, "TRUE", ""), ok=None)
    if "Invariant Clean is violated" not in t.text:
        raise ToolError("the specification does not notice a careless generator")
    t = tlc("Names", cfg % (tset(" ".join(names)), tset(" ".join(KINDS)), tset(" ".join(POS)), 3, "FALSE", "Emit"),
            sim=3000 * k, depth=6, seed=chk.seed * 1000 + 1, workers=1)
    chk.count(t)
    got = [c for c in (json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})) if usable(c)]
    r = random.Random(chk.seed)
    r.shuffle(got)
    # every name in every kind of binding, every name in every position, every kind in every position
    pick, seen = [], set()
    for c in got:
        new = {(u["n"], u["kind"]) for u in (c["a"], c["b"])} | {(u["n"], p) for u in (c["a"], c["b"]) for p in c["stack"]} \
            | {(u["kind"], p) for u in (c["a"], c["b"]) for p in c["stack"]}
        if len(new - seen) >= (2 if k == 1 else 1):
            pick.append(c)
            seen |= new
    pick += r.sample(got, min(len(got), 1500 * k))
    chk.notes["names"] = {"uses": len(got), "run": len(pick), "pairs_covered": len(seen), "names": len(names),
                          "found_in_expansions": mined}
    chk.log("%d uses, %d pairs covered" % (len(pick), len(seen)))
    cases = [Build(i, c, random.Random(chk.seed * 100000 + i)).case() for i, c in enumerate(pick)]
    judge(chk, "p20", cases, "text", label="a user's name means something else inside a template")
    chk.assumptions = ["names of constants, statics and unit or tuple structs are not covered: Rust matches them in patterns"]
