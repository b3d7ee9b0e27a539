"""P25: templates and expressions made through the user's macro_rules macros."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

ALLOPS = '+ - * == < && || .. ! & .up() .no() .span() (2) .n .of() as if'
CFG25 = ("INIT Init\nNEXT Next\nCONSTANT MaxNodes = %d\nCONSTANT Groups = \"%s\"\nCONSTANT Ops = %s\nCONSTANT Out = %s\nINVARIANT Kept Wellformed %s\nCHECK_DEADLOCK FALSE\n")
STRENGTH = {"||": 2, "&&": 3, "==": 4, "<": 4, "+": 6, "-": 6, "*": 7, "as": 8, "..": 1}


class Layers:
    """Macros around some text: what is substituted into a body of one is given by the next."""

    def __init__(self, tag, rng):
        self.tag, self.rng, self.at = tag, rng, {}

    def hole(self, depth, frag, text):
        k = self.at.setdefault(depth, [])
        name = "$e%d_%d" % (depth, len(k))
        k.append((name, frag, text))
        return frag[1:].replace("$x", name) if frag[0] == "*" else name

    def wrap(self, body):
        """Macros to declare, and the call that gives the body."""
        decl, call = [], body
        for d in sorted(self.at):
            name = "m%s_%d" % (self.tag, d)
            pats, args = [], []
            for n, frag, text in self.at[d]:
                if frag == "*$($x)*":
                    pats.append("{ $(%s:tt)* }" % n)
                    args.append("{ %s }" % text)
                elif frag == "*$($x),*":
                    pats.append("[ $(%s:expr),* ]" % n)
                    args.append("[ %s ]" % text)
                else:
                    pats.append("%s:%s" % (n, frag))
                    args.append(text)
            decl.append("macro_rules! %s { (%s) => { %s } }" % (name, ", ".join(pats), call))
            call = "%s!(%s)" % (name, ", ".join(args))
            w = self.rng.random()
            if w < 0.15:      # handed on once more
                decl.append("macro_rules! %sr { ($($t:tt)*) => { %s!($($t)*) } }" % (name, name))
                call = call.replace(name + "!", name + "r!", 1)
            elif w < 0.3 and all(f == "expr" for _, f, _ in self.at[d]):
                decl.append("macro_rules! %sr { ($($t:expr),*) => { %s!($($t),*) } }" % (name, name))
                call = call.replace(name + "!", name + "r!", 1)
        return "\n".join(decl), call


class Expr:
    """Rust text of an expression of the specification."""

    def __init__(self, t, layers, rng, vars=True):
        self.t, self.l, self.rng, self.vars = t, layers, rng, vars
        self.plain = "up()" not in json.dumps(t)

    def strength(self, t):
        if t["k"] == "bin" or t["k"] == "cast":
            return STRENGTH[t["o"]]
        return {"un": 9, "post": 10, "leaf": 0 if t["ty"] == "fn" else 11}.get(t["k"], 11)

    def part(self, t, need, depth, cond=False):
        if t["sub"]:
            return self.l.hole(depth, "expr", self.text(t, depth + 1, False))
        s = self.text(t, depth, cond)
        bare = cond and t["k"] == "leaf" and t["ty"] == "rec"
        return "(%s)" % s if self.strength(t) < need or bare else s

    def text(self, t, depth, cond):
        k, o, xs = t["k"], t["o"], t["xs"]
        if k == "leaf":
            v, ty = t["v"], t["ty"]
            if ty == "int":
                return self.rng.choice(["%di32" % v, "one::<%d>()" % v, "pass(%d)" % v] + ["a%d" % v] * self.vars + ["%d" % v] * 2 * self.plain)
            if ty == "bool":
                return self.rng.choice([("true", "is(3)", "yes"), ("false", "is(2)", "no")][v == 0][:2 + self.vars])
            if ty == "fn":
                return "|x: i32| x + %d" % v
            return "Rec { n: %d }" % v
        if k == "bin":
            s = STRENGTH[o]
            left = 9 if o == "<" and casts(xs[0]) else s + (o in ("..", "==", "<"))
            return "%s %s %s" % (self.part(xs[0], left, depth, cond), o, self.part(xs[1], s + 1, depth, cond))
        if k == "un":
            return o + self.part(xs[0], 9, depth, cond)
        if k == "cast":
            return "%s as i32" % self.part(xs[0], 8, depth, cond)
        if k == "post":
            return self.part(xs[0], 10, depth, cond) + o
        return "if %s { %s } else { %s }" % (self.part(xs[0], 0, depth, True), self.stmt(xs[1], depth), self.stmt(xs[2], depth))

    def stmt(self, t, depth):
        """The text where a statement may start."""
        if not t["sub"] and leads(t):
            return "(%s)" % self.text(t, depth, False)
        return self.part(t, 0, depth)

    def place(self, need=0, stmt=False, cond=False):
        return self.stmt(self.t, 0) if stmt else self.part(self.t, need, 0, cond)


def leads(t):
    x = t["xs"][0] if t["xs"] else None
    if t["k"] in ("bin", "cast"):
        return x["k"] == "if" or (not x["sub"] and leads(x))
    return t["k"] == "post" and not x["sub"] and leads(x)


def casts(t):
    """Whether the text ends with a cast."""
    return not t["sub"] and (t["k"] == "cast" or (t["k"] == "bin" and casts(t["xs"][1])))


def flag(name, b):
    return {"k": "attr", "name": {"k": "id", "s": name}, "flag": "lit", "id": 0, "b": b, "val": {"k": "none"}}


def fr(*x):
    return {"k": "frag", "items": list(x)}


def lst(sep, *x):
    return {"k": "list", "sep": enc(sep), "items": list(x)}


def dyn(name, x):
    return dict(at("x", x), name=dict(lf(name, "lit")))


def places(x, v, ty):
    """(tree, source): the expression in a place of a template."""
    p = x.place
    if ty == "int":
        t = lf(str(v), "lit")
        t2 = lf(str(v * 2), "lit")
        return {
            "child": lambda: (el("p", t), "p!(%s)" % p()), "two": lambda: (el("p", t, t2), "p!(%s, %s * 2)" % (p(), p(7))),
            "attr": lambda: (el("p", at("id", t)), "p!(id = %s)" % p()), "strattr": lambda: (el("p", dyn("id", t)), "p!(\"id\" = %s)" % p()),
            "dynattr": lambda: (el("p", dyn("k", t)), "p!({ \"k\" } = %s)" % p()), "frag": lambda: (fr(t, t), "frag!(%s, %s)" % (p(), p())),
            "classes": lambda: ({"k": "classes", "items": [t, lf("b", "lit")]}, "classes!(%s, \"b\")" % p()),
            "cond": lambda: (lf("y", "lit"), "frag_match!(if %s == %d { \"y\" } else { \"n\" })" % (p(5, cond=True), v)),
            "scrut": lambda: (lf("y", "lit"), "frag_match!(match %s { %d => \"y\", _ => \"n\" })" % (p(cond=True), v)),
            "guard": lambda: (lf("y", "lit"), "frag_match!(match 3 { 3 if %s == %d => \"y\", _ => \"n\" })" % (p(5), v)),
            "arm": lambda: (t, "frag_match!(match 3 { 3 => %s, _ => \"n\" })" % p(stmt=True)),
            "armblock": lambda: (t, "frag_match!(match 3 { 3 => { %s } _ => \"n\" })" % p(stmt=True)),
            "branch": lambda: (t, "frag_match!(if pass(true) { %s } else { \"n\" })" % p(stmt=True)),
            "else": lambda: (t, "frag_match!(if pass(false) { \"n\" } else { %s })" % p(stmt=True)),
            "block": lambda: (el("p", t), "p!({ %s })" % p(stmt=True)), "later": lambda: (el("p", t), "p!({ let q = %s; q })" % p()),
            "closure": lambda: (el("p", t), "p!((|| %s)())" % p(stmt=True)), "paren": lambda: (el("p", t), "p!((%s))" % p()),
            "array": lambda: (lst("", t, lf("7", "lit")), "iter!([%s, 7])" % p()), "sep": lambda: (lst(", ", t, t), "iter!(\", \", [%s, %s])" % (p(), p())),
            "range": lambda: (lst("", t, lf(str(v + 1), "lit")), "iter!(%s..%d)" % (p(2), v + 2)),
            "map": lambda: (lst("", el("li", t)), "iter!([0].map(|o| li!(o + %s)))" % p(7)),
            "once": lambda: (lst("", t), "iter!(Some(%s))" % p()),
            "comp": lambda: (el("div", t), "comp!(x = %s)" % p()), "rest": lambda: (el("i", at("id", t), t, t), "compr!(%s, z = %s, %s)" % (p(), p(), p())),
            "disp": lambda: (t, "disp!(%s)" % p()), "fmt": lambda: (el("p", t), "p!(format_args!(\"{}\", %s))" % p()),
            "text": lambda: (el("p", t), "p!(format!(\"{}\", %s))" % p()), "raw": lambda: (lf(str(v), "lit"), "raw!(format!(\"{}\", %s))" % p()),
            "plus": lambda: (el("p", lf(str(v + 1), "lit")), "p!(%s + 1)" % p(6)), "times": lambda: (el("p", at("id", t2)), "p!(id = 2 * %s)" % p(8)),
            "minus": lambda: (el("p", lf(str(-v), "lit")), "p!(-%s)" % p(9)), "nested": lambda: (el("p", el("b", el("i", t2))), "p!(b!(i!(%s * 2)))" % p(7)),
            "tuple": lambda: (el("p", t), "p!((%s, 3).0)" % p()), "some": lambda: (el("p", t), "p!(Some(%s))" % p()),
            "index": lambda: (el("p", t), "p!([%s][0])" % p()), "method": lambda: (el("p", t), "p!(%s.same())" % p(10)),
            "default": lambda: (el("u", t, t2), "{ #[laby] fn cdef(#[default(%s)] x: i32, #[default(%s * 2)] y: i32) -> impl Render { u!(x, y) } cdef!() }" % (p(), p(7))),
            "body": lambda: (el("u", t), "{ #[laby] fn cbody() -> impl Render { u!(%s) } cbody!() }" % p()),
        }
    t, s = lf("true" if v else "false", "lit"), lf("y" if v else "n", "lit")
    return {
        "child": lambda: (el("p", t), "p!(%s)" % p()), "attr": lambda: (el("p", at("id", t)), "p!(id = %s)" % p()),
        "flag": lambda: (el("p", *[flag("id", True)] * bool(v)), "p!(id = bool!(%s))" % p()),
        "flags": lambda: (el("p", *([flag("id", True)] if v else [flag("dir", True)])), "p!(id = bool!(%s), dir = bool!(!%s))" % (p(), p(9))),
        "strflag": lambda: (el("p", *[dict(flag("x", True), name=dict(lf("k", "lit")))] * bool(v)), "p!(\"k\" = bool!(%s))" % p()),
        "dynflag": lambda: (el("p", *[dict(flag("x", True), name=dict(lf("k", "lit")))] * bool(v)), "p!({ \"k\" } = bool!(%s))" % p()),
        "flagor": lambda: (el("p", *[flag("id", True)] * bool(v)), "p!(id = bool!(false || %s))" % p(3)),
        "flagand": lambda: (el("p", *[flag("id", True)] * bool(v)), "p!(id = bool!(%s && true), lang = bool!(%s && false))" % (p(3), p(3))),
        "cond": lambda: (s, "frag_match!(if %s { \"y\" } else { \"n\" })" % p(cond=True)),
        "notcond": lambda: (s, "frag_match!(if !%s { \"n\" } else { \"y\" })" % p(9, cond=True)),
        "andcond": lambda: (s, "frag_match!(if yes && %s { \"y\" } else { \"n\" })" % p(4, cond=True)),
        "elif": lambda: (s, "frag_match!(if no { \"z\" } else if %s { \"y\" } else { \"n\" })" % p(cond=True)),
        "guard": lambda: (s, "frag_match!(match 3 { _ if %s => \"y\", _ => \"n\" })" % p()),
        "notguard": lambda: (s, "frag_match!(match 3 { _ if !%s => \"n\", _ => \"y\" })" % p(9)),
        "scrut": lambda: (s, "frag_match!(match %s { true => \"y\", false => \"n\" })" % p(cond=True)),
        "pair": lambda: (s, "frag_match!(match (%s, 3) { (true, _) => \"y\", _ => \"n\" })" % p()),
        "arm": lambda: (t, "frag_match!(match 3 { 3 => %s, _ => \"n\" })" % p(stmt=True)), "block": lambda: (el("p", t), "p!({ %s })" % p(stmt=True)),
        "not": lambda: (el("p", lf("false" if v else "true", "lit")), "p!(!%s)" % p(9)), "comp": lambda: (el("div", t), "comp!(x = %s)" % p()),
        "rest": lambda: (el("i", at("id", lf("3", "lit")), t), "compr!(%s, z = 3)" % p()), "iter": lambda: (lst("", t, t), "iter!([%s, %s])" % (p(), p())),
    }


HEAD25 = HEAD + """
#[laby] fn comp(x: impl Render) -> impl Render { div!(x) }
#[laby] fn compr(#[rest] r: impl Render, z: i32) -> impl Render { i!(id = z, r) }
struct Rec { n: i32 }
trait Up: Sized { fn up(self) -> i32; fn same(self) -> i32; }
impl Up for i32 { fn up(self) -> i32 { self + 10 } fn same(self) -> i32 { self } }
trait No { fn no(self) -> bool; }
impl No for bool { fn no(self) -> bool { !self } }
trait Span { fn span(self) -> i32; }
impl Span for std::ops::Range<i32> { fn span(self) -> i32 { self.end - self.start } }
trait Of { fn of(self) -> i32; }
impl Of for &i32 { fn of(self) -> i32 { *self + 100 } }
fn one<const N: i32>() -> i32 { N }
fn is(n: i32) -> bool { n == 3 }
"""
PRE25 = "let (a1, a2, a3) = (pass(1), pass(2), pass(3)); let (yes, no) = (pass(true), pass(false));"
END25 = "let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();"


def expressions(chk):
    t = tlc("Subst", CFG25 % (4, "kept", tset(ALLOPS), "TRUE", "Emit"), heap="6g")
    chk.count(t)
    small = t.json_lines()
    n = 1200 if chk.thorough else 300
    t = tlc("Subst", CFG25 % (12, "kept", tset(ALLOPS), "TRUE", "Emit"), sim=n * 4, depth=40, seed=chk.seed * 1000 + 7, workers=1, timeout=800)
    chk.count(t)
    big = t.json_lines()
    t = tlc("Subst", CFG25 % (4, "ignored", tset(ALLOPS), "FALSE", ""), ok=(0, 12))
    if t.rc != 12:
        raise ToolError("no expression is told apart by its grouping")
    return small, big


def substituted(chk, rng):
    """Expressions with substituted parts, in every place."""
    small, big = expressions(chk)
    uniq = lambda xs: [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in xs})]
    small, big = uniq(small), uniq(big)
    chk.notes["expressions"] = {"small": len(small), "large": len(big), "told_apart_by_grouping": sum(not x["flat"] for x in small + big)}
    k = 4 if chk.thorough else 1
    tell = [x for x in small if not x["flat"]]
    rest = [x for x in small if x["flat"]]
    pick = rng.sample(tell, min(len(tell), 700 * k)) + rng.sample(rest, min(len(rest), 100 * k))
    tb = [x for x in big if not (x["flat"] and x["fstmt"])]
    pick += rng.sample(tb, min(len(tb), 500 * k))
    # an if that stands before an operator, only where a statement starts
    pick += [x for x in big if x["flat"] and not x["fstmt"]][:60 * k]
    cases, use = [], {}
    for i, x in enumerate(pick):
        names = sorted(places(Expr(x["tree"], Layers("x", rng), rng), x["val"], x["ty"]))
        for q in range(1 if i % 4 else 2):
            name = names[(i * 7 + q * 3) % len(names)] if x["fstmt"] or not x["flat"] else rng.choice([n for n in names if n in ("arm", "armblock", "branch", "else", "block", "closure")])
            lay = Layers("q", rng)
            tree, src = places(Expr(x["tree"], lay, rng, name not in ("default", "body")), x["val"], x["ty"])[name]()
            if max([len(v) for v in lay.at.values()] + [0]) > 12:
                continue
            decl, call = lay.wrap(src)
            use[x["ty"] + "/" + name] = use.get(x["ty"] + "/" + name, 0) + 1
            cases.append(Case({"lets": [], "root": tree}, "sep", "%s\n%s\n%s" % (PRE25, decl, END25 % call)))
    chk.notes["places"] = use
    return cases


class S25(Src):
    """A template some parts of which are given to macros."""

    def __init__(self, tag, rng, p):
        Src.__init__(self)
        self.rng, self.p, self.depth, self.l = rng, p, 0, Layers(tag, rng)

    def frag(self, s):
        c = ["expr"] * 2
        if re.fullmatch(r'-?\d\w*(\.\d+)?\w*|"([^"\\]|\\.)*"|\'([^\'\\]|\\.)\'|true|false', s):
            c += ["literal", "literal"] + ["tt"] * (s[0] != "-")
        if re.fullmatch(r"[a-z]\w*", s) and s not in ("true", "false"):
            c += ["ident", "tt", "path"]
        if s[0] in "{([" and closes(s):
            c += ["tt"]
            if s[0] == "{":
                c += ["block"]
        return self.rng.choice(c)

    def hole(self, make, frag=None):
        if self.rng.random() >= self.p:
            return make()
        self.depth += 1
        s = make()
        self.depth -= 1
        return self.l.hole(self.depth, frag or self.frag(s), s) if s and s[-1] != ";" else s

    def node(self, n):
        return self.hole(lambda: Src.node(self, n))

    def wrap(self, w, x):
        if w in ("path", "qpath"):
            # nothing but a name may follow the path
            s = Src.node(self, x)
            return "(%s)" % s if x["k"] not in ("el", "frag", "classes", "if", "match", "call") else ("::laby::" if w == "qpath" else "laby::") + s
        return Src.wrap(self, w, x)

    def cond(self, c):
        if c["form"] in ("let", "bind", "andlet"):
            return Src.cond(self, c)
        return self.hole(lambda: Src.cond(self, c), "expr")

    def items(self, n):
        if n["items"] and self.rng.random() < self.p / 2:
            self.depth += 1
            s = Src.items(self, n)
            self.depth -= 1
            only = all(x["k"] != "attr" for x in n["items"])
            return self.l.hole(self.depth, "*$($x),*" if only and self.rng.random() < 0.5 else "*$($x)*", s)
        return Src.items(self, n)

    def item(self, x):
        if x["k"] != "attr":
            return self.node(x)
        if x["name"]["k"] == "id":
            name = self.hole(lambda: x["name"]["src"], "ident" if re.fullmatch(r"(r#)?[A-Za-z_]\w*", x["name"]["src"]) and self.rng.random() < 0.7 else "tt") \
                if re.fullmatch(r"(r#)?[A-Za-z_]\w*", x["name"]["src"]) else x["name"]["src"]
        else:
            name = self.name(x["name"])
        if x["flag"] == "no":
            return "%s = %s" % (name, self.node(x["val"]))
        return "%s = bool!(%s)" % (name, self.hole(lambda: x["src"], "expr"))


def closes(s):
    """Whether the first bracket closes with the last."""
    d, i, q = 0, 0, None
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c == '"':
            q = c
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                i += len(m.group(0)) - 1
        elif c in "{([":
            d += 1
        elif c in "})]":
            d -= 1
            if d == 0:
                return i == len(s) - 1
        i += 1
    return False


def holed(chk, rng):
    """Templates of the specification whose parts go through macros."""
    k = 5 if chk.thorough else 1
    a = trees(chk, "lit ev held raw", "se sx ee st sf ex", "el void frag classes if match", "el frag classes if match", "flat wrap do", 4, 3, run=False, cap=350 * k, seed=1)
    b = trees(chk, "lit ev ex held none rawev plain plit doc", "se ee st sf et ef sx ex", "el void frag classes if match", "el frag classes if match", "flat wrap let do",
              12, 5, sim=700 * k, cap=350 * k, seed=2)
    cases = []
    for i, t in enumerate(a + b):
        t = Namer(chk.seed * 100000 + i).tree(t)
        decls, body = [], []
        for j, x in enumerate(t["lets"] + [t["root"]]):
            s = S25("t%d" % j, rng, rng.choice([0.2, 0.4, 0.7, 1.0]))
            src = s.node(x)
            decl, call = s.l.wrap(src)
            body += [decl, "let v%d = %s;" % (j + 1, call) if j < len(t["lets"]) else END25 % call]
        cases.append(Case(t, "sep", "\n".join(body)))
    return cases


def table():
    """Every kind of fragment where it may stand; (pattern, body, argument, tree)."""
    L = lambda s: lf(s, "lit")
    raw = lambda t: dict(lf(t, "lit"), raw=True)
    div, p, v = (lambda *x: el("div", *x)), (lambda *x: el("p", *x)), L("<")
    q = [
        ("$e:expr", "div!($e)", 'p!("x")', div(p(L("x")))), ("$e:expr", "div!($e)", "v", div(v)), ("$e:expr", "div!(id = $e)", '"a<b"', div(at("id", L("a<b")))),
        ("$e:expr", "div!(id = $e, hidden = bool!($e.len() == 1))", "v", div(at("id", v), flag("hidden", True))),
        ("$n:ident", 'div!($n = "x")', "id", div(at("id", L("x")))), ("$n:ident", "div!($n = bool!(v.len() == 1))", "r#type", div(flag("type", True))),
        ("$n:literal", 'div!($n = "x")', '"data-x"', div(dyn("data-x", L("x")))), ("$n:expr", 'div!($n = "x")', '"data-x"', div(dyn("data-x", L("x")))),
        ("$n:expr", 'div!({ $n } = "x")', "w", div(dyn("w", L("x")))), ("$n:ident = $e:expr", "div!($n = $e)", "id = v", div(at("id", v))),
        ("$n:block", 'div!($n = "x")', "{ w }", div(dyn("w", L("x")))), ("$n:tt", 'div!($n = bool!(true))', "{ w }", div(dict(flag("x", True), name=L("w")))),
        ("$n:literal", 'div!($n = bool!(true), "b" = bool!(false))', '"data-x"', div(dict(flag("x", True), name=L("data-x")))),
        ("$($t:tt)*", "div!($($t)*)", 'id = v, "x", p!(v)', div(at("id", v), L("x"), p(v))), ("$($e:expr),*", "div!($($e),*)", 'v, "x", p!(v)', div(v, L("x"), p(v))),
        ("$($e:expr),*", "div!($($e,)*)", "v, 1 + 1", div(v, L("2"))), ("$($e:expr),*", "div!($($e),*)", "", div()), ("$($t:tt)*", "frag!($($t)*)", "", fr()),
        ("$($n:ident = $e:expr),* ; $($c:expr),*", "div!($($n = $e,)* $($c),*)", 'id = v, class = classes!(v, "b"); p!(v), "y"',
         div(at("id", v), at("class", {"k": "classes", "items": [v, L("b")]}), p(v), L("y"))),
        ("$($n:ident),*", "div!($($n = bool!(v.len() == 1)),*)", "id, hidden", div(flag("id", True), flag("hidden", True))),
        ("$b:block", "div!($b)", "{ let q = v.len(); q }", div(L("1"))), ("$b:block", "frag_match!(if v.len() == 1 $b)", '{ "q" }', L("q")),
        ("$b:block, $c:block", "frag_match!(if v.len() == 2 $b else $c)", '{ "q" }, { 5 }', L("5")), ("$b:block", "frag_match!(match 3 { 3 => $b _ => 5 })", '{ "q" }', L("q")),
        ("$b:block", "frag_match!(match 3 { 3 => $b, _ => $b })", '{ "q" }', L("q")), ("$b:block", "frag_match!(if v.len() == 2 $b else if v.len() == 1 { 7 } else $b)", '{ "q" }', L("7")),
        ("$b:expr, $c:expr", "frag_match!(if $b { $c } else { 5 })", "v.len() == 1, p!(v)", p(v)),
        ("$p:pat => $c:expr", "frag_match!(match v.len() { $p => $c, _ => 3 })", "1 => p!(v)", p(v)), ("$p:pat", 'frag_match!(match v.len() { $p => "y", _ => 3 })', "0 | 1", L("y")),
        ("$p:pat, $e:expr", "frag_match!(match v.len() { $p => $e, _ => 3 })", "n, n + 1", L("2")), ("$p:pat, $e:expr", "frag_match!(if let $p = Some(v) { $e })", "Some(s), p!(s)", p(v)),
        ("$p:pat_param, $e:expr", "frag_match!(match Some(3) { $p | Some(_) => $e, _ => 5 })", 'None, "y"', L("y")),
        ("$p:pat", "div!(match -5i8 { $p => 3, _ => 2 })", "-9..=-1", div(L("3"))), ("$p:pat", "div!({ let (a, $p) = (1, 2, 3); a })", "..", div(L("1"))),
        ("$p:pat", "div!(match 5i8 { $p => 3, _ => 2 })", "-1 | 0..=9", div(L("3"))), ("$p:pat, $e:expr", "div!(iter!([1].map(|$p| $e)))", "k, k", div(lst("", L("1")))),
        ("$s:expr", 'frag_match!(match $s { 1 => "x", _ => 3 })', "v.len()", L("x")), ("$e:expr", "frag_match!($e)", 'if v.len() == 1 { "a" } else { 3 }', L("a")),
        ("$e:expr", "frag_match!($e)", 'match v.len() { 2 => "a", _ => 3 }', L("3")), ("$e:expr", "div!(frag_match!($e))", 'if v.len() == 2 { "a" }', div()),
        ("$t:ty", "div!(<$t>::default(), 3 as $t)", "u8", div(L("0"), L("3"))), ("$t:ty", "div!({ let x: $t = v; x })", "&str", div(v)), ("$t:ty", "div!({ let x: $t = \"a\"; x })", "&'static str", div(L("a"))),
        ("$t:ty", "div!({ let f: $t = id; f(v) })", "fn(&'static str) -> &'static str", div(v)), ("$t:ty", "div!(Vec::<$t>::new().len())", "(u8, [u8; 3])", div(L("0"))),
        ("$p:path", 'div!($p("a"))', "String::from", div(L("a"))), ("$p:path", "div!($p::new(v))", "W2", div(v)), ("$p:ty", "div!(<$p>::new(v))", "W2", div(v)), ("$p:expr", "div!($p(v))", "W2::new", div(v)),
        ("$e:expr", "iter!($e)", "[1, 2]", lst("", L("1"), L("2"))), ("$e:expr, $s:expr", "iter!($s, $e)", '[1, 2], ","', lst(",", L("1"), L("2"))),
        ("$s:literal", "iter!($s, [1, 2])", '", "', lst(", ", L("1"), L("2"))), ("$a:expr, $b:expr", "div!(iter!($a..$b))", "1 + 1, 2 + 2", div(lst("", L("2"), L("3")))),
        ("$a:expr", "div!(iter!($a.rev()))", "1..3", div(lst("", L("2"), L("1")))), ("$e:expr", "raw!($e)", "v", raw("<")), ("$e:expr", "disp!($e)", "v", v), ("$e:expr", "classes!($e, \"b\")", "v", {"k": "classes", "items": [v, L("b")]}),
        ("$f:literal, $($e:expr),*", "div!(format_args!($f, $($e),*))", '"{}>{}", v, 3', div(L("<>3"))), ("$($t:tt)*", "div!(format_args!($($t)*))", '"{}>{}", v, 3', div(L("<>3"))),
        ("$e:expr", "comp!(x = $e)", "v", div(v)), ("$n:ident, $e:expr", "comp!($n = $e)", "x, v", div(v)), ("$($e:expr),*", "compr!($($e,)* z = 3)", 'v, "b"', el("i", at("id", L("3")), v, L("b"))),
        ("$($t:tt)*", "compr!($($t)*)", 'v, z = 3, "b"', el("i", at("id", L("3")), v, L("b"))), ("$m:ident, $e:expr", "$m!($e)", "div, v", div(v)), ("$m:ident, $e:expr", "$m!(x = $e)", "comp, v", div(v)),
        ("$m:ident, $e:expr", "div!($m!($e))", "p, v", div(p(v))), ("$m:path, $e:expr", "div!($m!($e))", "laby::p, v", div(p(v))), ("$m:ident", "div!($m!())", "br", div(el("br"))),
        ("$m:ident, $n:ident, $e:expr", "$m!($n = $e, $m!($n = bool!($e == v)))", "p, id, v", p(at("id", v), p(flag("id", True)))),
        # names of the macro's own are not those of the arguments
        ("$e:expr", "{ let w = 5; div!(w, $e, id = $e) }", "w.len()", div(at("id", L("1")), L("5"), L("1"))), ("$e:expr", "{ let x = 5; comp!(x = frag!(x, $e)) }", "w.len()", div(L("5"), L("1"))),
        ("$e:expr", "frag_match!(match 5 { w => frag!(w, $e) })", "w.len()", fr(L("5"), L("1"))), ("$e:expr", "{ let w = 5; frag_match!(if w == 5 { frag!(w, $e) }) }", "w.len()", fr(L("5"), L("1"))),
        ("$e:expr", "{ let buffer = 5; div!(buffer, $e) }", "buffer.len()", div(L("5"), L("2"))), ("$e:expr", "{ let t1 = 5; div!(t1, $e) }", "t1.len()", div(L("5"), L("3"))),
        ("$e:expr", "frag_match!(if let Some(w) = Some(5) { frag!(w, $e) } else { $e })", "w.len()", fr(L("5"), L("1"))), ("$i:ident", "{ let $i = 5; div!($i, w) }", "w", div(L("5"), L("w"))),
        ("$i:ident, $e:expr", "frag_match!(match 5 { $i => frag!($i, $e) })", "w, w", fr(L("5"), L("5"))), ("$e:expr", "iter!([1, 2].map(|w| frag!(w, $e)))", "w.len()", lst("", fr(L("1"), L("1")), fr(L("2"), L("1")))),
        # literals
        ("$e:literal", "frag!(-$e, $e)", "1", fr(L("-1"), L("1"))), ("$e:literal", "frag!($e, id($e))", "1.50f32", fr(L("1.5"), L("1.5"))), ("$e:literal", "div!($e, id = $e, match 3 { $e => 1, _ => 5 })", "-3", div(at("id", L("-3")), L("-3"), L("5"))),
        ("$e:literal", "div!($e, id = $e)", "'<'", div(at("id", v), v)), ("$e:literal", "div!($e, id = $e)", 'r"<"', div(at("id", v), v)), ("$e:literal", "div!($e, id = $e)", "true", div(at("id", L("true")), L("true"))), ("$e:tt", "div!($e, id = $e)", "0x1F", div(at("id", L("31")), L("31"))),
        ("$e:literal", "p!(id = bool!($e))", "true", p(flag("id", True))), ("$e:literal", "p!(id = bool!($e))", "false", p()), ("$e:tt", "p!(id = bool!($e), lang = bool!(!$e))", "false", p(flag("lang", True))), ("$e:expr", "p!(id = bool!($e))", "true", p(flag("id", True))),
        ("$e:literal", "div!(raw!($e), concat!($e, \"b\"))", '"<"', div(raw("<"), L("<b"))), ("$e:literal", "frag_match!(if v == $e { $e })", '"<"', v), ("$e:literal", "div!($e)", "1_000u64", div(L("1000"))), ("$e:expr", "frag!($e, \"b\")", "-1", fr(L("-1"), L("b"))),
        ("$e:expr", "frag!(-$e, \"b\")", "1", fr(L("-1"), L("b"))), ("$e:expr", "frag!(- -$e, !$e)", "1i8", fr(L("1"), L("-2"))),
        # statements, items, attributes
        ("$b:stmt", "div!({ $b; 3 })", "1 + 1", div(L("3"))), ("$b:stmt, $e:expr", "div!({ $b; $e })", "let x = 3, x", div(L("3"))), ("$b:item", "div!({ $b f() })", "fn f() -> u8 { 3 }", div(L("3"))), ("$b:meta", "div!({ #[$b] let x = 3; 3 })", "allow(unused)", div(L("3"))),
        ("$b:vis", "div!({ $b fn x() -> u8 { 3 } x() })", "pub(crate)", div(L("3"))), ("$b:vis, $e:expr", "div!({ $b fn x() -> u8 { $e } x() })", ", 3", div(L("3"))), ("$l:lifetime", "div!({ fn k<$l>(a: &$l str) -> &$l str { a } k(v) })", "'a", div(v)),
        ("$e:expr", "div!({ macro_rules! n { ($c:expr) => { p!($c * 3) } } n!($e * 2) })", "1 + 2", div(p(L("18")))), ("$e:expr", "div!(id($e)($e(1)))", "|x| x + 1", None),
        ("$e:expr", "div!($e)", "if w == \"w\" { 1 } else { 2 }", div(L("1"))), 
        ("$e:expr", "div!({ $e.same() })", "unsafe { 1 }", div(L("1"))), ("$e:expr", "div!({ -$e + 1 })", "loop { break 1 }", div(L("0"))),
        ("$e:expr", "frag_match!(match 3 { 3 => $e.same(), _ => 0 })", "{ 1 }", L("1")),
        ("$e:literal", "div!(concat!($e, \"b\"), same_lit!($e), stringify!($e))", "-3", div(L("-3b"), L("-3"), L("-3"))), ("$e:literal", "div!($e.abs(), $e .. ($e + 1), -$e as u8)", "-3i32", None), ("$e:literal", "div!($e.abs(), -$e, ($e..).next())", "-3i32", div(L("3"), L("3"), L("-3"))),
        ("$e:expr", "div!(stringify!($e), $e * 2)", "1 + 2", div(L("1 + 2"), L("6"))), ("$e:expr", "div!($e.abs(), stringify!($e))", "-3i32", div(L("3"), L("-3i32"))), ("$f:expr, $e:expr", "div!($f($e))", "call_me.it, 3", div(L("4"))), ("$f:expr", "div!($f.len(), ($f).len(), $f)", "call_me.s", div(L("1"), L("1"), v)),
        ("$e:expr", "div!(same_expr!($e) * 2, same_tts!($e) * 2, twice!($e))", "1 + 2", div(L("6"), L("6"), L("6"))), ("$p:pat", "div!(matches!(3, $p), same_pat!(3, $p))", "1 | 3", div(L("true"), L("true"))), ("$t:ty", "div!(same_ty!($t, v), Vec::<$t>::new().len())", "&str", div(v, L("0"))),
        ("$t:ty", "{ #[laby] fn qq(x: $t) -> impl Render + '_ { p!(x) } qq!(x = v) }", "&str", p(v)), ("$t:ty", "{ #[laby] fn qq<'a>(x: &'a str) -> impl Render + 'a { let y: $t = x; p!(y) } qq!(x = v) }", "&str", p(v)), ("$i:ident, $e:expr", "div!(call_me.$i.len(), $e)", "s, call_me.s", div(L("1"), v)),
        ("$e:expr", "div!((|| $e)())", "break_out(3)", div(L("3"))), ("$e:expr", "div!({ let r = (|| { $e; 3 })(); r })", "return 4", div(L("4"))), ("$e:expr", "div!({ let mut k = 1; let mut set = |n: i32| { $e; n + 1 }; set(4) })", "a1 == 3", div(L("5"))),
        ("$e:expr", "div!(loop { $e })", "break 3", div(L("3"))), ("$e:expr", "{ let mut k = 1; div!({ $e; 3 }, k) }", "()", div(L("3"), L("1"))), ("$a:expr, $e:expr", "div!({ $a; $e })", "(), 3", div(L("3"))), ("$k:ident, $e:expr", "{ let mut $k = 1; div!({ $e; 3 }, $k) }", "k, k = 2", div(L("3"), L("2"))),
        ("$k:ident, $e:expr", "{ let mut $k = 1; div!({ $e; $k }) }", "k, k += 2", div(L("3"))), ("$e:expr", "div!((($e)))", "1 + 2", div(L("3"))), ("$e:expr", "div!([$e, 2].len())", "1 + 2", div(L("2"))), ("$e:expr", "div!(vec![$e * 2, 2][0])", "1 + 2", div(L("6"))),
        ("$e:expr", "div!(dbg_($e * 2))", "1 + 2", div(L("6"))), ("$e:expr", "div!(matches!($e * 2, 6))", "1 + 2", div(L("true"))), ("$e:expr", "div!(Some($e * 2).map(|z| z - $e))", "1 + 2", div(L("3"))),
        ("$e:expr", "div!(async_(async { $e * 2 }))", "1 + 2", div(L("6"))), ("$e:expr", "div!(match $e { x if x == $e => x * 2, _ => 0 })", "1 + 2", div(L("6"))), ("$e:expr", "div!(for_(|| { for z in [$e * 2] { return z } 0 }))", "1 + 2", div(L("6"))),
        ("$e:expr", "div!({ let [z] = [$e * 2]; z })", "1 + 2", div(L("6"))), ("$e:expr", "div!(W2::new(&*$e))", "v.to_string() + \"b\"", div(L("<b"))), ("$e:expr", "div!(Rec { n: $e * 2 }.n)", "1 + 2", div(L("6"))), ("$e:expr", "div!(Rec { ..$e }.n)", "Rec { n: 3 }", div(L("3"))),
        ("$e:expr", "div!(if let 6 = $e * 2 { 1 } else { 2 })", "1 + 2", div(L("1"))), ("$e:expr", "div!(($e)..)", "1 + 2", None), ("$e:expr", "div!(($e..).next())", "1 + 2", div(L("3"))), ("$e:expr", "div!((..$e).end)", "1 + 2", div(L("3"))), ("$e:expr", "div!($e?.len())", "Some(v)", None),
        ("$e:expr", "div!($crate::id($e), id = $crate::id(3))", "v", div(at("id", L("3")), v)), ("$e:expr", "frag_match!(match $crate::W2::new($e) { s if s == v => $crate::id(3), _ => 5 })", "v", L("3")),
        ("$e:expr", "frag_match!(if $crate::is($e) { $crate::id(v) })", "3", v), ("$e:expr", "iter!($crate::id(\", \"), $crate::id([$e, 2]))", "1", lst(", ", L("1"), L("2"))), ("$e:expr", "comp!(x = $crate::id($e))", "v", div(v)),
        ("$e:expr", "$crate::laby_div!($crate::id($e), frag!($crate::laby_div!()))", "v", div(v, div())), ("$e:expr", "frag_match!(match ($e) { Rec { n } => n + 1 })", "Rec { n: 3 }", L("4")), ("$e:expr", "frag_match!(if (($e).n) == 3 { 4 })", "Rec { n: 3 }", L("4")),
        ("$e:expr", "frag_match!(match (Rec { n: $e * 2 }) { Rec { n } => n + 1 })", "1 + 1", L("5")), ("$e:expr", "frag_match!(if let Rec { n } = (Rec { n: $e }) { n + 1 })", "1 + 1", L("3")), ("$e:expr", "frag_match!(if let Rec { n } = $e { n + 1 })", "Rec { n: 3 }", L("4")),
        ("$a:expr, $e:expr", "frag_match!(match 3 { n if $a == Rec2(n) && $e => n, _ => 5 })", "Rec2(3), v == w || n_is(3)", L("3")), ("$a:expr, $b:expr", "frag_match!(if let Some(3) = $a { $b } else if let 4 = $b { 5 })", "Some(1 + 1), 2 + 2", L("5")),
        # components made by macros
        ("$e:expr", "{ #[laby] fn qq(#[default($crate::id($e * 2))] x: i32, #[rest] r: impl Render) -> impl Render { div!(x, $crate::id(r)) } qq!(4, $crate::id(3)) }", "1 + 1", div(L("4"), L("4"), L("3"))),
        ("$t:ty, $e:expr", "{ #[laby] fn qq(#[default(<$t>::from($e * 2))] x: $t, #[default] y: $crate::Two) -> impl Render { div!(x, y.0) } frag!(qq!(), qq!(x = <$t>::from($e) * 3, y = $crate::Two(1))) }", "i64, 1 + 1", fr(div(L("4"), L("0")), div(L("6"), L("1")))),
        ("$n:ident, $e:expr, $t:ty", "{ #[laby] pub fn $n(x: $t, #[default($e * 2)] y: i32, #[rest] r: impl Render) -> impl Render { div!(x, y, r, $e * 2) } $n!(x = v, p!(v)) }", "qq, 1 + 2, &'static str", div(v, L("6"), p(v), L("6"))),
        ("$n:ident $(, $a:ident: $t:ty)*", "{ #[laby] pub fn $n($($a: $t),*) -> impl Render { div!($(title = $a),*) } $n!($($a = 3),*) }", "qq, a: u8", div(at("title", L("3")))),
        ("$n:ident, $($b:tt)*", "{ #[laby] pub fn $n(x: u8) -> impl Render $($b)* $n!(x = 1) }", 'qq, { div!("x") }', div(L("x"))), ("$n:ident, $v:vis, $b:block", "{ #[laby] $v fn $n(x: u8) -> impl Render $b $n!(x = 1) }", 'qq, pub(crate), { div!("x") }', div(L("x"))),
        ("$n:ident, $r:ty", "{ #[laby] fn $n(x: u8) -> $r { div!(x) } $n!(x = 1) }", "qq, impl Render", div(L("1"))), ("$($f:tt)*", "{ #[laby] $($f)* }", 'fn qq(x: u8) -> impl Render { div!(x) } qq!(x = 4)', div(L("4"))), ("$f:item", "{ #[laby] $f qq!(x = 4) }", "fn qq(x: u8) -> impl Render { div!(x) }", None),
        ("$e:expr", "{ #[laby] fn qq() -> impl Render { $e * 2 } qq!() }", "1 + 2", L("6")), ("$m:meta", "{ #[laby] #[$m] fn qq() -> u8 { 3 } qq!() }", 'deprecated = "foo"', L("3")), ("$p:pat, $e:expr", "{ #[laby] fn qq(x: u8) -> impl Render { frag_match!(match x { $p => $e, _ => 5 }) } qq!(x = 3) }", '1 | 3, "y"', L("y")),
        ("$a:ident", "{ #[laby] fn qq($a: u8, #[default] b: u8) -> impl Render { p!($a, b) } qq!($a = 3, b = 4) }", "k", p(L("3"), L("4"))), ("$a:ident", "{ #[laby] fn qq(k: u8) -> impl Render { p!(k) } qq!($a = 3) }", "k", p(L("3"))), ("$a:ident", "{ #[laby] fn qq($a: u8) -> impl Render { p!($a) } qq!(k = 3) }", "k", p(L("3"))),
        ("$($a:ident = $e:expr),*", "{ #[laby] fn qq(k: u8, l: u8) -> impl Render { p!(k, l) } qq!($($a = $e * 2),*) }", "l = 1 + 2, k = 4", p(L("8"), L("6"))), ("$l:lifetime", "{ #[laby] fn qq<$l>(k: &$l str) -> impl Render + $l { p!(k) } qq!(k = v) }", "'a", p(v)),
        ("$t:ident", "{ #[laby] fn qq<$t: Render>(k: $t) -> impl Render { p!(k) } qq!(k = v) }", "T", p(v)), ("$b:path", "{ #[laby] fn qq<T: $b>(k: T) -> impl Render { p!(k) } qq!(k = v) }", "Render", p(v)), ("$b:ty", "{ #[laby] fn qq<T>(k: T) -> impl Render where $b: Render, T: Render { p!(k) } qq!(k = v) }", "u8", p(v)),
        ("$f:path", "{ #[laby] fn qq(#[rest($f)] k: impl Render) -> impl Render { p!(k) } qq!(v) }", "pass", None), ("$f:ident", "{ #[laby] fn qq(#[rest($f)] k: impl Render) -> impl Render { p!(k) } qq!(v) }", "pass", p(v)), ("$f:ident", "{ #[laby] fn $f(k: impl Render) -> impl Render { p!(k) } frag!($f!(k = 1), $f(2)) }", "qq", fr(p(L("1")), p(L("2")))),
    ]
    return [x for x in q if x[3] is not None]


def div_list(x):
    return el("div", x)


def fixed():
    cases = []
    for i, (pat, body, arg, tree) in enumerate(table()):
        b = 'let v = "<"; let w = "w"; let buffer = "aa"; let t1 = "bbb"; let a1 = 1; let call_me = CallMe { it: |n| n + 1, s: "<" };\nmacro_rules! mm { (%s) => { %s } }\n%s' % (pat, body, END25 % ("mm!(%s)" % arg))
        cases.append(Case({"lets": [], "root": tree}, "sep", b))
    return cases


EXTRA25 = """
struct W2; impl W2 { fn new(a: &str) -> String { a.to_string() } }
#[derive(Clone, Copy)] struct CallMe { it: fn(i32) -> i32, s: &'static str }
#[derive(PartialEq)] struct Rec2(i32);
#[derive(Default)] struct Two(u8);
fn n_is(n: i32) -> bool { n == 3 }
macro_rules! laby_div { ($($t:tt)*) => { laby::div!($($t)*) } }
use laby_div;
macro_rules! same_lit { ($e:literal) => { $e } }
macro_rules! same_expr { ($e:expr) => { $e } }
macro_rules! same_tts { ($($e:tt)*) => { ($($e)*) } }
macro_rules! twice { ($($e:tt)*) => { $($e)* * 2 } }
macro_rules! same_pat { ($e:expr, $p:pat) => { matches!($e, $p) } }
macro_rules! same_ty { ($t:ty, $e:expr) => { { let x: $t = $e; x } } }
fn id<T>(t: T) -> T { t }
fn break_out(n: i32) -> i32 { n }
fn dbg_(n: i32) -> i32 { n }
fn for_(f: impl Fn() -> i32) -> i32 { f() }
fn async_<T>(f: impl std::future::Future<Output = T>) -> T { verifrt::probe::drive(f).unwrap() }
"""


def run(chk):
    rng = random.Random(chk.seed)
    cases = fixed()
    chk.notes["fixed"] = len(cases)
    cases += substituted(chk, rng) + holed(chk, rng)
    judge(chk, "p25", cases, "text", label="a template made through a macro is not what it is without", head=HEAD25 + EXTRA25)
