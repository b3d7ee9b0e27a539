"""From template trees (spec/Markup.tla) to Rust programs, and from their output to records."""
import copy
import json
import os
from vlib import *

NORMAL = ("a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code "
          "colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer "
          "form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark "
          "menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb "
          "rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table "
          "tbody td template textarea tfoot th thead time title tr u ul var video").split()
VOID = "area base br col embed hr img input link meta param source track wbr".split()
# identifiers used as attribute names and the text they stand for
NAMES = [(n, n) for n in ("class", "id", "href", "title", "data_x", "style", "value", "name", "onclick",
                          "buffer", "t1", "render", "x")] + [("r#type", "type"), ("r#for", "for")]
NAMES = [(s if s not in ("class",) else s, t) for s, t in NAMES]


def rstr(b):
    """A Rust string literal of UTF-8 bytes."""
    s = b.decode("utf8") if isinstance(b, bytes) else b
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif " " <= c <= "~":
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    out.append('"')
    return "".join(out)


TEXTS = ["a", "<", "a&b", "\"q\"", "it's", "x>y", "", " ", "plain text", "<b>&amp;</b>", "\u00e9<\u20ac",
         "0123456789abcdef<", "&&&&&&&&&&&&&&&&&&&&", "a\nb", "back\\slash", "{}", "{0}%s", "\U0001f600",
         "-->", "]]>", "</script>", "' onload='", "=", "/", "\t", "\u0000", "abcdefghijklmnopqrstuvwxyz\"ABC",
         "\ufeffmark", "a\r\nb", "\u200b\u2028", "\u0085\u00a0", " lead and trail ", "\x7f\x1b[0m"]

# (source, text, allocates)
VALUES = ([(rstr(t), t, False) for t in TEXTS]
          + [("String::from(%s)" % rstr(t), t, True) for t in TEXTS[:8]]
          + [("'<'", "<", False), ("'x'", "x", False), ("'\\u{20ac}'", "\u20ac", False), ("'\"'", "\"", False),
             ("0u8", "0", False), ("255u8", "255", False), ("-7i32", "-7", False), ("1234567usize", "1234567", False),
             ("i64::MIN", "-9223372036854775808", False), ("u128::MAX", str(2**128 - 1), False),
             ("true", "true", False), ("false", "false", False), ("()", "", False), ("1.5f64", "1.5", False),
             ("f32::INFINITY", "inf", False), ("-0.25f32", "-0.25", False), ("f64::NAN", "NaN", False),
             ("Some(\"o&o\")", "o&o", False), ("None::<&str>", "", False), ("Some('>')", ">", False),
             ("Some(Some(3))", "3", False), ("Option::<u8>::None", "", False),
             ("std::borrow::Cow::Borrowed(\"c<w\")", "c<w", False),
             ("std::borrow::Cow::<str>::Owned(String::from(\"o>w\"))", "o>w", True),
             ("std::num::NonZeroU16::new(9).unwrap()", "9", False)])
# (source, text)
LITERALS = ([(rstr(t), t) for t in TEXTS]
            + [("r\"<raw>\"", "<raw>"), ("r#\"a\"b\"#", "a\"b"), ("'&'", "&"), ("'z'", "z"), ("b'A'", "65"),
               ("true", "true"), ("false", "false"), ("42", "42"), ("0xffu8", "255"), ("1_000", "1000"),
               ("1.50", "1.5"), ("2.5f32", "2.5"), ("'\\''", "'")])
RAWS = [(rstr(t), t) for t in TEXTS] + [
    ("String::from(\"<i>own</i>\")", "<i>own</i>"), ("std::borrow::Cow::Borrowed(\"&amp;<\")", "&amp;<"),
    ("Sep(\"<'\\\">\")", "<'\">"), ("Box::<str>::from(\"<box>&\")", "<box>&")]
FLAGS = {True: ["ex(%d, true)", "ex(%d, true)", "!ex(%d, false)", "ex(%d, 3) > 2", "(ex(%d, true))",
                "{ ex(%d, true) }", "matches!(ex(%d, 1), 1)", "true && ex(%d, true)",
                "if ex(%d, true) { true } else { false }"],
         False: ["ex(%d, false)", "ex(%d, false)", "!ex(%d, true)", "ex(%d, 3) < 2", "(ex(%d, false))",
                 "{ ex(%d, false) }", "matches!(ex(%d, 1), 2)", "true && ex(%d, false)",
                 "if ex(%d, false) { true } else { false }"]}
CONSTS = {True: ["!false", "!!true", "true && true", "true || false", "1 < 2", "{ false; true }", "!(false)", "!{ false }",
                 "\"a\" == \"a\"", "{ let b = true; b }", "if false { false } else { true }", "true as bool", "!!(true)",
                 "match 1 { 1 => true, _ => false }", "(false, true).1", "[true, false][0]", "true & true", "true ^ false",
                 "!!!false", "u8::MAX > 254", "Some(1).is_some()"],
          False: ["!true", "!!false", "true && false", "false || false", "2 < 1", "{ true; false }", "!(true)", "!{ true }",
                  "\"a\" == \"b\"", "{ let b = false; b }", "if true { false } else { true }", "false as bool",
                  "!!(false)", "match 1 { 1 => false, _ => true }", "(false, true).0", "[true, false][1]", "true & false",
                  "true ^ true", "!!!true", "u8::MAX < 254", "Some(1).is_none()"]}
# ways to put an expression around markup without changing its meaning
WRAPS = ["paren", "block", "path", "fn", "some", "letin", "closure", "iftrue", "box", "ref"]


class Namer:
    """Gives a tree built by the specification concrete tags, names, texts and numbers."""

    def __init__(self, seed, noalloc=False, texts=None, longer=False):
        self.r = random.Random(seed)
        self.id = 0
        self.noalloc = noalloc
        self.longer = longer
        self.texts = texts
        self.last = None
        self.odd = False
        self.held = []        # values whose drop is seen
        self.al = []          # values whose expressions allocate

    def next(self):
        self.id += 1
        return self.id

    def value(self, unseen=False):
        while True:
            v = self.r.choice(VALUES)
            if not ((self.noalloc or unseen) and v[2]):
                break
        if self.longer and self.r.random() < 0.2:
            t = self.r.choice(["<", "abcd", "&\""]) * self.r.randrange(1, 60)
            v = (rstr(t), t, False)
        return v

    def tree(self, a):
        a = copy.deepcopy(a)
        for x in a["lets"]:
            self.node(x)
        self.node(a["root"])
        return a

    def leaf(self, n):
        how = n["how"]
        n["id"] = self.next() if n["id"] else 0
        if how in ("held", "hitem"):
            self.held.append(n["id"])
        if how == "hitem":
            t = self.r.choice(TEXTS)
            n["src"] = rstr(t)
        elif how == "doc":
            n["src"], t = "DocType::HTML5", "<!DOCTYPE html>"
        elif how in ("lit", "plit"):
            n["src"], t = self.r.choice(LITERALS)
        elif how == "empty":
            n["src"], t = '""', ""
        elif how in ("raw", "rawev"):
            pool = RAWS[:len(TEXTS)] if self.noalloc or how == "raw" and self.r.random() < 0.8 else RAWS
            n["src"], t = self.r.choice(pool)
            if "::from(" in n["src"]:
                self.al.append(n["id"])
                self.odd = self.odd or not n["id"]      # an allocation no event tells of
        else:
            n["src"], t, own = self.value(n["id"] == 0)
            if own and t:
                self.al.append(n["id"])
        n["t"] = enc(t)

    def name(self, n):
        if n["k"] == "id":
            # repeated names are common
            if self.last and self.r.random() < 0.3:
                n["src"], n["s"] = self.last
            else:
                n["src"], n["s"] = self.last = self.r.choice(NAMES)
        elif n["k"] == "wrap":
            self.name(n["x"])
        elif n["k"] == "do":
            n["id"] = self.next()
            self.name(n["x"])
        else:
            self.leaf(n)
            # a name is markup: keep it harmless, but through every kind of value
            pick = self.r.choice([("\"data-x\"", "data-x"), ("'n'", "n"), ("\"aria-label\"", "aria-label"),
                                  ("\"a<b\"", "a<b"), ("5", "5"), ("\"x:y\"", "x:y")])
            if n["raw"]:
                pick = self.r.choice([("\"raw-n\"", "raw-n"), ("\"r<w\"", "r<w"), ("\"q\\\"&'>\"", "q\"&'>")])
            n["src"], n["t"] = pick[0], enc(pick[1])
            self.al = [x for x in self.al if x != n["id"]]

    def node(self, n):
        k = n["k"]
        if k == "leaf":
            self.leaf(n)
        elif k == "fail":
            n["id"] = self.next()
            if n.get("form") != "item":
                n["form"] = n["pin"] if "pin" in n else self.r.choice(FAILS)
            t = "" if n["form"] and "%s" not in n["form"] and n["form"] != "item" else \
                self.r.choice(["", "part<", "&", "longer text before the failure", "'\"" * 9])
            n["t"] = enc(t)
            if n["form"]:
                self.held.append(n["id"])
        elif k == "cfail":
            n["id"] = self.next()
        elif k == "el":
            n["tag"] = self.r.choice(VOID if n["void"] else NORMAL)
            for x in n["items"]:
                self.node(x)
        elif k in ("frag", "classes", "list"):
            for x in n["items"]:
                self.node(x)
        elif k == "fiter":
            n["id"] = self.next()
            self.id += n["at"] + 1
        elif k == "catch":
            self.node(n["x"])
        elif k == "attr":
            self.name(n["name"])
            if n["flag"] == "dyn":
                n["id"] = self.next()
                if n.get("leave"):
                    pass
                elif self.r.random() < 0.25:       # known when compiled, but not a literal
                    n["id"], n["src"] = 0, self.r.choice(CONSTS[n["b"]])
                else:
                    n["src"] = self.r.choice(FLAGS[n["b"]]) % n["id"]
            elif n["flag"] == "lit":
                n["src"] = self.r.choice(["%s", "%s", "(%s)", "{ %s }", "({ %s })"]) % ("true" if n["b"] else "false")
            elif n["flag"] == "no":
                self.node(n["val"])
        elif k == "wrap":
            if n["w"] == "wrap":
                n["w"] = self.r.choice(WRAPS[:8])
                if n["w"] == "path" and n["x"]["k"] not in ("el", "frag", "classes", "if", "match"):
                    n["w"] = "fn"
            self.node(n["x"])
        elif k == "do":
            n["id"] = self.next()
            self.node(n["x"])
        elif k == "if":
            for c in n["conds"]:
                c["id"] = self.next()
                if c.get("leave"):
                    c["form"] = "b"
                c.setdefault("form", self.r.choice(["b", "b", "let", "and", "and2", "or", "or2", "andlet", "bind", "not",
                                                  "notor", "matches", "block", "eq", "par"]))
            for x in n["arms"]:
                self.node(x)
                self.nothing(x)
        elif k == "match":
            n["id"] = self.next()
            n["form"] = self.r.choice(["int", "opt", "str", "tuple", "range", "res", "bind", "bindx", "bindp", "ref"])
            for x in n["arms"]:
                if x["gid"]:
                    x["gid"] = self.next()
                self.node(x["x"])
                self.nothing(x["x"])

    def nothing(self, n):
        """A branch that renders nothing is often one with nothing in it."""
        if n["k"] == "none" and "code" not in n:
            n["code"] = self.r.choice(["None::<&'static str>", "", "", "()", "{ }", "let _q = 1;", "frag!()", "let _ = ();", "((), ()).0"])


class Ticks(Namer):
    """Expressions all written alike, each giving the next value of a list."""

    def __init__(self, seed):
        Namer.__init__(self, seed)
        self.table = []

    def give(self, n, how, t):
        n["id"] = self.next()
        self.table.append(t)
        n["code" if n["k"] == "leaf" else "src"] = "tk.%s()" % how
        return t

    def leaf(self, n):
        if n["how"] not in ("ev", "ex"):
            return Namer.leaf(self, n)
        t = self.give(n, n["how"], self.r.choice(["a", "b", "<", "&c", ""]))
        n["src"], n["t"] = "", enc(t)

    def name(self, n):
        if n["k"] == "leaf" and n["how"] in ("ev", "ex"):
            n["src"], n["t"] = "", enc(self.give(n, n["how"], self.r.choice(["n", "data-m", "o"])))
        else:
            Namer.name(self, n)

    def node(self, n):
        if n["k"] == "attr" and n["flag"] == "dyn":
            self.name(n["name"])
            self.give(n, "b", "1" if n["b"] else "0")
        elif n["k"] == "if" :
            for c, x in zip(n["conds"] + [None], n["arms"] + [None]):
                if c is not None:
                    c["id"] = self.next()
                    c["form"], c["code"] = "b", "tk.c()"
                    self.table.append("1" if c["b"] else "0")
                if x is not None and (c is None or c["b"]):
                    self.node(x)
                    break
        else:
            Namer.node(self, n)

    @staticmethod
    def fit(n):
        """Whether the expressions are evaluated in the order written, all of them."""
        if isinstance(n, list):
            return all(Ticks.fit(x) for x in n)
        if not isinstance(n, dict):
            return True
        if n.get("k") == "attr" and n["flag"] != "no" and n["name"]["k"] != "id":
            return False
        if n.get("k") == "el":
            a = [x["k"] == "attr" for x in n["items"]]
            if a != sorted(a, reverse=True):
                return False
        return n.get("k") not in ("if", "match", "do") and all(Ticks.fit(x) for x in n.values())

    def case(self, a, kind):
        c = Case(self.tree(a), kind)
        c.pre = "let tk = Tick::new(&[%s]);" % ", ".join(rstr(t) for t in self.table)
        return c


# values that render a text (%s) and then fail
FAILS = ["", "", "Fails { before: %s }", "disp!(Pieces(&[Piece::Str(%s), Piece::Fail]))",
         "disp!(Pieces(&[Piece::Str(%s), Piece::Panic, Piece::Str(\"never\")]))",
         "disp!(Pieces(&[Piece::Str(%s), Piece::Fail, Piece::Char('n')]))", "Some(Fails { before: %s })",
         "iter!([MayFail { t: %s, fail: true }])",
         "iter!(\"-\", vec![MayFail { t: %s, fail: true }, MayFail { t: \"never\", fail: false }])",
         "frag!(%s, Fails { before: \"\" }, \"never\")", "frag!(%s, raw!(FailText), \"never\")",
         "frag!(%s, iter!(FailColl))", "iter!(\",\", fscript(900000, &[], 1))", "raw!(FailText)", "iter!(FailColl)"]


def wrapped(a, rng, p=1.0):
    """The same template composed differently: every piece of markup gets some wrapping."""
    a = copy.deepcopy(a)

    def go(n, top=False):
        if n["k"] in ("el", "frag", "classes"):
            n["items"] = [go(x) for x in n["items"]]
        elif n["k"] == "attr":
            if n["flag"] == "no":
                n["val"] = go(n["val"])
            return n
        elif n["k"] in ("wrap", "do"):
            n["x"] = go(n["x"])
        elif n["k"] == "if":
            n["arms"] = [go(x) for x in n["arms"]]
        elif n["k"] == "match":
            for x in n["arms"]:
                x["x"] = go(x["x"])
        elif n["k"] in ("id", "var", "none", "cfail"):
            return n
        if top or rng.random() > p:
            return n
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            w = rng.choice(WRAPS[:8] + ["let", "frag", "qpath"])
            if w in ("path", "qpath") and n["k"] not in ("el", "frag", "classes", "if", "match"):
                w = "fn"
            if w == "let":
                a["lets"].append(n)
                n = {"k": "var", "v": len(a["lets"])}
            elif w == "frag":
                n = {"k": "frag", "items": [n]}
            else:
                n = {"k": "wrap", "w": w, "x": n}
        return n

    a["root"] = go(a["root"], a["root"]["k"] == "frag")
    return a


class Src:
    """Rust source of a tree."""

    def __init__(self, hold=False):
        self.hold = hold

    def node(self, n):
        k = n["k"]
        if "code" in n:
            return n["code"]
        if k == "leaf":
            return self.leaf(n)
        if k == "fail":
            t = rstr(dec(n["t"]))
            form = n.get("form", "")
            if form == "item":
                return "hitem(%d, %s, true)" % (n["id"], t)
            if form:
                return "held(%d, %s)" % (n["id"], form.replace("%s", t))
            return "ev(%d, Fails { before: %s })" % (n["id"], t)
        if k == "cfail":
            return "held_fail(%d)" % n["id"]
        if k == "none":
            return "None::<&'static str>"
        if k == "var":
            return "v%d" % n["v"]
        if k == "el":
            return "%s!(%s)" % (n["tag"], self.items(n))
        if k in ("frag", "classes"):
            return "%s!(%s)" % (k, self.items(n))
        if k == "wrap":
            return self.wrap(n["w"], n["x"])
        if k == "do":
            return "{ note(%d); %s }" % (n["id"], self.node(n["x"]))
        if k == "if":
            return self.ifs(n)
        if k == "match":
            return self.match(n)
        if k == "iter":
            sc = "&[%s]" % ", ".join("(%s, %s)" % ("true" if x["some"] else "false", rstr(dec(x["t"])))
                                     for x in n["script"])
            it = n.get("style", "%s") % ("script(%d, %s)" % (n["id"] + 1, sc))
            it = "ex(%d, %s)" % (n["id"], it)
            return n.get("mac", "iter!(%s)") % ((rstr(dec(n["sep"])), it) if n.get("two") else it)
        if k == "fiter":
            sc = "&[%s]" % ", ".join("(true, %s)" % rstr(dec(x["t"])) for x in n["script"])
            return "iter!(%s, ex(%d, fscript(%d, %s, %d)))" % (rstr(dec(n["sep"])), n["id"], n["id"] + 1, sc, n["at"])
        if k == "list":
            return "iter!(%s, %s)" % (rstr(dec(n["sep"])), n["style"] % ", ".join(self.node(x) for x in n["items"]))
        if k == "catch":
            return "Catch(%s)" % self.node(n["x"])
        if k == "par":
            return n["p"]
        if k == "call":
            args = ["%s = %s" % (a.get("as", a["n"]), self.node(a["x"])) if a["n"] else self.node(a["x"])
                    for a in n["args"]]
            return "%s!(%s%s)" % (n["fn"], ", ".join(args), "," if args and n.get("comma") else "")
        if k == "src":
            return n["src"]
        raise ToolError("no source for " + k)

    def leaf(self, n):
        how = n["how"]
        s = n["src"]
        if how in ("lit", "empty"):
            return s
        if how == "ev":
            return "ev(%d, %s)" % (n["id"], s)
        if how == "ex":
            return "ex(%d, %s)" % (n["id"], s)
        if how == "held":
            return "held(%d, %s)" % (n["id"], s)
        if how == "hitem":
            return "hitem(%d, %s, false)" % (n["id"], s)
        if how == "plain":
            return "pass(%s)" % s
        if how == "raw":
            return "raw!(%s)" % s
        if how == "rawev":
            return "ev(%d, raw!(%s))" % (n["id"], s)
        if how in ("src", "doc"):
            return s
        raise ToolError("no source for leaf " + how)

    def items(self, n):
        return ", ".join(self.item(x) for x in n["items"])

    def item(self, x):
        if x["k"] != "attr":
            return self.node(x)
        name = x["name"]["src"] if x["name"]["k"] == "id" else self.name(x["name"])
        if x["flag"] == "no":
            return "%s = %s" % (name, self.node(x["val"]))
        return "%s = bool!(%s)" % (name, x["src"])

    def name(self, n):
        s = self.node(n)
        # an attribute name must be an expression Rust can assign to, as far as its parser goes
        return s

    def wrap(self, w, x):
        s = self.node(x)
        if w == "paren":
            return "(%s)" % s
        if w == "block":
            return "{ %s }" % s
        if w in ("path", "qpath") and x["k"] not in ("el", "frag", "classes", "if", "match", "call"):
            return "(%s)" % s
        if w == "path":
            return "laby::" + s
        if w == "qpath":
            return "::laby::" + s
        if w == "fn":
            return "pass_render(%s)" % s
        if w == "some":
            return "Some(%s)" % s
        if w == "letin":
            return "{ let y = %s; y }" % s
        if w == "closure":
            return "(|| %s)()" % s
        if w == "iftrue":
            return "if true { Some(%s) } else { None }" % s
        raise ToolError("no source for wrap " + w)

    def cond(self, c):
        b = "true" if c["b"] else "false"
        if c["form"] == "let":
            return "let Some(_) = cond(%d, %s).then_some(1)" % (c["id"], b)
        if c["form"] == "bind":
            return "let Some(z) = cond(%d, %s).then_some(\"z\")" % (c["id"], b)
        if c["form"] == "and":
            return "cond(%d, %s) && true" % (c["id"], b)
        if c["form"] == "and2":
            return "true && cond(%d, %s)" % (c["id"], b)
        if c["form"] == "or":
            return "cond(%d, %s) || false" % (c["id"], b)
        if c["form"] == "or2":
            return "false || cond(%d, %s) && 1 < 2" % (c["id"], b)
        if c["form"] == "notor":
            return "!cond(%d, %s) || false" % (c["id"], "false" if c["b"] else "true")
        if c["form"] == "eq":
            return "cond(%d, %s) == true" % (c["id"], b)
        if c["form"] == "par":
            return "(cond(%d, %s) as u8 + 1 > 1)" % (c["id"], b)
        if c["form"] == "andlet":
            return "let (true, _q) = (true && cond(%d, %s), 1)" % (c["id"], b)
        if c["form"] == "not":
            return "!(cond(%d, %s))" % (c["id"], "false" if c["b"] else "true")
        if c["form"] == "matches":
            return "matches!(cond(%d, %s).then_some(\'q\'), Some(\'q\'))" % (c["id"], b)
        if c["form"] == "block":
            return "{ let c = cond(%d, %s); c }" % (c["id"], b)
        return "cond(%d, %s)" % (c["id"], b)

    def ifs(self, n):
        out = []
        for j, x in enumerate(n["arms"]):
            body = self.node(x)
            body = body if body.startswith("{") and x["k"] == "do" else "{ %s }" % body
            if j < len(n["conds"]):
                if n["conds"][j]["form"] == "bind":
                    body = "{ let z: &str = z; " + body[1:]
                out.append(("else " if j else "") + "if %s %s" % (self.cond(n["conds"][j]), body))
            else:
                out.append("else " + body)
        return "frag_match!(%s)" % " ".join(out)

    def match(self, n):
        form = n.get("form", "int")
        scr, one = {
            "int": ("%d", "%d"), "opt": ("Some(%d)", "Some(%d)"), "str": ("\"k%d\"", "\"k%d\""),
            "tuple": ("(%d, 'x')", "(%d, _)"), "range": ("%d", "%d..=%d"),
            "res": ("Result::<i32, ()>::Ok(%d)", "Ok(%d)"), "bindp": ("(1, %d)", "(_, %d)"),
            "bind": ("%d", "%d"), "bindx": ("%d", "%d"), "ref": ("&%d", "&%d"),
        }[form]
        arms = []
        for a in n["arms"]:
            body = self.node(a["x"])
            cond = "cond(%d, %s)" % (a["gid"], "true" if a["gb"] else "false") if a["gid"] else ""
            pat = "_" if a["any"] else " | ".join(one % ((p,) * one.count("%d")) for p in a["pats"])
            if form == "bind":
                pat = "y" if a["any"] else "y @ (%s)" % pat
                body = "{ let y: i32 = y; %s }" % body
            elif form == "bindx" and not a["any"]:
                test = " || ".join("y == %d" % p for p in a["pats"])
                cond = "(%s) && %s" % (test, cond) if cond else test
                pat = "y"
            elif form == "bindp" and a["any"]:
                pat = "(n, m)" if not a["gid"] else "(_, m)"
                body = "{ let m: i32 = m; %s }" % body
            if not body or body.startswith("let "):
                body = "{ %s }" % body
            g = " if " + cond if cond else ""
            comma = "" if body.startswith("{") and body.endswith("}") and len(arms) % 2 and \
                a["x"]["k"] in ("do",) else ","
            arms.append("%s%s => %s%s" % (pat, g, body, comma))
        # Rust wants every match to be total: the last arm always is
        return "frag_match!(match ex(%d, %s) { %s })" % (n["id"], scr % n["v"], " ".join(arms))


HEAD = """#![allow(unused, deprecated)]
use laby::*;
use verifrt::probe::{ev, ex, cond, note, pass, pass_render, held, held_fail, Fails, Sep, Coll, script, Pieces, Piece,
    Tick, MayFail, hitem, fscript, FailColl, FailText, Catch, Dflt, Tn, tn};
use verifrt::run::{run, Rt};
"""


class Case:
    def __init__(self, ast, kind="sep", body=None, pre="", meta=None, items=""):
        self.ast = ast
        self.kind = kind          # sep: constructed, then rendered; take: through render!
        self.body = body
        self.pre = pre            # statements before
        self.items = items        # items beside the case's function
        self.meta = meta or {}

    def source(self, name):
        if self.body is not None:
            return "%s\nfn %s(_rt: &mut Rt) {\n%s\n}\n" % (self.items, name, self.body)
        s = Src()
        b = [self.pre] if self.pre else []
        for j, x in enumerate(self.ast["lets"]):
            b.append("let v%d = %s;" % (j + 1, s.node(x)))
        if self.kind == "take":
            root = self.ast["root"]
            if root["k"] == "frag" and len(root["items"]) > 1:
                inner = s.items(root) + ("," if len(root["items"]) % 2 else "")
            else:
                inner = s.node(root)
            b.append("let s = render!(%s);\n_rt.take(s);" % inner)
        else:
            b.append("let m = %s;\n_rt.built();\nlaby::Render::render(m, _rt.buf());\n_rt.done();"
                     % s.node(self.ast["root"]))
        return "%s\nfn %s(_rt: &mut Rt) {\n%s\n}\n" % (self.items, name, "\n".join(b))


def programs(chk, name, cases, rt, head=HEAD, per=None, extra=(), opt=None):
    """Compiles the cases into programs, runs them, returns observations per case index, or None
    for the cases of a program that did not compile or died (which is reported)."""
    d = scratch(name)
    per = per or max(20, (len(cases) + NCPU - 1) // NCPU)
    chunks = [(i, cases[i:i + per]) for i in range(0, len(cases), per)]

    def one(job, limit=None):
        """Results of one part; a part the compiler does not finish with is taken apart."""
        base, cs = job
        src = os.path.join(d, "p%d.rs" % base)
        lines = head.count("\n")
        starts = []
        with open(src, "w") as f:
            f.write(head)
            for j, c in enumerate(cs):
                t = c.source("c%d" % (base + j))
                starts.append(lines + 1)
                lines += t.count("\n")
                f.write(t)
            f.write("fn main() { run(&[%s]) }\n" % ", ".join(
                '("%d", c%d as fn(&mut Rt))' % (base + j, base + j) for j in range(len(cs))))
        exe = os.path.join(d, "p%d" % base)
        try:
            ok, diags = rustc(src, exe, rt, extra=extra, opt=opt, timeout=limit or max(150, len(cs) // 2))
        except Slow:
            out = []
            n = max(1, len(cs) // 8)
            for j in range(0, len(cs), n):
                out += one((base + j, cs[j:j + n]), 45) if len(cs) > 8 else [("slow", base)]
                # one wrong answer is enough
                if any(r[0] != "ran" for r in out):
                    break
            return out
        if not ok:
            return [("compile", base, cs, starts, diags)]
        rc, out, err = run_bin([exe], timeout=300)
        os.unlink(exe)
        return [("ran", base, rc, parse_lines(out), err)]

    obs = [[] for _ in cases]
    notes = []
    for r in [r for rs in pmap(one, chunks) for r in rs]:
        if r[0] == "slow":
            notes.append(("slow", r[1]))
            continue
        if r[0] == "compile":
            _, base, cs, starts, diags = r
            bad = {}
            for dg in diags:
                if dg.get("level") != "error":
                    continue
                ls = lines_of(dg)
                for l in ls:
                    idx = [j for j, s in enumerate(starts) if s <= l]
                    if idx:
                        bad.setdefault(base + idx[-1], dg["message"])
            notes.append(("compile", base, len(cs), bad,
                          [dg["message"] for dg in diags if dg.get("level") == "error"][:5]))
            continue
        _, base, rc, recs, err = r
        end = None
        for x in recs:
            if x["c"] == "#":
                end = x
            else:
                obs[int(x["c"])].append(x)
        if rc != 0 or end is None:
            notes.append(("died", base, rc, err[-500:]))
        elif end["broken"]:
            notes.append(("memory", base, end["first"]))
    return obs, notes


def lines_of(dg):
    """Source lines of a diagnostic, expansions followed to the outermost call."""
    out = []
    for s in dg.get("spans", []):
        if not s.get("is_primary"):
            continue
        while s.get("expansion") and s["expansion"].get("span"):
            s = s["expansion"]["span"]
        out.append(s["line_start"])
    return out


def report_notes(chk, notes, cases, memory=False):
    """Programs that do not compile, die or break a memory rule."""
    if any(n[0] == "slow" for n in notes) and not any(n[0] in ("compile", "died") for n in notes):
        raise ToolError("the compiler does not finish with case %s" % [n[1] for n in notes if n[0] == "slow"])
    for n in notes:
        if n[0] == "compile":
            i = min(n[3]) if n[3] else n[1]
            chk.violation("a well-formed template does not compile", {
                "errors": n[4], "source": cases[i].source("c%d" % i), "messages": n[3]})
        elif n[0] == "died":
            chk.violation("the process ended while rendering", {"exit": n[2], "stderr": n[3], "from_case": n[1]})
        elif n[0] == "memory" and memory:
            chk.violation("memory rule broken: " + n[2], {"from_case": n[1]})


def records(cases, obs):
    """Records for the trace specifications; cases nothing was seen of (reported before) left out."""
    recs, idx = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(record(c, obs[i]))
            idx.append(i)
    return recs, idx


KEEP = {"leaf": ("k", "id", "r", "raw", "t"), "fail": ("k", "id", "t"), "cfail": ("k", "id"),
        "id": ("k", "s"), "none": ("k",), "var": ("k", "v"), "par": ("k", "p")}


def slim(n):
    """The tree as the specification wants it."""
    if isinstance(n, list):
        return [slim(x) for x in n]
    if isinstance(n, dict):
        keep = KEEP.get(n.get("k"))
        return {k: slim(v) for k, v in n.items()
                if (keep is None or k in keep) and k not in ("src", "how", "form", "w", "types", "code", "fn", "as", "comma")}
    return n


def record(c, obs):
    r = {"lets": slim(c.ast["lets"]), "root": slim(c.ast["root"]), "kind": c.kind, "obs": []}
    for o in obs:
        r["obs"].append({"pan": o["pan"], "pre": o["pre"], "utf8": o["utf8"], "usable": o["usable"],
                         "shrunk": o["shrunk"], "ev": [e for e in o["ev"] if e["e"] != "I"],
                         "tail": o["tail"], "out": o["out"], "m": o["m"]})
    r.update(c.meta)
    return r


def judge(chk, name, cases, what, profiles=("debug",), consts="", memory=False, label=None, head=HEAD,
          extra=()):
    """Compiles and runs the cases, then lets TemplateTrace judge what was observed."""
    for p in profiles:
        rt = build_rt(p)
        chk.log("compiling and running %d templates (%s)" % (len(cases), p))
        obs, notes = programs(chk, name, cases, rt, head=head, extra=extra)
        report_notes(chk, notes, cases, memory)
        recs, idx = records(cases, obs)
        chk.log("validating %d records" % len(recs))
        rej = validate(chk, "TemplateTrace", recs, 'CONSTANT What = "%s"\n' % what + consts, heap="6g")
        for j in rej:
            chk.violation(label or "the observed behaviour is not the template's", {
                "profile": p, "source": cases[idx[j]].source("c"), "observed": recs[j]["obs"][:2]})
        for j in (0, len(recs) // 2, len(recs) - 1):
            if recs:
                chk.sample({"source": cases[idx[j]].source("c")[:700], "out": recs[j]["obs"][0]["out"][:300]})
        chk.notes["templates_" + p] = chk.notes.get("templates_" + p, 0) + len(recs)


CFG = ("INIT Init\nNEXT Next\nCONSTANT Leaves = %s\nCONSTANT AttrForms = %s\nCONSTANT Frames = %s\n"
       "CONSTANT Roots = %s\nCONSTANT Modes = %s\nCONSTANT MaxItems = %d\nCONSTANT MaxDepth = %d\n"
       "CONSTANT Run = %s\nINVARIANT Means Emit\n")


def tset(s):
    return "{%s}" % ", ".join('"%s"' % x for x in s.split())


def trees(chk, leaves, attrs, frames, roots, modes, items, depth, run=True, sim=None, cap=None, seed=0):
    """Templates built by the specification: all within the bounds (each also run through the
    machine and checked against its meaning), or a random sample of larger ones."""
    cfg = CFG % (tset(leaves), tset(attrs), tset(frames), tset(roots), tset(modes), items, depth,
                 "TRUE" if run else "FALSE")
    if sim:
        t = tlc("Template", cfg, sim=sim, depth=6 * items + 60, seed=chk.seed * 1000 + seed, workers=1,
                timeout=800)
    else:
        t = tlc("Template", cfg, timeout=800, heap="8g")
    chk.count(t)
    out = sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})
    n = len(out)
    if cap and n > cap:
        r = random.Random(chk.seed * 31 + seed)
        out = r.sample(out, cap)
    chk.notes.setdefault("trees", []).append(
        {"built": n, "used": len(out), "mode": "simulate" if sim else "exhaustive", "items": items,
         "leaves": leaves, "attrs": attrs, "frames": frames, "modes": modes})
    return [json.loads(x) for x in out]
