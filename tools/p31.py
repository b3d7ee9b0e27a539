"""P31: a template acts on the variables around it as ordinary code does."""
from vlib import *
from rustgen import *

LEAF31 = {
    "lit": ['"l"', "'l'", '"l".to_string()'],
    "n.read": ["$n", "($n)", "{ $n }", "$n.clone()", "same($n)", "{ let was = $n; was }"],
    "n.bump": ["{ $n += 1; $n }", "{ let new = $n + 1; $n = new; new }", "{ *(&mut $n) += 1; $n }", "more(&mut $n)"],
    "n.swap": ["std::mem::replace(&mut $n, 5)", "{ let was = $n; $n = 5; was }", "std::mem::replace::<i32>(&mut $n, 2 + 3)"],
    "n.ref": ["Hold(&$n)", "{ let p = &$n; Hold(p) }", "Hold::<i32>(&$n)"],
    "n.later": ["iter!((0..1).map(|_| { $n += 10; $n }))", "iter!(std::iter::once(&mut $n).map(|n| { *n += 10; *n }))", "Later(|| { $n += 10; $n })"],
    "o.read": ["$o", "$o.clone()", "{ $o }", "match $o { Some(x) => Some(x), None => None }", "$o.as_ref().copied()"],
    "o.take": ["$o.take()", "std::mem::take(&mut $o)", "std::mem::replace(&mut $o, None)"],
    "o.put": ["{ $o = Some(4); $o }", "*$o.insert(4)", "{ $o.replace(4); $o }"],
    "o.ref": ["Hold(&$o)", "$o.as_ref().map(Hold)"],
    "s.read": ["$s.clone()", "$s.as_str().to_owned()", "format!(\"{}\", $s)", "String::from(&$s[..])"],
    "s.move": ["$s", "{ $s }", "same($s)", "Some($s)", "{ let s = $s; s }", "std::borrow::Cow::<str>::from($s)", "Later(move || $s)"],
    "s.ref": ["&$s[..]", "$s.as_str()", "&*$s", "{ let s: &str = &$s; s }", "Some(&$s[..])", "std::borrow::Cow::from(&$s[..])", "Later(|| $s.clone())"],
    "s.push": ["{ $s.push('x'); $s.clone() }", "{ $s += \"x\"; String::from(&$s[..]) }", "{ let s = &mut $s; s.push('x'); s.clone() }"],
    "s.take": ["std::mem::take(&mut $s)", "$s.drain(..).collect::<String>()", "std::mem::replace(&mut $s, String::new())", "$s.split_off(0)"],
    "s.new": ["{ $s = \"z\".to_string(); $s.clone() }", "{ $s = String::from(\"z\"); \"z\" }"],
    "q.read": ["$q.clone()", "$q.as_deref().map(String::from)", "match $q { Some(ref x) => x.clone(), None => String::new() }"],
    "q.move": ["$q", "{ $q }", "same($q)", "$q.unwrap_or_default()", "match $q { Some(x) => x, None => String::new() }"],
    "q.ref": ["$q.as_deref()", "$q.as_deref().unwrap_or(\"\")", "iter!($q.iter().map(|x| &x[..]))"],
    "q.take": ["$q.take()", "std::mem::take(&mut $q)"],
    "q.new": ["{ $q = Some(\"w\".into()); $q.clone() }", "{ $q = Some(String::from(\"w\")); \"w\" }"],
    "t.read": ["$t.0.clone()", "{ let (ref a, _) = $t; a.clone() }", "format!(\"{}\", $t.0)"],
    "t.move": ["$t.0", "{ let (a, _) = $t; a }", "same($t.0)", "{ $t.0 }"],
    "t.ref": ["&$t.0[..]", "$t.0.as_str()"],
    "t.push": ["{ $t.0.push('x'); $t.0.clone() }"],
    "t.new": ["{ $t.0 = \"u\".to_string(); $t.0.clone() }"],
    "t.one": ["$t.1", "{ let (_, b) = $t; b }", "{ $t.1 }"],
    "t.add": ["{ $t.1 += 1; $t.1 }", "{ let (_, ref mut b) = $t; *b += 1; *b }", "more(&mut $t.1)"],
    "c.get": ["$c.get()", "{ let x = &$c; x.get() }", "{ $c.clone().into_inner() }"],
    "c.set": ["{ $c.set($c.get() + 3); $c.get() }", "{ let x = &$c; x.set(x.get() + 3); x.get() }", "$c.replace($c.get() + 3) + 3"],
    "c.swap": ["$c.replace(7)", "{ let x = $c.get(); $c.set(7); x }"],
    "c.show": ["Seen(&$c)", "disp!(Shown(&$c))", "iter!(std::iter::once(&$c).map(|c| c.get()))", "Some(Seen(&$c))", "iter!([&$c].map(Seen))", "Later(|| $c.get())"],
    "c.tick": ["Later(|| { $c.set($c.get() + 1); $c.get() })", "iter!(std::iter::once(&$c).map(|c| { c.set(c.get() + 1); c.get() }))", "Ticks(&$c)", "Some(Ticks(&$c))"],
}
COND31 = {"n.gt": ["$n > 1", "($n > 1)", "1 < $n", "!($n <= 1)"], "n.bumpgt": ["{ $n += 1; $n > 2 }", "more(&mut $n) > 2"],
          "o.some": ["$o.is_some()", "$o != None", "let Some(_) = $o", "matches!($o, Some(_))"], "s.empty": ["$s.is_empty()", "$s == \"\"", "$s.len() == 0"],
          "s.gone": ["std::mem::take(&mut $s).is_empty()", "$s.split_off(0) == \"\""], "q.none": ["$q.is_none()", "let None = $q", "matches!($q, None)"],
          "t.add": ["{ $t.1 += 1; $t.1 > 1 }", "more(&mut $t.1) > 1"], "c.gt": ["$c.get() > 4", "let 5.. = $c.get()"]}


class Write31:
    def __init__(self, r, where):
        self.r, self.where = r, where

    def put(self, text):
        for v in "nosqtc":
            text = text.replace("$" + v, self.where % v)
        return text

    def leaf(self, op):
        # a closure would take the whole box
        return self.put(self.r.choice([x for x in LEAF31[op] if "move" not in x or self.where[0] != "b"]))

    def kind(self, b):
        p = b["p"]
        if p["bind"] == "no":
            return "no"
        if b["form"] == "take":
            return "own"
        if b["form"] == "mut" or p["bind"] == "mut":
            return "mut"
        return "ref" if p["bind"] == "ref" or b["form"] in ("amp", "keep") else "own"

    def scrutinee(self, v, form):
        x = self.where % v
        if form in ("amp", "keep"):
            return self.r.choice(["&" + x] + (["%s.as_ref()" % x] if v in "oq" else []))
        if form == "place":
            return self.r.choice([x, x, "(%s)" % x])
        if form == "take":
            return self.r.choice(["%s.take()" % x, "std::mem::take(&mut %s)" % x])
        return self.r.choice(["&mut " + x] + (["%s.as_mut()" % x] if v in "oq" else []))

    def pat(self, b):
        p = b["p"]
        bind = {"no": "_", "val": "v", "ref": "ref v", "mut": "ref mut v"}[p["bind"]]
        sh = p["shape"]
        if sh in ("0", "1", "none"):
            s = {"0": "0", "1": "1", "none": "None"}[sh]
        elif sh == "12":
            s = self.r.choice(["1..=2", "1 | 2"]) if bind == "_" else bind + " @ 1..=2"
        else:
            s = {"any": bind, "some": "Some(%s)" % bind, "first": "(%s, _)" % bind, "second": "(_, %s)" % bind, "one": "(_, 1)"}[sh]
        if p["guard"] == "v":
            text = b["v"] == "q" or sh == "first"
            k = self.kind(b)
            s += " if v.is_empty()" if text else " if %sv > 1" % ("" if k == "own" else "*")
        elif p["guard"]:
            s += " if " + self.put(self.r.choice(COND31[p["guard"]][:2]))
        return s

    def use(self, b):
        k, u = self.kind(b), b["use"]
        text = b["v"] == "q" or b["p"]["shape"] == "first"
        if k == "own":
            return self.r.choice(["v", "{ v }", "same(v)"])
        if u == "hold":
            return self.r.choice(["v.as_str()", "&v[..]", "{ let w: &str = v; w }"])
        if u == "bump":
            return self.r.choice(["{ v.push('y'); v.clone() }", "{ *v += \"y\"; v.clone() }"]) if text else self.r.choice(["{ *v += 1; *v }", "more(v)"])
        return self.r.choice(["v.clone()", "v.to_string()"]) if text else self.r.choice(["*v", "{ *v }", "v.clone()"])

    def body(self, b):
        x = self.node(b["items"][0])
        return x if b["use"] == "none" else "frag!(%s, %s)" % (self.use(b), x)

    def node(self, n):
        k = n["k"]
        if k == "leaf":
            return self.leaf(n["op"])
        if k in ("el", "frag", "rest"):
            at = ["x%d = %s" % (i + 1, self.leaf(x["op"])) for i, x in enumerate(n["items"]) if x["k"] == "attr"]
            ch = [self.node(x) for x in n["items"] if x["k"] != "attr"]
            q = []
            while at or ch:
                q.append(at.pop(0) if at and (not ch or self.r.random() < 0.6) else ch.pop(0))
            return "%s!(%s)" % ({"el": "p", "frag": "frag", "rest": "rest"}[k], ", ".join(q))
        if k == "wrap":
            return "wrap!(x = %s)" % self.node(n["items"][0])
        if k == "if":
            out = []
            for b in n["items"]:
                if b["c"] == "else":
                    out.append("{ %s }" % self.body(b))
                    continue
                if b["c"] == "let":
                    c = "let %s = %s" % (self.pat(b), self.scrutinee(b["v"], b["form"]))
                else:
                    c = self.put(self.r.choice(COND31[b["c"]]))
                out.append("if %s { %s }" % (c, self.body(b)))
            return "frag_match!(%s)" % " else ".join(out)
        assert k == "match", k
        arms = []
        for b in n["items"]:
            x = self.body(b)
            arms.append("%s => %s," % (self.pat(b), self.r.choice([x, "{ %s }" % x])))
        return "frag_match!(match %s { %s })" % (self.scrutinee(n["v"], n["form"]), " ".join(arms))


PLACES = ["%s", "%s", "w.%s", "w.0.%s", "b.%s"]
OPENS = {"%s": "let mut n = given({n}); let mut o = given({o}); let mut s = given({s}); let mut q = given({q}); let mut t = given({t}); let c = given({c});",
         "w.%s": "let mut w = given(Five {{ n: {n}, o: {o}, s: {s}, q: {q}, t: {t}, c: {c} }});",
         "w.0.%s": "let mut w = given((Five {{ n: {n}, o: {o}, s: {s}, q: {q}, t: {t}, c: {c} }}, 1));",
         "b.%s": "let mut b = given(Box::new(Five {{ n: {n}, o: {o}, s: {s}, q: {q}, t: {t}, c: {c} }}));"}


def case(j, x, seed):
    r = random.Random(seed)
    where = r.choice(PLACES)
    # a guard looks at the whole box, also at what was moved out of it
    if where[0] == "b" and re.search(r'"guard": "[^"]', json.dumps(x["tree"])):
        where = "%s"
    w = Write31(r, where)
    opt = lambda v, none: "None" if v == none else "Some(%s)" % v
    i = x["init"]
    b = [OPENS[where].format(n="%di32" % i["n"], o="None::<i32>" if i["o"] == -1 else "Some(%di32)" % i["o"], s="\"%s\".to_string()" % i["s"],
                             q="None::<String>" if i["q"] == "-" else "Some(\"%s\".to_string())" % i["q"], t="(\"%s\".to_string(), %di32)" % (i["t"], i["u"]), c="Cell::new(%di32)" % i["c"])]
    if x["after"]:
        b.append("let m = %s; let mut out = String::new();" % w.node(x["tree"]))
        for op in x["after"]:
            b.append("out += \"/\"; out += &render!(%s);" % w.leaf(op))
        b.append("out = render!(m) + &out;")
    else:
        e = w.node(x["tree"])
        b.append("let mut out = render!(%s);" % (e[6:-1] if r.random() < 0.4 and e.startswith("frag!(") else e))
    b.append("out += \"|\";")
    dump = {"n": "left(\"n\", $n)", "o": "left(\"o\", $o)", "s": "left(\"s\", &$s[..])", "q": "left(\"q\", match $q { None => \"-\", Some(ref v) => v })", "t": "left(\"t\", &$t.0[..])"}
    for v in "nosqt":
        if v in x["left"]:
            b.append("out += &%s;" % w.put(dump[v]))
    b.append("out += &%s;" % w.put("(left(\"u\", $t.1) + &left(\"c\", $c.get()))"))
    b.append("_rt.take(out);")
    root = {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": "", "t": enc(x["text"])}
    return Case({"lets": [], "root": root}, "take", body="\n".join(b))


HEAD31 = HEAD + """
fn given<T>(x: T) -> T { std::hint::black_box(x) }
fn same<T>(x: T) -> T { x }
fn more(x: &mut i32) -> i32 { *x += 1; *x }
fn left(name: &str, x: impl Render) -> String { render!(name, x, ";") }
use std::cell::Cell;
struct Seen<'a>(&'a Cell<i32>);
impl Render for Seen<'_> { fn render(self, b: &mut internal::Buffer) { self.0.get().render(b) } }
struct Ticks<'a>(&'a Cell<i32>);
impl Render for Ticks<'_> { fn render(self, b: &mut internal::Buffer) { self.0.set(self.0.get() + 1); self.0.get().render(b) } }
struct Shown<'a>(&'a Cell<i32>);
impl std::fmt::Display for Shown<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0.get()) } }
struct Five { n: i32, o: Option<i32>, s: String, q: Option<String>, t: (String, i32), c: Cell<i32> }
struct Hold<'a, T>(&'a T);
impl<'a, T: Copy + Render> Render for Hold<'a, T> { fn render(self, b: &mut internal::Buffer) { self.0.render(b) } }
struct Later<F>(F);
impl<F: FnOnce() -> R, R: Render> Render for Later<F> { fn render(self, b: &mut internal::Buffer) { (self.0)().render(b) } }
#[laby] fn wrap(x: impl Render) -> impl Render { b!(x) }
#[laby] fn rest(#[rest] x: impl Render) -> impl Render { i!(x) }
"""
LV31 = " ".join(LEAF31)
CF31 = " ".join(COND31)
CFG31 = ("INIT Init\nNEXT Next\nCONSTANT Leaves = %s\nCONSTANT Conds = %s\nCONSTANT Frames = %s\nCONSTANT Vars = %s\nCONSTANT Guards = %s\n"
         "CONSTANT MaxItems = %d\nCONSTANT MaxDepth = %d\nCONSTANT MaxAfter = %d\nCONSTANT Wide = %s\nCONSTANT Design = \"%s\"\n"
         "INVARIANT SameEffect NotGone%s\n")


def cfg31(leaves, conds, frames, vars_, guards, items, depth, after, wide, design="laby", emit=True):
    return CFG31 % (tset(leaves), tset(conds), tset(frames), tset(vars_), tset(guards), items, depth, after,
                    "TRUE" if wide else "FALSE", design, " Emit" if emit else "")


def run(chk):
    k = 4 if chk.thorough else 1
    for design, inv in (("value", "SameEffect"), ("late", "SameEffect"), ("last", "NotGone")):
        t = tlc("Store", cfg31("n.read n.bump s.move s.read", "n.gt", "if match el", "n o", "v", 5, 3, 0, False, design, False), ok=(12,))
        if "Invariant %s is violated" % inv not in t.text:
            raise ToolError("the specification does not notice the design: " + design)

    def get(t):
        chk.count(t)
        return [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    r = random.Random(chk.seed)
    sets = {}
    sets["pairs"] = get(tlc("Store", cfg31(" ".join(x for x in LEAF31 if x[0] != "c"), "", "el", "", "", 3, 2, 1, False), heap="8g"))
    sets["matches"] = get(tlc("Store", cfg31("lit n.read", "", "match", "n o q t", "v s.empty", 5, 3, 0, False), heap="8g"))
    sets["chains"] = get(tlc("Store", cfg31("lit s.move s.ref", CF31, "if", "o q", "", 5, 3, 0, False), heap="8g"))
    sets["cells"] = get(tlc("Store", cfg31("lit n.bump c.get c.set c.swap c.show c.tick", "c.gt", "el frag if", "", "", 4, 3, 1, False), heap="8g"))
    sets["larger"] = []
    for i, (n, d) in enumerate(((8, 4), (12, 5), (18, 6))):
        sets["larger"] += get(tlc("Store", cfg31(LV31, CF31, "el frag wrap rest if match", "n o s q t".replace("s ", ""), "v n.gt s.empty", n, d, 2, True),
                                  sim=(5000, 5000, 4000)[i] * k, depth=90, seed=chk.seed * 1000 + i, workers=1))
    has = lambda x: "\"match\"" in json.dumps(x["tree"]) or "\"if\"" in json.dumps(x["tree"])
    sets["larger"] = [x for x in sets["larger"] if has(x)]
    cap = {"pairs": 500, "matches": 700, "chains": 500, "cells": 700, "larger": 2500}
    pick = []
    for s in ("pairs", "matches", "chains", "cells", "larger"):
        pick += r.sample(sets[s], min(len(sets[s]), cap[s] * k))
    chk.notes["behaviours"] = dict({s: len(q) for s, q in sets.items()}, used=len(pick))
    cases = [case(j, x, chk.seed * 100000 + j) for j, x in enumerate(pick)]
    judge(chk, "p31", cases, "text", head=HEAD31,
          label="a template does not act on the variables around it as the specification says ordinary code does")
    judge(chk, "p31d", cases[chk.seed % 6::6], "text", profiles=("decl",), head="#![feature(decl_macro)]\n" + HEAD31,
          label="a template does not act on the variables around it as the specification says ordinary code does")
