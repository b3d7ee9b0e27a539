"""From signatures and calls enumerated by spec/Component.tla to components and calls in Rust."""
from vlib import *
from rustgen import *
from p05 import lf, el, at

PNAMES = ("title x y children item t1 t2 T1 buffer buf frag value render call name class id args rest func "
          "func_args param r#type r#for r#fn a b c self_ default expr div p laby core wrapper ident sig value1 "
          "x1 vis macro_name").split()


def alike(n):
    """Names that are like this one, and are others."""
    n = n.replace("r#", "")
    return [x for x in ("_" + n, n + "_", "__" + n, n.upper(), n.capitalize(), n + "s", n + "1", n + "_" + n, n[:-1], n[::-1], n + "\u00e9", n[0])
            if x and x != n and not x[0].isdigit() and x not in KEYWORDS]


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct "
               "super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen _ __".split())
POOL = ["v<%d>", "%d&", "\"%d\"", "it's %d", "val%d", "%d"]

# kind of parameter -> type, generics, ways to give it, body form, default text, ways to default it
# an argument is (source with %(i)d and %(s)s, observable id?, rendering observable?)
TYPES = {
    "R": ("impl Render", "", [("ev(%(i)d, %(s)s)", 1, 1), ("ev(%(i)d, %(s)s)", 1, 1), ("%(s)s", 0, 0), ("ex(%(i)d, %(s)s)", 1, 0),
                              ("String::from(%(s)s)", 0, 0), ("Some(ev(%(i)d, %(s)s))", 1, 1), ("{ let y = ev(%(i)d, %(s)s); y }", 1, 1),
                              ("if true { ev(%(i)d, %(s)s) } else { unreachable!() }", 1, 1)],
          "%s", None, [("ev(%(i)d, %(s)s)", 1, 1), ("%(s)s", 0, 0), ("()", -1, 0), ("ex(%(i)d, %(s)s)", 1, 0)]),
    "G": ("G%(n)d", "G%(n)d: Render", [("ev(%(i)d, %(s)s)", 1, 1), ("ex(%(i)d, %(s)s)", 1, 0), ("%(s)s.to_string()", 0, 0)],
          "%s", None, [("ev(%(i)d, %(s)s)", 1, 1), ("ex(%(i)d, %(s)s)", 1, 0)]),
    "S": ("&'static str", "", [("%(s)s", 0, 0), ("ex(%(i)d, %(s)s)", 1, 0), ("{ note(%(i)d); %(s)s }", 1, 0),
                               ("[%(s)s, \"no\"][0]", 0, 0)],
          "%s", "", [("%(s)s", 0, 0), ("ex(%(i)d, %(s)s)", 1, 0)]),
    "St": ("String", "", [("%(s)s.into()", 0, 0), ("ex(%(i)d, String::from(%(s)s))", 1, 0), ("format!(\"{}\", ex(%(i)d, %(s)s))", 1, 0),
                          ("ex(%(i)d, %(s)s).to_owned()", 1, 0)],
           "%s", "", [("%(s)s.into()", 0, 0), ("ex(%(i)d, %(s)s).to_string()", 1, 0)]),
    "O": ("Option<&'static str>", "", [("Some(%(s)s)", 0, 0), ("Some(ex(%(i)d, %(s)s))", 1, 0), ("ex(%(i)d, Some(%(s)s))", 1, 0)],
          "%s", "", [("Some(%(s)s)", 0, 0), ("Some(ex(%(i)d, %(s)s))", 1, 0)]),
    "I": ("impl Into<String>", "", [("%(s)s", 0, 0), ("ex(%(i)d, String::from(%(s)s))", 1, 0), ("ex(%(i)d, %(s)s)", 1, 0)],
          "Into::<String>::into(%s)", None, [("%(s)s", 0, 0), ("ex(%(i)d, %(s)s)", 1, 0)]),
    "C": ("impl FnOnce() -> &'static str", "", [("|| %(s)s", 0, 0), ("ex(%(i)d, || %(s)s)", 1, 0), ("move || { %(s)s }", 0, 0)],
          "%s()", None, [("|| %(s)s", 0, 0)]),
    "B": ("Box<dyn Fn() -> &'static str>", "", [("Box::new(|| %(s)s)", 0, 0), ("ex(%(i)d, Box::new(|| %(s)s))", 1, 0)],
          "%s()", None, [("Box::new(|| %(s)s)", 0, 0)]),
    "V": ("&'static [&'static str]", "", [("&[%(s)s]", 0, 0), ("ex(%(i)d, &[%(s)s])", 1, 0)],
          "iter!(%s.iter().copied())", "", [("&[%(s)s]", 0, 0)]),
    "D": ("Dflt<%(i)d>", "", [("Dflt::of(%(i)d, %(s)s)", 1, 0)], "%s", "dflt&", [("Dflt::of(%(i)d, %(s)s)", 1, 0)]),
    "T": ("(&'static str, u8)", "", [("(%(s)s, 1)", 0, 0), ("(ex(%(i)d, %(s)s), 1)", 1, 0)], "%s.0", "",
          [("(%(s)s, 0)", 0, 0), ("(ex(%(i)d, %(s)s), 2)", 1, 0)]),
}
# the text of a parameter
STR = {"S": "%s", "St": "&%s", "O": "%s.unwrap_or(\"\")", "I": "&Into::<String>::into(%s)", "C": "%s()", "B": "%s()",
       "V": "&%s.concat()", "D": "%s.text()", "T": "%s.0"}
MARKUP = [
    lambda g: el("b", g.leaf(), g.leaf()),
    lambda g: {"k": "frag", "items": [g.leaf(), g.leaf()]},
    lambda g: el("i", at("class", {"k": "classes", "items": [g.leaf(), g.leaf()]})),
    lambda g: {"k": "if", "conds": [{"id": g.next(), "b": g.r.random() < .5, "form": "b"}], "arms": [g.leaf(), el("u", g.leaf())]},
    lambda g: {"k": "do", "id": g.next(), "x": g.leaf()},
]


class Gen:
    """One case: components and one statement that calls them."""

    def __init__(self, no, seed, calls, nest=0.25, decl=False):
        self.r = random.Random(seed)
        self.no = no
        self.id = 0
        self.comps = 0
        self.items = []
        self.calls = calls
        self.nest = nest
        self.decl = decl
        self.pre = []
        self.deny = set()
        self.lib = []

    def next(self):
        self.id += 1
        return self.id

    def text(self):
        return self.r.choice(POOL) % self.next()

    def leaf(self):
        t = self.text()
        return {"k": "leaf", "how": "ev", "id": self.next(), "r": True, "raw": False, "src": rstr(t), "t": enc(t)}

    def given(self, ptype, forms, local=None):
        """One way to write a value of the type."""
        src, seen, r = self.r.choice(forms)
        t = self.text()
        i = self.next()
        s = rstr(t)
        if local and seen == 0 and self.r.random() < 0.8:
            s = local
            t = self.locals[local]
        if seen == -1:
            t = ""
        return {"k": "leaf", "how": "src", "id": i if seen == 1 else 0, "r": bool(r), "raw": False,
                "src": src % {"i": i, "s": s}, "t": enc(t)}

    def argument(self, ptype, depth, local=None):
        if ptype in ("R", "G") and depth > 0:
            c = self.r.random()
            if c < self.nest:
                return self.call(depth - 1)
            if c < self.nest + 0.25:
                return self.r.choice(MARKUP)(self)
        if ptype == "rest":
            c = self.r.random()
            if c < self.nest and depth > 0:
                return self.call(depth - 1)
            if c < 0.6:
                return self.r.choice(MARKUP)(self)
            return self.given("R", TYPES["R"][2])
        if ptype == "D":
            return self.given(ptype, TYPES[ptype][2])
        return self.given(ptype, TYPES[ptype][2], local)

    def signature(self, kinds):
        """Parameters: name, type, attribute, default."""
        names = self.r.sample(PNAMES, len(kinds))
        if self.r.random() < 0.2 and len(kinds) > 1:
            one = self.r.choice(names)
            names = self.r.sample([one] + [x for x in dict.fromkeys(alike(one)) if x.isascii() or not self.decl], len(kinds))
        out = []
        for j, kd in enumerate(kinds):
            p = {"n": names[j], "kind": kd, "rest": kd == "rest", "def": {"k": "none"}}
            if kd == "rest":
                p["pt"] = "rest"
                p["ty"] = "impl Render"
                p["attr"] = "#[rest] "
                if not self.decl and self.r.random() < 0.35:
                    p["wrap"] = True
                    p["attr"] = "#[rest(%sw%s)] " % (self.r.choice(["crate::", "crate::", "self::", ""]), self.fn)
                p["gen"] = ""
            else:
                ok = [t for t in TYPES if kd != "dfl" or TYPES[t][4] is not None]
                p["pt"] = pt = self.r.choice(ok + ["R", "R", "S"] if kd != "dfl" else ok + ["D", "D"])
                i = self.next()
                d = {"n": self.next(), "i": i}
                p["ty"] = TYPES[pt][0] % d
                p["gen"] = TYPES[pt][1] % d
                p["attr"] = ""
                if kd == "dfl":
                    p["attr"] = "#[default] "
                    p["def"] = {"k": "leaf", "how": "src", "id": i if pt == "D" else 0, "r": False, "raw": False,
                                "src": "", "t": enc(TYPES[pt][4])}
                elif kd == "dfx":
                    if pt == "D":
                        x = {"k": "leaf", "how": "src", "id": self.next(), "r": False, "raw": False, "t": enc("dx<%d" % i)}
                        x["src"] = "Dflt::of(%d, %s)" % (x["id"], rstr("dx<%d" % i))
                    else:
                        x = self.given(pt, TYPES[pt][5])
                    p["def"] = x
                    p["attr"] = "#[default(%s)] " % x["src"]
                if p["attr"] and self.r.random() < 0.2:
                    p["attr"] = self.r.choice(["#[allow(unused)] " + p["attr"], p["attr"] + "#[allow(unused)] "])
            out.append(p)
        return out

    def body(self, sig):
        """What the component renders: its parameters in some order, inside markup of its own."""
        pars = []
        for p in sig:
            n = {"k": "par", "p": p["n"]}
            f = "%s" if p["rest"] else TYPES[p["pt"]][3]
            if f != "%s":
                n["code"] = f % p["n"]
            pars.append(n)
        self.r.shuffle(pars)
        form = self.r.randrange(6)
        if form == 0:
            b = {"k": "frag", "items": pars}
        elif form == 1:
            b = el("div", *pars)
        elif form == 2 and pars:
            b = el("p", at("title", pars[0]), *(pars[1:] + [lf("|", "lit")]))
        elif form == 3:
            b = el("section", *[el("span", x) for x in pars])
        elif form == 4:
            b = {"k": "do", "id": self.next(), "x": el("div", *(pars + [self.leaf()]))}
        else:
            b = el("ul", {"k": "classes", "items": pars}, self.leaf())
        return b

    def call(self, depth, spec=None):
        if spec is None:
            if not self.calls:
                return self.leaf()
            spec = self.r.choice(self.calls)
        self.comps += 1
        fn = "k%d_%d" % (self.no, self.comps)
        self.fn = fn
        sig = self.signature(spec["sig"])
        if any(p.get("wrap") for p in sig):
            n = sum(a == "" for a in spec["args"])
            self.items.append("fn w%s(%s) -> impl Render { frag!(\"[\"%s, \"]\") }" % (
                fn, ", ".join("x%d: impl Render" % j for j in range(n)), "".join(", \"|\", x%d" % j for j in range(n))))
        by = {"p%d" % (j + 1): p for j, p in enumerate(sig)}
        body = self.body(sig)
        s = Src()
        if sig and self.r.random() < 0.15 and not any(p["pt"] in ("R", "G", "rest") for p in sig):
            # a component that returns no markup; nothing of it is seen being rendered
            body = {"k": "frag", "items": [{"k": "par", "p": p["n"]} for p in sig]}
            ret, code = "String", "String::new()" + "".join(" + " + STR[p["pt"]] % p["n"] for p in sig)
        else:
            ret, code = "impl Render", s.node(body)
        gens = [p["gen"] for p in sig if p["gen"]]
        where = ""
        if gens and self.r.random() < 0.4:
            where = " where " + ", ".join(gens)
            gens = [g.split(":")[0] for g in gens]
        head = "#[laby] %sfn %s%s(%s%s) -> %s%s { %s }" % (
            self.r.choice(["", "pub ", "pub(crate) ", "#[inline] ", "#[allow(dead_code)] ", ""]), fn,
            "<%s>" % ", ".join(gens) if gens else "",
            ", ".join("%s%s%s: %s" % (p["attr"], self.r.choice(["", "", "mut "]), p["n"], p["ty"]) for p in sig),
            self.r.choice(["", ","]) if sig else "", ret, where, code)
        place = self.r.randrange(4)
        path = fn
        if self.decl and self.r.random() < 0.7:
            # called by path, imported or not; or from another crate
            body_fn = head.replace("#[laby] ", "#[laby::laby] ").replace("pub(crate) ", "").replace("pub ", "")
            body_fn = body_fn.replace("fn " + fn, "pub fn " + fn, 1)
            far = self.decl == "far" and self.r.random() < 0.6
            deep = self.r.random() < 0.5
            text = "pub mod m%s { use super::*; %s }" % (fn, body_fn)
            if deep:
                text = "pub mod n%s { use super::*; %s }" % (fn, text)
            (self.lib if far else self.items).append(text)
            path = ("n%s::" % fn if deep else "") + "m%s::%s" % (fn, fn)
            path = self.r.choice(["comps::", "::comps::"] if far else ["", "crate::", "self::"]) + path
            if self.r.random() < 0.25 and not far:
                self.items.append("use %s as r%s;" % (path, fn))
                path = "r" + fn
        elif place == 0:
            self.pre.append(head.replace("#[laby] pub ", "#[laby] ").replace("pub(crate) ", ""))
        elif place == 1:
            self.items.append("mod m%s { use super::*; #[laby::laby] pub %s }\nuse m%s::%s;"
                              % (fn, head[8:].replace("pub ", "").replace("pub(crate) ", ""), fn, fn))
            if "#[inline] " in head or "#[allow(dead_code)] " in head:
                self.items[-1] = "mod m%s { use super::*; %s }\nuse m%s::%s;" % (
                    fn, head.replace("fn " + fn, "pub fn " + fn, 1), fn, fn)
        else:
            self.items.append(head)
        # local variables named like the parameters, holding something else
        self.locals = {}
        args = []
        for a in spec["args"]:
            if a == "":
                args.append({"n": "", "x": self.argument("rest", depth)})
            else:
                p = by[a]
                args.append({"n": p["n"], "x": self.argument(p["pt"], depth)})
        plain = [p for p in sig if p["pt"] in ("S", "R")]
        if len(plain) > 1 and self.r.random() < 0.6:
            self.swap(args, plain)
        return {"k": "call", "fn": path, "sig": [{"n": p["n"], "rest": p["rest"], "def": p["def"], "wrap": bool(p.get("wrap"))} for p in sig],
                "args": args, "body": body, "comma": self.r.random() < 0.3}

    def swap(self, args, plain):
        """Gives plain arguments through local variables that have the names of other parameters."""
        if self.deny:
            return
        names = [p["n"] for p in plain]
        self.deny |= set(names)
        rot = names[1:] + names[:1]
        vals = {}
        for n in names:
            vals[n] = "local %s<" % n
            self.pre.append("let %s = %s;" % (n, rstr(vals[n])))
        for a in args:
            if a["n"] in names and a["x"]["k"] == "leaf":
                src = rot[names.index(a["n"])]
                a["x"] = {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": False, "src": src, "t": enc(vals[src])}


def calls_of(chk, params, args, faults="", sim=None, seed=0, kinds="req dfl dfx rest"):
    cfg = ("INIT Init\nNEXT Next\nCONSTANT MaxParams = %d\nCONSTANT MaxArgs = %d\nCONSTANT Kinds = %s\n"
           "CONSTANT Faults = %s\nINVARIANT Decides Binds Uses OrderFree Emit\n"
           % (params, args, tset(kinds), tset(faults)))
    if sim:
        t = tlc("Component", cfg, sim=sim, depth=4 * (params + args) + 8, seed=chk.seed * 1000 + seed, workers=1)
    else:
        t = tlc("Component", cfg, heap="8g")
    chk.count(t)
    out = sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})
    return [json.loads(x) for x in out]


def good(calls):
    return [c for c in calls if c["res"] == "ok"]


ROOTS = [lambda c: c, lambda c: el("main", c), lambda c: el("p", at("title", c), lf("x", "lit")),
         lambda c: {"k": "frag", "items": [c, lf("&", "lit")]}, lambda c: {"k": "classes", "items": [lf("k", "lit"), c]},
         lambda c: {"k": "wrap", "w": "block", "x": c}, lambda c: {"k": "wrap", "w": "fn", "x": c},
         lambda c: {"k": "wrap", "w": "letin", "x": c},
         lambda c: {"k": "if", "conds": [{"id": 9001, "b": True, "form": "b"}], "arms": [c]},
         lambda c: {"k": "match", "id": 9002, "v": 2, "form": "int", "arms": [
             {"any": False, "pats": [1], "gid": 0, "gb": True, "x": lf("no", "lit")},
             {"any": True, "pats": [], "gid": 0, "gb": True, "x": c}]}]


def case_of(no, seed, spec, calls, depth=1, nest=0.25, decl=False, lib=None):
    g = Gen(no, seed, calls, nest=nest, decl=decl)
    c = g.call(depth, spec)
    root = g.r.choice(ROOTS)(c)
    pre = "\n".join(g.pre)
    if lib is not None:
        lib += g.lib
    # items first: a statement may use what comes later, but locals shadow in order
    return Case({"lets": [], "root": root}, g.r.choice(["sep", "take"]), pre=pre, items="\n".join(g.items))
