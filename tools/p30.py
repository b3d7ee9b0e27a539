"""P30: what is configured out is as if it had not been written."""
from vlib import *
from rustgen import *

ON = ["all()", "unix", "target_os = \"linux\"", "not(windows)", "target_pointer_width = \"64\"", "any(unix, windows)", "panic = \"unwind\"", "true"]
OFF = ["any()", "windows", "target_os = \"macos\"", "not(unix)", "target_pointer_width = \"16\"", "all(unix, windows)", "test", "false"]
LINT = ["allow(unused)", "allow(clippy::all)", "warn(unused_variables)", "expect(unused_mut)"]
# texts that can be read, and mean nothing
JUNK = ["nope()", "no::where_to::be(1)", "nothing", "1 + \"a\"", "p!(1, missing!())", "unknown!(x y z)", "Nope { a: 1 }.b", "\"s\".no_such()",
        "br!(\"child\")", "classes!(x = 1)", "absent as u8", "bold!(y = 1)"]


class Write:
    def __init__(self, r, tag):
        self.r, self.tag, self.items, self.n = r, tag, [], 0

    def cond(self, c):
        op = c["op"]
        if op in ("on", "off"):
            return self.r.choice(ON if op == "on" else OFF)
        if op == "not":
            return "not(%s)" % self.cond(c["c"])
        return "%s(%s)" % (op, ", ".join(self.cond(x) for x in c["s"]) + self.r.choice(["", ","] if c["s"] else [""]))

    def attr(self, a):
        if a["a"] == "cfg":
            return "cfg(%s)" % self.cond(a["c"])
        if a["a"] == "cfg_attr":
            return "cfg_attr(%s, %s)" % (self.cond(a["c"]), self.attr(a["then"]))
        return self.r.choice(LINT[:3])

    def attrs(self, q):
        return "".join("#[%s]%s" % (self.attr(a), self.r.choice([" ", "\n"])) for a in q)

    def leaf(self, n):
        s = "<%d&" % n["id"]
        return {"str": self.r.choice(["\"%s\"", "\"%s\".to_string()", "given(\"%s\")"]) % s,
                "raw": "raw!(\"%s\")" % s, "num": self.r.choice(["%d", "%du8", "%d_i64", "given(%d)"]) % n["id"], "unit": self.r.choice(["()", "None::<u8>", "frag!()"]),
                "name": "Some(\"%s\")" % s, "junk": self.r.choice(JUNK)}[n["kind"]]

    def node(self, n):
        k = n["k"]
        if k == "leaf":
            return self.leaf(n)
        if k == "el":
            return "p!(%s)" % ", ".join(self.node(x) for x in n["items"])
        if k == "if":
            xs = [self.node(x) for x in n["items"]]
            # how many of the conditions hold does not matter, only which is first
            on = [j == n["v"] or j > n["v"] and self.r.random() < 0.5 for j in range(len(xs))]
            out = []
            for j, x in enumerate(xs):
                c = "cfg!(%s)" % self.r.choice(ON if on[j] else OFF)
                out.append("if %s { %s }" % (self.r.choice([c, "%s && pass(true)" % c]) if on[j] else c, x))
            if n["v"] == len(xs) - 1 and self.r.random() < 0.5 and len(xs) > 1:
                out[-1] = "{ %s }" % xs[-1]
            return "frag_match!(%s)" % " else ".join(out)
        if k == "block":
            out = []
            for x in n["items"]:
                if x["k"] == "let":
                    out.append("%slet w = %s;" % (self.attrs(x["attrs"]), self.node(x["items"][0])))
                elif x["k"] == "tail":
                    out.append(self.attrs(x["attrs"]) + self.r.choice(["{ %s }", "{ { %s } }", "if true { %s } else { unreachable!() }", "match () { () => %s }",
                               "unsafe { %s }", "loop { break { %s } }"]) % self.node(x["items"][0]))
                else:
                    out.append(self.node(x))
            return "{ %s }" % " ".join(out + (["w"] if n["items"][-1]["k"] == "let" else []))
        if k == "match":
            arms = []
            for x in n["items"]:
                p = {"any": ["_", "_n", "n @ _"], "zero": ["0", "-0..=0"], "one": ["1"], "low": ["0 | 1", "0..=1", "0..2"], "guard": ["n if n == 0", "_ if given(true) && given(%d) == 0" % n["v"]],
                     "big": ["1..=99", "1.."]}[x["pat"]]
                b = self.node(x["items"][0])
                arms.append("%s%s => %s," % (self.attrs(x["attrs"]), self.r.choice(p), self.r.choice([b, "{ %s }" % b])))
            return "frag_match!(match given(%d) { %s })" % (n["v"], " ".join(arms))
        assert k == "comp"
        self.n += 1
        name = "c%s_%d" % (self.tag, self.n)
        args = [x for x in n["items"] if x["k"] == "arg"]
        rest = [x for x in n["items"] if x["k"] != "arg"]
        vals = [self.node(x["items"][0]) for x in args]
        pos = self.r.randrange(len(args) + 1) if rest or self.r.random() < 0.7 else None
        for tag, q in (("b", n["attrs"]), ("i", None)):
            # the twin is there exactly where the first is not
            lines = [self.attrs(q) if q is not None else "#[cfg(%s)]\n" % self.opposite(n["attrs"]), "#[laby]\n"]
            if self.r.random() < 0.5:
                lines.reverse()
            params, body = [], []
            for i, x in enumerate(args):
                a = [self.attrs(x["attrs"])]
                d = {"given": "", "default": "#[default(%s)] ", "maybe": "#[cfg_attr(%s, default(%%s)%s)] " % (
                    self.r.choice(ON), self.r.choice(["", ", allow(unused)", ","]))}[x["pat"]]
                a.insert(self.r.randrange(2), d % vals[i] if d else "")
                params.append("%sa%d: %s" % ("".join(a), i, "impl Render" if x["on"] else self.r.choice(["Nope", "impl Render", "no::Where"])))
                body.append("let s%d = (); %slet s%d = a%d; " % (i, self.attrs(x["attrs"]), i, i))
            if pos is not None:
                params.insert(pos, "#[rest] r: impl Render")
            self.items.append("%sfn %s(%s) -> impl Render { %s%s!(%s) }" % ("".join(lines), name, ", ".join(params), "".join(body), tag,
                              ", ".join(["s%d" % i for i in range(len(args))] + ["r"] * (pos is not None))))
        given = ["a%d = %s" % (i, vals[i]) for i, x in enumerate(args) if x["on"] and x["pat"] == "given"]
        call = [self.node(x) for x in rest]
        for g in given:
            call.insert(self.r.randrange(len(call) + 1), g)
        return "%s!(%s)" % (name, ", ".join(call))

    def opposite(self, q):
        def of(a):
            if a["a"] == "cfg":
                return self.cond(a["c"])
            if a["a"] == "cfg_attr":
                return "any(not(%s), %s)" % (self.cond(a["c"]), of(a["then"]))
            return "all()"
        return "not(all(%s))" % ", ".join(of(a) for a in q)


def case(j, x, seed):
    w = Write(random.Random(seed), str(j))
    e = w.node(x["tree"])
    root = {"k": "leaf", "how": "src", "id": 0, "r": False, "raw": True, "src": "", "t": enc(x["text"])}
    return Case({"lets": [], "root": root}, "take", body="_rt.take(render!(%s));" % e, items="\n".join(w.items))


CFG30 = ("INIT Init\nNEXT Next\nCONSTANT Frames = %s\nCONSTANT Leaves = %s\nCONSTANT Lists = {%s}\nCONSTANT Pats = %s\n"
         "CONSTANT Values = {%s}\nCONSTANT MaxItems = %d\nCONSTANT MaxDepth = %d\nCONSTANT Slotting = \"%s\"\n"
         "INVARIANT Compiles SameText%s\n")
FR = "match arm el block let tail comp if arg"
LV = "str num unit junk raw name"
LS = ", ".join(map(str, range(20)))
PT = "any zero one low guard big"


def run(chk):
    k = 4 if chk.thorough else 1
    for s in ("bare", "shared"):
        t = tlc("Strip", CFG30 % (tset("match arm"), tset("str unit"), "0, 1, 2", tset("any zero"), "0, 1", 5, 2, s, ""), ok=(12,))
        if "Invariant Compiles is violated" not in t.text:
            raise ToolError("the specification does not notice slots that are " + s)
    def get(t):
        chk.count(t)
        return [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    # matches with every list of attributes; every shape of few nodes; larger ones
    one = get(tlc("Strip", CFG30 % (tset("match arm"), tset("str junk"), LS, tset("any zero guard"), "0, 1", 5, 2, "fallback", " Emit"), heap="8g"))
    three = get(tlc("Strip", CFG30 % (tset("match arm"), tset("str junk"), "0, 1, 2, 3", tset("any zero big"), "0, 1", 7, 2, "fallback", " Emit"), heap="8g"))
    two = get(tlc("Strip", CFG30 % (tset(FR), tset("str unit junk"), "0, 1, 2", tset("any zero"), "0, 1", 5, 3, "fallback", " Emit"), heap="8g"))
    big = []
    for i, (n, d) in enumerate(((9, 4), (14, 5), (20, 6))):
        big += get(tlc("Strip", CFG30 % (tset(FR), tset(LV), LS, tset(PT), "0, 1, 2", n, d, "fallback", " Emit"), sim=(3000, 3000, 2000)[i] * k,
                       depth=80, seed=chk.seed * 1000 + i, workers=1))
    has = lambda x: "\"match\"" in json.dumps(x["tree"]) or "\"comp\"" in json.dumps(x["tree"]) or "\"let\"" in json.dumps(x["tree"]) or "\"tail\"" in json.dumps(x["tree"])
    r = random.Random(chk.seed)
    big = [x for x in big if has(x)]
    comps = get(tlc("Strip", CFG30 % (tset("comp arg el"), tset("str junk"), "0, 1, 2, 10", tset("any"), "0", 5, 2, "fallback", " Emit"), heap="8g"))
    ends = get(tlc("Strip", CFG30 % (tset("block tail let el if"), tset("str unit junk"), "0, 1, 2, 3", tset("any"), "0", 5, 4, "fallback", " Emit"), heap="8g"))
    pick = r.sample(ends, min(len(ends), 300 * k)) + r.sample(one, min(len(one), 700 * k)) + r.sample(three, min(len(three), 400 * k)) + r.sample(two, min(len(two), 500 * k)) \
        + r.sample(comps, min(len(comps), 400 * k)) + r.sample(big, min(len(big), 1200 * k))
    chk.notes["trees"] = {"two_arms": len(one), "three_arms": len(three), "small": len(two), "ends_of_blocks": len(ends), "parameters": len(comps), "larger": len(big), "used": len(pick)}
    cases = [case(j, x, chk.seed * 100000 + j) for j, x in enumerate(pick)]
    what = "what is configured out still has an effect, or what is not has none"
    judge(chk, "p30", cases, "text", label=what, head=HEAD30)
    judge(chk, "p30d", cases[chk.seed % 5::5], "text", profiles=("decl",), label=what, head="#![feature(decl_macro)]\n" + HEAD30)


HEAD30 = HEAD + "fn given<T>(x: T) -> T { std::hint::black_box(x) }\n"
