"""P12: malformed templates and calls are rejected at compile time, well-formed ones accepted."""
import os
from vlib import *
from rustgen import *
from comp import calls_of, Gen, alike

DEFS = """
#[laby] fn c0() -> impl Render { "c0" }
#[laby] fn c1(a: impl Render) -> impl Render { a }
#[laby] fn c2(#[default("d")] a: impl Render, href: impl Render) -> impl Render { div!(a, href) }
#[laby] fn cr(#[rest] r: impl Render, #[default("d")] a: impl Render) -> impl Render { div!(r, a) }
#[laby] fn crr(a: impl Render, #[rest] r: impl Render, #[default(())] href: impl Render) -> impl Render { div!(a, r, href) }
mod names { pub const PATH: &str = "path"; }
const LIST: [&str; 1] = ["listed"];
"""
ASNAMES = {"?path": "names::PATH", "?lit": "\"lit\"", "?index": "LIST[0]", "?call": "pass(\"call\")"}
# the same names as places in scope, which Rust would let be assigned a number
PLACES = "let (mut href, mut a, mut zz, mut list, mut two) = (0, 0, 0, [0], (0, 0)); "
ASPLACES = {"?path": "two.0", "?lit": "list[0]", "?index": "two.1", "?call": "*&mut zz"}
ONE = {"raw": "raw!(render!(%s))", "block": "{ let q = %s; q }", "closure": "(|| %s)()", "branch": "frag_match!(if 1 < 2 { %s })",
       "arm": "frag_match!(match 1 { 1 => %s, _ => 0u8 })", "iter": "iter!([%s])", "disp": "disp!(render!(%s))",
       "let": "{ let q = Some(%s); q.unwrap() }", "fn": "pass_render(%s)", "tuple": "(1, %s).1", "vec": "iter!(vec![%s])"}
LEAVES = ["\"t\"", "5", "'c'", "x", "()", "x.to_string()", "Some(x)", "{ x }", "raw!(x)", "1 + 1", "if x == \"x\" { 1 } else { 2 }"]
MARKS = ["bool!(true)", "bool!(false)", "bool!(x == \"x\")"]
# types of parameters, and arguments for them
TYPES = {"impl Render": ["\"v\"", "5", "div!(\"x\")", "v"], "Option<u8>": ["None", "Some(5u8)"],
         "core::option::Option<&'static str>": ["None", "Some(v)"], "bool": ["true", "1 < 2"], "u32": ["5", "v.len() as u32"],
         "&'static str": ["\"v\"", "v"], "String": ["v.to_string()", "String::new()"], "()": ["()", "{}"],
         "Vec<u8>": ["vec![]", "Vec::from([1])"], "impl Sized + Default + Render": ["\"\"", "0u8"],
         "Result<(), ()>": ["Ok(())", "Err(())"], "[u8; 2]": ["[1, 2]", "[0; 2]"], "Box<dyn Fn() -> u8>": ["Box::new(|| 3)"],
         "(u8, Option<()>)": ["(1, None)", "Default::default()"], "Option<Option<bool>>": ["None", "Default::default()"],
         "std::borrow::Cow<'static, str>": ["v.into()", "std::borrow::Cow::Borrowed(v)"]}
REST2 = ["#[laby] fn crest2(#[rest] r: impl Render, #[rest] q: impl Render, #[default(1)] a: impl Render) -> impl Render { div!(r, q, a) }",
         "#[laby] fn crest2(#[rest] r: impl Render, #[default(1)] a: impl Render, #[rest] q: impl Render) -> impl Render { div!(r, q, a) }"]


class Source:
    def __init__(self, r, places=False):
        self.r = r
        self.places = places
        self.items = []

    def node(self, n):
        k = n["k"]
        if k == "leaf":
            return self.r.choice(["5", "1 + 1", "7"] if self.places else LEAVES)
        if k == "mark":
            return self.r.choice(MARKS)
        if k in ONE:
            return ONE[k] % self.node(n["items"][0]["x"])
        items = ", ".join(self.item(i) for i in n["items"])
        if items and self.r.random() < 0.2:
            items += ","
        if k == "el":
            return "%s!(%s)" % (self.r.choice(NORMAL), items)
        if k == "void":
            return "%s!(%s)" % (self.r.choice(VOID), items)
        if k == "crest2" and not self.items:
            self.items.append(self.r.choice(REST2))
        return "%s!(%s)" % (k, items)

    def item(self, i):
        if i["as"] == "child":
            return self.node(i["x"])
        name = (ASPLACES if self.places else ASNAMES).get(i["as"], i["as"])
        if i["flag"]:
            return "%s = %s" % (name, self.r.choice(MARKS))
        return "%s = %s" % (name, self.node(i["x"]))


def compile_all(rt, name, head, sources, per=None, extra=()):
    """Compiles functions one per source; returns {index: message} of those with an error of their
    own. What others' errors may have hidden is compiled again without them."""
    d = scratch(name)
    errors = {}
    per = per or max(20, (len(sources) + NCPU - 1) // NCPU)
    rounds = 0

    def one(job):
        base, idx = job
        src = os.path.join(d, "r%d_%d.rs" % (rounds, base))
        lines = head.count("\n")
        starts = []
        with open(src, "w") as f:
            f.write(head)
            for i in idx:
                t = sources[i]
                starts.append(lines + 1)
                lines += t.count("\n")
                f.write(t)
            f.write("fn main() {}\n")
        ok, diags = rustc(src, src[:-3] + ".rmeta", rt, emit="metadata", extra=extra)
        bad, stray = {}, []
        for dg in diags:
            if dg.get("level") != "error":
                continue
            hit = False
            for l in lines_of(dg):
                js = [j for j, s in enumerate(starts) if s <= l]
                if js:
                    bad.setdefault(idx[js[-1]], dg["message"])
                    hit = True
            if not hit:
                stray.append(dg["message"])
        return idx, ok, bad, stray

    todo = list(range(len(sources)))
    while todo:
        chunks = [(i, todo[i:i + per]) for i in range(0, len(todo), per)]
        todo = []
        rounds += 1
        for idx, ok, bad, stray in pmap(one, chunks):
            errors.update(bad)
            if not ok:
                if not bad:
                    raise ToolError("compile errors outside every template: %s" % stray[:5])
                todo += [i for i in idx if i not in bad]
    return errors, rounds


def run(chk):
    k = 4 if chk.thorough else 1
    cfg = ("INIT Init\nNEXT Next\nCONSTANT Frames = %s\nCONSTANT Marks = %s\nCONSTANT Names = %s\n"
           "CONSTANT MaxItems = %d\nCONSTANT MaxDepth = %d\nINVARIANT Decides Emit\n")
    comps = "c0 c1 c2 cr crr crest2"
    frames = "el void frag classes render " + comps + " " + " ".join(ONE)
    names = "href a zz ?path ?lit ?index ?call"
    t = tlc("Reject", cfg % (tset(frames), tset("leaf mark"), tset(names), 2 if k == 1 else 3, 3), heap="8g")
    chk.count(t)
    all2 = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    t = tlc("Reject", cfg % (tset("el void frag classes branch block c1 cr"), tset("leaf mark"), tset("a zz"), 3 if k == 1 else 4, 3),
            heap="8g")
    chk.count(t)
    few = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    t = tlc("Reject", cfg % (tset("el void frag classes branch block iter " + comps), tset("leaf mark"), tset("href a zz ?lit"), 9, 4),
            sim=9000 * k, depth=40, seed=chk.seed * 1000 + 1, workers=1)
    chk.count(t)
    big = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    t = tlc("Reject", cfg % (tset(frames), tset("leaf mark"), tset("href a ?call"), 7, 7),
            sim=9000 * k, depth=40, seed=chk.seed * 1000 + 2, workers=1)
    chk.count(t)
    big += [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in t.json_lines()})]
    r = random.Random(chk.seed)
    ok = [x["tree"] for x in all2 if x["ok"]]
    no = [x["tree"] for x in all2 if not x["ok"]]
    bok = [x["tree"] for x in big if x["ok"]]
    # one fault each: another would hide that this one goes unnoticed
    bno = [x["tree"] for x in big if x["faults"] == 1]
    fno = [x["tree"] for x in few if x["faults"] == 1]
    chk.notes["templates"] = {"small": len(all2), "small_malformed": len(no), "large_sampled": len(big), "large_one_fault": len(bno),
                              "three_items": len(few), "three_items_one_fault": len(fno)}
    ok = r.sample(ok, min(len(ok), 2500 * k)) + r.sample(bok, min(len(bok), 700 * k))
    no = r.sample(no, min(len(no), 3000 * k)) + r.sample(bno, min(len(bno), 1500 * k)) + r.sample(fno, min(len(fno), 3000 * k))
    chk.log("%d well-formed, %d malformed" % (len(ok), len(no)))
    rt = build_rt("debug")

    def source(j, tree, seed, bad=False):
        s = Source(random.Random(seed), bad and j % 2 == 0)
        e = s.node(tree)
        return "fn w%d(x: &'static str) { %s%s let _ = %s; }\n" % (j, PLACES if s.places else "", " ".join(s.items), e)

    sources = [source(j, t, chk.seed * 100000 + j) for j, t in enumerate(ok)]
    errors, _ = compile_all(rt, "p12ok", HEAD + DEFS, sources)
    for i, m in sorted(errors.items())[:20]:
        chk.violation("a well-formed template or call is rejected", {"source": sources[i], "error": m})
    chk.log("well-formed compiled")
    bad = [source(j, t, chk.seed * 100000 + 50000 + j, True) for j, t in enumerate(no)]
    errors, rounds = compile_all(rt, "p12no", HEAD + DEFS, bad)
    for i in [i for i in range(len(bad)) if i not in errors][:20]:
        chk.violation("a malformed template or call is accepted", {"source": bad[i]})
    chk.notes["rounds"] = rounds
    chk.traces += len(ok) + len(no)
    msgs = {}
    for m in errors.values():
        msgs[m] = msgs.get(m, 0) + 1
    chk.notes["messages"] = dict(sorted(msgs.items(), key=lambda x: -x[1])[:12])
    for s in (sources[0], sources[-1], bad[0], bad[-1]):
        chk.sample(s)
    # signatures and calls of every shape
    calls_check(chk, rt, k)


def calls_check(chk, rt, k, head=HEAD, name="p12c"):
    calls = calls_of(chk, 3, 3, "unknown name", seed=3)
    r = random.Random(chk.seed + 5)
    good = [c for c in calls if c["res"] == "ok"]
    bad = [c for c in calls if c["res"] != "ok"]
    good = r.sample(good, min(len(good), 1200 * k))
    bad = r.sample(bad, min(len(bad), 2500 * k))
    out = []
    for j, c in enumerate(good + bad):
        rr = random.Random(chk.seed * 100000 + j)
        ps, tys, ns = [], [], rr.sample("a b c title x t1 rest".split(), len(c["sig"]))
        if ns and rr.random() < 0.35:
            ns = rr.sample([ns[0]] + [x for x in dict.fromkeys(alike(ns[0])) if x not in ("v", "w")], len(ns))
        other = [x for n in ns for x in alike(n) if x not in ns] or ["nope"]
        # what is left over goes to markup, or to a function that takes anything at all
        left = sum(a == "" or a.startswith("?") for a in c["args"])
        rest = rr.choice(["#[rest]", "#[rest]", "#[rest(w)]"])
        more = "fn w(%s) -> &'static str { \"w\" }" % ", ".join("_%d: impl Sized" % i for i in range(left)) if "(" in rest else ""
        if left == 1 and more and rr.random() < 0.5:
            rest, more = "#[rest(core::convert::identity)]", ""
        for n, kd in zip(ns, c["sig"]):
            ty = rr.choice(sorted(TYPES))
            tys.append(ty)
            ps.append({"req": "%s: " + ty, "dfl": "#[default] %s: Option<u8>", "dfx": "#[default(\"d\")] %s: impl Render",
                       "rest": rest + (" %s: &'static str" if "(w" in rest else " %s: impl Render")}[kd] % n)
        args = []
        for a in c["args"]:
            if a == "":
                args.append(rr.choice(["\"v\"", "5", "div!(\"x\")", "{ 7 }", "v"]))
            elif a.startswith("?"):
                args.append({"?unknown": rr.choice(["nope", "r#self_", rr.choice(other), rr.choice(other)]),
                             "?name": rr.choice(["names::PATH", "\"title\"", "LIST[0]", "(a)", "v.x", "5", "a()", "list[0]", "two.0", "(nope)", "_", "*&mut nope"])}[a] + " = 5")
            else:
                i = int(a[1:]) - 1
                args.append("%s = %s" % (ns[i], rr.choice(["None", "Some(5u8)"]) if c["sig"][i] == "dfl"
                                         else rr.choice(TYPES[tys[i]] if c["sig"][i] == "req" else TYPES["impl Render"])))
        call = "k%d!(%s)" % (j, ", ".join(args))
        call = rr.choice(["%s", "%s", "div!(%s)", "frag_match!(if 1 < 2 { %s })", "iter!([%s])", "p!(title = %s)", "(|| %s)()",
                          "frag!(\"a\", b!(%s))"]) % call
        out.append("fn w%d() { #[laby] fn k%d(%s) -> impl Render { (%s); \"k\" } %s let v = \"v\"; let mut nope = 0; "
                   "let mut list = [0]; let mut two = (1, 2); let _ = %s; }\n"
                   % (j, j, ", ".join(ps), "".join(x + ", " for x in ns), more, call))
    errors, _ = compile_all(rt, name + "ok", head + DEFS, out[:len(good)])
    for i, m in sorted(errors.items())[:20]:
        chk.violation("a well-formed template or call is rejected", {"source": out[i], "error": m})
    errors, _ = compile_all(rt, name + "no", head + DEFS, out[len(good):])
    for i in [i for i in range(len(bad)) if i not in errors][:20]:
        chk.violation("a malformed template or call is accepted", {"source": out[len(good) + i], "why": bad[i]["res"]})
    chk.traces += len(out)
    chk.notes["calls"] = {"accepted": len(good), "rejected": len(bad)}
    chk.sample(out[-1])
