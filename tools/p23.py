"""P23: renderings are independent of each other."""
from vlib import *
from rustgen import *
from p05 import lf, el, at
from p17 import div
from p22 import calls, CALLS, COMPS

WHEAD = HEAD.replace("use verifrt::run::{run, Rt};\n", "use verifrt::weave::{run, Made};\n") + COMPS + """
/// User code in the middle of formatting.
struct Gd(u32, &'static str, &'static str);
impl std::fmt::Display for Gd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.1)?;
        verifrt::log::put(b'N', self.0 + 1, 0);
        f.write_str(self.2)
    }
}
fn gd(id: u32, a: &'static str, b: &'static str) -> Gd { note(id); Gd(id, a, b) }
"""


class S23(Src):
    def wrap(self, w, x):
        return CALLS[w] % self.node(x) if w.startswith("call") else Src.wrap(self, w, x)


def shown(i, a, b):
    """A value displayed in two parts, with user code between them."""
    txt = lambda t: {"k": "leaf", "id": 0, "r": False, "raw": False, "t": enc(t)}
    return {"k": "frag", "code": "disp!(gd(%d, %s, %s))" % (i, rstr(a), rstr(b)),
            "items": [txt(a), {"k": "iter", "id": i, "sep": "", "script": []}, txt(b)]}


def asked(i, sep, ts):
    return {"k": "iter", "id": i, "sep": enc(sep), "two": bool(sep), "style": "%s", "mac": "iter!(%s, %s)" if sep else "iter!(%s)",
            "script": [{"some": True, "t": enc(t)} for t in ts]}


def written():
    """Templates with user code in every kind of place."""
    big = "x" * 700 + "<" + "y\u00e9" * 40
    r = [el("p", lf("a<b", "ev", 1)), el("a", at("href", lf("?a&b", "ev", 1)), lf("t", "lit")),
         {"k": "frag", "items": [lf("1", "ev", 1), lf(big, "ev", 2), lf("3'", "ev", 3)]},
         el("p", shown(1, "a<", ">b"), lf("tail", "lit")), el("ul", lf("h", "lit"), asked(1, ", ", ["a<", "", "b"]), lf("f", "ev", 9)),
         el("p", at("class", {"k": "classes", "items": [lf("c", "lit"), lf("d\"", "ev", 1)]}), lf("\u20ac", "ev", 2)),
         {"k": "if", "conds": [{"id": 1, "b": False, "form": "b"}, {"id": 2, "b": True, "form": "b"}], "arms": [lf("no"), el("b", lf("yes", "ev", 3)), lf("no")]},
         el("p", lf("", "ev", 1)), lf("only & this", "ev", 1), shown(1, "", "&"), asked(1, "", [big, "&"]),
         el("p", {"k": "wrap", "w": "call", "x": lf("in", "ev", 1)}, {"k": "wrap", "w": "callrest", "x": lf("re", "ev", 2)})]
    return [{"lets": [], "root": x} for x in r] + [{"lets": [lf("v<", "ev", 1)], "root": el("p", {"k": "var", "v": 1}, lf("w", "ev", 2))}]


def pool(chk):
    k = 3 if chk.thorough else 1
    a = trees(chk, "lit ev ex plain raw", "se ee st sl", "el void frag classes if match", "el frag classes if", "flat wrap let do",
              8, 4, sim=400 * k, cap=60 * k, seed=3)
    rng = random.Random(chk.seed)
    out = []
    for t in written():
        for kind in ("take", "sep"):
            out.append((t, kind))
    for i, t in enumerate(a):
        t = Namer(chk.seed * 1000 + i).tree(t)
        t["root"] = calls(t["root"], rng, 0.15)
        out.append((t, ("take", "sep")[i % 2]))
    fs, specs = [], []
    for i, (t, kind) in enumerate(out):
        s = S23()
        b = ["let v%d = %s;" % (j + 1, s.node(x)) for j, x in enumerate(t["lets"])]
        m = s.node(t["root"])
        if kind == "take":
            many = t["root"]["k"] == "frag" and "code" not in t["root"] and len(t["root"]["items"]) > 1
            b.append("Made::Text(render!(%s))" % (s.items(t["root"]) if many else m))
        else:
            b.append("let m = %s;" % m)
            b.append("Made::Late(Box::new(move || render!(m)))" if i % 3 == 0 else
                     "Made::Into(Box::new(move |b| laby::Render::render(m, b)))")
        fs.append("fn f%d() -> Made {\n%s\n}\n" % (i + 1, "\n".join(b)))
        d = div(t)
        specs.append({"lets": slim(d["lets"]), "root": slim(d["root"]), "kind": kind})
    return fs, specs


CFG23 = ("INIT Init\nNEXT Next\nCONSTANT Threads = {%s}\nCONSTANT MaxInst = %d\nCONSTANT MaxOps = %d\nCONSTANT Design = \"%s\"\n"
         "CONSTANT Fail = %s\nCONSTANT Sample = %s\nINVARIANT Independent Stacked Once%s\n")


def cfg23(threads, inst, ops, design="own", fail=True, emit=True, sample=False):
    return CFG23 % (", ".join(str(t) for t in range(1, threads + 1)), inst, ops, design, "TRUE" if fail else "FALSE", "TRUE" if sample else "FALSE",
                    " Emit" if emit else "")


def pfile(name, specs):
    p = os.path.join(BUILD, "work", name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    write_ndjson(p, specs)
    return p


def run(chk):
    fs, specs = pool(chk)
    # schedules: every one of two renderings of small templates
    hists = []

    def schedules(sub, threads, inst, ops, sim=None, cap=None, seed=0, fail=True):
        pf = pfile("pool-%d-%d.ndjson" % (os.getpid(), seed), [specs[j] for j in sub])
        t = tlc("Weave", cfg23(threads, inst, ops, fail=fail, sample=bool(sim)), env={"POOL": pf}, sim=sim, depth=ops + 2 if sim else None,
                seed=chk.seed * 100 + seed if sim else None, workers=1 if sim else None, timeout=800, heap="8g")
        chk.count(t)
        got = sorted({json.dumps(x) for x in t.json_lines()})
        n = len(got)
        if cap and n > cap:
            got = random.Random(chk.seed * 17 + seed).sample(got, cap)
        for g in got:
            h = json.loads(g)
            for a in h:
                if a["op"] in "bz":
                    a["x"] = sub[a["x"] - 1] + 1
            hists.append(h)
        chk.notes.setdefault("schedules", []).append({"built": n, "used": len(got), "threads": threads, "renderings": inst,
                                                      "actions": ops, "mode": "simulate" if sim else "exhaustive"})
        os.unlink(pf)

    chk.log("schedules")
    k = 4 if chk.thorough else 1
    w = len(written()) * 2
    jobs = [([0, 1], 2, 2, 12, None, 1500 * k, 1), ([2, 7], 2, 2, 12, None, 600 * k, 2), ([6, 17], 2, 2, 12, None, 600 * k, 3), ([0, 7], 1, 3, 16, None, 900 * k, 4),
            (list(range(w)), 3, 4, 40, 800 * k, 700 * k, 5), (list(range(len(specs))), 3, 6, 80, 600 * k, 700 * k, 6),
            (list(range(w)), 1, 6, 60, 500 * k, 500 * k, 7), (list(range(len(specs))), 3, 10, 140, 400 * k, 400 * k, 8)]
    pmap(lambda j: schedules(j[0], j[1], j[2], j[3], sim=j[4], cap=j[5], seed=j[6]), jobs)
    # the schedules tell a text kept in the wrong place from one kept in the right place
    pf = pfile("pool-%d.ndjson" % os.getpid(), specs[:2])
    for d, wrong in (("pool", False), ("thread", True), ("process", True), ("leftover", True)):
        t = tlc("Weave", cfg23(2, 2, 12, d, emit=False), env={"POOL": pf}, ok=(0, 12))
        if (t.rc == 12) != wrong:
            raise ToolError("a text kept per %s: %s" % (d, t.text[-1500:]))
    os.unlink(pf)
    hists.sort(key=json.dumps)
    random.Random(chk.seed).shuffle(hists)
    pf = pfile("pool-%d.ndjson" % os.getpid(), specs)
    for prof in ("debug", "release"):
        rt = build_rt(prof)
        d = scratch("p23" + prof)
        src, exe = os.path.join(d, "p.rs"), os.path.join(d, "p")
        with open(src, "w") as f:
            f.write(WHEAD + "".join(fs) + "fn main() { run(&[%s]) }\n" % ", ".join("f%d" % (i + 1) for i in range(len(fs))))
        ok, diags = rustc(src, exe, rt)
        if not ok:
            chk.violation("a well-formed template does not compile", {
                "errors": [g.get("rendered", g["message"])[:800] for g in diags if g.get("level") == "error"][:4]})
            return
        hs = hists if prof == "debug" else hists[::4]
        parts = [hs[i::NCPU] for i in range(NCPU) if hs[i::NCPU]]
        chk.log("running %d schedules (%s)" % (len(hs), prof))

        def one(part):
            inp = "".join(";".join("%d %s %d" % (a["th"], a["op"], a["x"]) for a in h) + "\n" for h in part)
            try:
                rc, o, err = run_bin([exe], timeout=240, stdin=inp.encode())
            except Slow:
                return part, None, [], "no end"
            return part, rc, parse_lines(o), err

        recs, of = [], []
        for part, rc, got, err in pmap(one, parts):
            full = [g for g in got if "n" in g]
            if rc != 0 or len(full) != len(part):
                chk.violation("renderings at the same time do not end", {
                    "profile": prof, "exit": rc, "stderr": err[-400:], "schedule": part[min(len(full), len(part) - 1)]})
            for g in full:
                recs.append({"bad": g["bad"], "acts": g["acts"], "done": g["done"]})
                of.append(part[g["n"]])
                if not g["bad"] and len(g["acts"]) != len(part[g["n"]]):
                    recs[-1]["bad"] = "cut short"
        if not recs:
            continue
        # what was handed out must name what the schedule began: the rest is the machine's to say
        chk.log("validating %d records" % len(recs))
        rej = weave_validate(chk, recs, pf)
        for j in rej:
            h = of[j]
            begun = sorted({a["x"] for a in h if a["op"] in "bz"})
            chk.violation("a rendering is not what it is alone", {
                "profile": prof, "schedule": h, "observed": recs[j], "templates": {x: fs[x - 1] for x in begun[:4]}})
        for j in (0, len(recs) // 2):
            chk.sample({"schedule": " ".join("%d%s%d" % (a["th"], a["op"], a["x"]) for a in of[j])[:400],
                        "texts": [x["out"][:80] for x in recs[j]["done"]][:4]})
        chk.notes["schedules_" + prof] = len(recs)
    os.unlink(pf)


def weave_validate(chk, recs, pf):
    path = pfile("trace-weave-%d.ndjson" % os.getpid(), recs)
    t = tlc("WeaveTrace", "INIT TInit\nNEXT TNext\nINVARIANT Report\nCONSTANT Threads = {1, 2, 3, 4}\nCONSTANT MaxInst = 100\n"
            "CONSTANT MaxOps = 1000\nCONSTANT Design = \"own\"\nCONSTANT Fail = TRUE\nCONSTANT Sample = FALSE\n",
            env={"TRACE": path, "POOL": pf}, timeout=700, heap="6g", stack="512m")
    if t.distinct != 2 * len(recs):
        raise ToolError("WeaveTrace judged %d states for %d records\n%s" % (t.distinct, len(recs), t.text[-2000:]))
    chk.count(t)
    chk.traces += len(recs)
    os.unlink(path)
    return sorted({int(x) - 1 for x in t.tuples("REJ")})
