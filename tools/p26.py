"""P26: values cannot change the structure of the document."""
from vlib import *
from rustgen import *

NASTY = ["<", ">", "&", "\"", "'", "</p>", "<b>", "<script>alert(1)</script>", "\"><script>", "\" onload=\"x", "' b='",
         "<!--", "-->", "--!>", "<!DOCTYPE html>", "<![CDATA[", "]]>", "<?x?>", "&lt;", "&amp;", "&#39;", "&quot;", "&amp;lt;",
         "&#60;", "&#x3c;", "&lt", "&copy", "&copy;", "&nbsp;", "&bogus;", "&", "&;", "&#", "&#;", "a&b=c", "/>", "=", "= \"",
         "`", " x=y ", "</title>", "</textarea>", "</script>", "</style >", "</SCRIPT>", "x", "plain", "\u00e9<\u20ac", "",
         "amp;", "lt;", "#39;", "quot;", "\u2028</p>", "\U0001f600\"", "0123456789abcdef\"", "0123456789abcde<f",
         "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'>", "<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<", "&&&&&&&&&&&&&&&&", "\" \" \" \" \" \" \" \" \" \"",
         "{{x}}", "javascript:alert('1')", "a\\\"b", "<svg/onload=x>", "<img src=x onerror=\"y\">"]
# ways to give a text as a value
GIVE = ["%s"] * 8 + ["String::from(%s)", "std::borrow::Cow::Borrowed(%s)", "Some(%s)", "disp!(%s)", "iter!(%s.chars())",
        "RenderDisplay(%s)", "iter!(\"\", %s.split(\"\"))", "frag!(%s)", "{ %s }.to_owned()", "iter!(vec![%s])",
        "Some(Some(%s.to_string()))", "disp!(%s.to_string())", "frag!((), %s, None::<u8>)"]
SEPS = ["", ", ", "-", " ", " | "]
# those whose content is read as text, with and without references
TEXTONLY = ("title", "textarea", "script", "style", "iframe", "noscript")
# names that are one name: no spaces, no =, no /
NAMES_LIT = ["data-x", "n", "aria-label", "x:y", "@click", "v.on", "viewBox", "a<b", "a\"b", "a'b", "a&b", "&lt;", "\">", "a>b", "_"]


class Hostile(Namer):
    def text(self):
        r = self.r
        t = r.choice(NASTY)
        while r.random() < 0.35:
            t += r.choice(NASTY)
        if r.random() < 0.1:
            t = r.choice(["x", "ab", "<", "&\""]) * r.randrange(1, 30) + t
        elif r.random() < 0.03:
            t = r.choice(["x", "ab ", "<x", "n&"]) * r.randrange(30, 200) + t
        return t

    def leaf(self, n):
        if n["how"] == "doc":
            return Namer.leaf(self, n)
        n["id"] = self.next() if n["id"] else 0
        t = "" if n["how"] == "empty" else self.text()
        n["t"] = enc(t)
        n["src"] = rstr(t) if n["how"] in ("lit", "empty") else self.r.choice(GIVE) % rstr(t)
        if n["how"] == "lit" and len(t) == 1 and self.r.random() < 0.7:
            n["src"] = {"'": "'\\''", "\\": "'\\\\'"}.get(t, "'%s'" % t)
        if n["how"] == "lit" and "\"##" not in t and t.isascii() and self.r.random() < 0.2:
            n["src"] = "r##\"%s\"##" % t

    def name(self, n):
        if n["k"] in ("id", "wrap", "do"):
            return Namer.name(self, n)
        self.leaf(n)
        t = self.r.choice(NAMES_LIT)
        n["src"], n["t"] = rstr(t), enc(t)

    def node(self, n, inside=""):
        Namer.node(self, n)
        if n["k"] == "el" and not n["void"] and self.r.random() < 0.3 and not has_markup(n["items"]):
            n["tag"] = self.r.choice(TEXTONLY)
        elif n["k"] == "el" and n["tag"] in TEXTONLY and has_markup(n["items"]):
            n["tag"] = "div"
        elif n["k"] == "frag" and self.r.random() < 0.3 and all(plain(x) for x in n["items"]) and n["items"]:
            # a list of values; all of one type
            s = self.r.choice(SEPS)       # separators are written as they are
            n.update(k="list", sep=enc(s), items=[dict(x, src=rstr(dec(x["t"])), how="ex", raw=False, r=False,
                                                       id=x["id"] or self.next()) for x in n["items"]],
                     style=self.r.choice(["[%s]", "vec![%s]", "vec![%s].into_iter().map(|x| x)"]))


def plain(x):
    return x["k"] == "leaf" and x["how"] != "doc"


def has_markup(x):
    if isinstance(x, list):
        return any(has_markup(y) for y in x)
    if isinstance(x, dict):
        return x.get("k") in ("el", "var") or x.get("how") == "doc" or any(has_markup(y) for y in x.values())
    return False


def everywhere(chk):
    """Every hostile text in every place of every kind."""
    out = []
    leaf = lambda t, how: {"k": "leaf", "how": how, "id": 1 if how == "ev" else 0, "r": how == "ev", "raw": False,
                           "t": enc(t), "src": rstr(t)}
    attr = lambda v: {"k": "attr", "name": {"k": "id", "src": "id", "s": "id"}, "flag": "no", "id": 0, "b": False, "val": v}
    el = lambda tag, *x: {"k": "el", "tag": tag, "void": tag in VOID, "items": list(x)}
    cls = lambda *x: {"k": "classes", "items": list(x)}
    for i, t in enumerate(NASTY):
        for how in ("lit", "plain", "ev"):
            a = leaf(t, how)
            out.append(el("div", attr(a), a, el("br", attr(a)), leaf("amp;lt;", "lit"), el("p", a), a))
        a = leaf(t, "plain")
        out.append({"k": "frag", "items": [el(x, attr(cls(a, leaf("x", "lit"), a)), a, a) for x in TEXTONLY] + [a]})
        out.append(el("p", attr({"k": "frag", "items": [a, leaf("b", "lit"), a]}), {"k": "frag", "items": [a, a]}))
    return [Case({"lets": [], "root": x}, ("sep", "take")[i % 2]) for i, x in enumerate(out)]


def run(chk):
    k = 4 if chk.thorough else 1
    t = tlc("MCReading", "INIT Init\nNEXT Next\nCONSTANT Most = %d\nINVARIANT Steady Exact Whole\n" % (4 if chk.thorough else 3),
            stack="256m", timeout=800)
    chk.count(t)
    cfg = CFG % (tset("lit ev empty none doc"), tset("sl se ll sx s1 st s0 lf"), tset("el void frag classes if match"),
                 tset("el frag"), tset("flat let"), 5 if chk.thorough else 4, 3, "FALSE")
    chk.count(tlc("MCReadTree", cfg.replace("Means Emit", "Reads"), stack="256m", timeout=850, heap="8g"))
    a = trees(chk, "lit ev none doc", "sl se st", "el void frag", "el void frag", "flat", 4, 3, cap=500 * k, seed=1)
    b = trees(chk, "lit ev ex none plain plit empty", "sl se ll le ee lx st sf s1 s0 et pl", "el void frag classes if match",
              "el frag", "flat wrap let do", 20, 6, sim=2000 * k, cap=900 * k, seed=2)
    cases = everywhere(chk) + [Case(Hostile(chk.seed * 100000 + i).tree(x), ("sep", "take")[i % 2]) for i, x in enumerate(a + b)]
    rt = build_rt("debug")
    chk.log("compiling and running %d templates" % len(cases))
    obs, notes = programs(chk, "p26", cases, rt)
    report_notes(chk, notes, cases)
    recs, idx = records(cases, obs)
    chk.log("reading back %d records" % len(recs))
    for j in validate(chk, "ReadingTrace", recs, heap="8g", stack="1g"):
        chk.violation("what is read back is not the template", {
            "source": cases[idx[j]].source("c"), "observed": recs[j]["obs"][:2]})
    for j in (0, len(recs) // 2, len(recs) - 1):
        if recs:
            chk.sample({"source": cases[idx[j]].source("c")[:700], "out": recs[j]["obs"][0]["out"][:300]})
    chk.notes["templates_debug"] = len(recs)
