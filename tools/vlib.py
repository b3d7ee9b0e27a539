"""Shared machinery of the checks: builds, TLC runs, verdicts, evidence. Standard library only."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
RT = os.path.join(VERIF, "harness", "rt")
NCPU = os.cpu_count() or 4

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "RUSTUP_TOOLCHAIN": "stable",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "CARGO_INCREMENTAL": "0",
    "RUSTC_WRAPPER": "",
    "RUSTFLAGS": "-Awarnings",
    "RUST_BACKTRACE": "0",
    "LC_ALL": "C.UTF-8",
})
for _v in ("CARGO_TARGET_DIR", "JAVA_TOOL_OPTIONS", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(_v, None)

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check could not do its work: exit 2."""


class Slow(ToolError):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None, ok=(0,)):
    e = dict(ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Slow("timed out after %ss: %s" % (timeout, " ".join(cmd)[:300]))
    if ok is not None and p.returncode not in ok:
        raise ToolError("exit %s: %s\n%s\n%s" % (
            p.returncode, " ".join(cmd)[:300],
            p.stdout.decode("utf8", "replace")[-3000:], p.stderr.decode("utf8", "replace")[-3000:]))
    return p


# ---------------------------------------------------------------- builds

def repo_hash():
    """Digest of every source file the crates are built from."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "Cargo.lock", "laby", "laby_common", "laby_macros"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, dn, fs in os.walk(p) for f in fs
            if "/target" not in d)
        for f in files:
            if "/tests/" in f:
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, dn, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


class Rt:
    """The harness crate, built in one profile against /repo."""

    def __init__(self, profile, target, externs):
        self.profile = profile
        self.target = target
        self.externs = externs
        self.deps = [os.path.join(target, "deps")]
        self.env = {}
        self.meta = {}

    def bin(self, name):
        return os.path.join(self.target, name)


_rt = {}


def build_rt(profile="debug", features=None):
    """Builds harness/rt (and so laby itself) from the current tree."""
    if profile in _rt:
        return _rt[profile]
    tdir = os.path.join(BUILD, "target" if profile != "decl" else "target-decl")
    env = {"RUSTUP_TOOLCHAIN": "nightly"} if profile == "decl" else {}
    with Lock():
        stamp = os.path.join(BUILD, "stamp-" + profile)
        now = repo_hash() + tree_hash(RT + "/src", RT + "/Cargo.toml", VERIF + "/vendor")
        out = os.path.join(tdir, "debug" if profile == "decl" else profile)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            for fp in (os.path.join(out, ".fingerprint"), os.path.join(out, "build")):
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(("laby", "verif", "raw-cpuid")):
                            shutil.rmtree(os.path.join(fp, d))
            if os.path.exists(stamp):
                os.unlink(stamp)
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json",
               "--manifest-path", os.path.join(RT, "Cargo.toml"), "--lib", "--bins"]
        if profile == "release":
            cmd.append("--release")
        if profile == "decl":
            cmd = cmd[:-2] + ["--lib"]
            cmd[cmd.index(os.path.join(RT, "Cargo.toml"))] = os.path.join(VERIF, "harness", "decl", "Cargo.toml")
        p = sh(cmd, timeout=800, env=dict(env, CARGO_TARGET_DIR=tdir), ok=None)
        if p.returncode != 0:
            raise ToolError("the harness does not build against /repo:\n"
                            + p.stderr.decode("utf8", "replace")[-4000:])
        ext, meta, dirs = {}, {}, set()
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                name = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    dirs.add(os.path.dirname(f))
                    if f.endswith((".rlib", ".so")):
                        ext[name] = f
                    elif f.endswith(".rmeta"):
                        meta[name] = f
        with open(stamp, "w") as f:
            f.write(now)
    r = Rt(profile, out, ext)
    r.env = env
    if profile == "decl":
        r.meta = meta
        r.deps = sorted(dirs)
    _rt[profile] = r
    return r


def rustc(src, out, rt, opt=None, emit="link", externs=("laby", "verifrt"), extra=(),
          env=None, timeout=600, edition="2021"):
    """Compiles one generated program; returns (ok, diagnostics)."""
    cmd = ["rustc", "--edition", edition, "-Awarnings", "--error-format=json",
           "--crate-name", re.sub(r"\W", "_", os.path.basename(src)[:-3]),
           "-C", "panic=unwind", "-C", "debuginfo=0",
           "--emit=" + emit, "-o", out, src]
    for x in rt.deps:
        cmd += ["-L", "dependency=" + x]
    for e in externs:
        cmd += ["--extern", "%s=%s" % (e, rt.externs[e])]
        if e in rt.meta:
            cmd += ["--extern", "%s=%s" % (e, rt.meta[e])]
    if opt is None:
        opt = "3" if rt.profile == "release" else "0"
    cmd += ["-C", "opt-level=" + opt]
    if rt.profile != "release":
        cmd += ["-C", "debug-assertions=on"]
    cmd += list(extra)
    p = sh(cmd, timeout=timeout, env=dict(rt.env, **(env or {})), ok=None)
    diags = []
    for line in p.stderr.decode("utf8", "replace").splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    if p.returncode != 0 and not any(d.get("level") == "error" for d in diags):
        raise ToolError("rustc failed without a diagnostic: "
                        + p.stderr.decode("utf8", "replace")[-2000:])
    return p.returncode == 0, diags


def scratch(name):
    d = os.path.join(BUILD, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, text, states, distinct):
        self.rc = rc
        self.text = text
        self.states = states
        self.distinct = distinct
        self.lines = text.splitlines()

    def json_lines(self):
        for l in self.lines:
            if l.startswith('"{') or l.startswith('"['):
                yield json.loads(json.loads(l))

    def tuples(self, tag):
        pre = '<<"%s", ' % tag
        for l in self.lines:
            if l.startswith(pre) and l.endswith(">>"):
                yield l[len(pre):-2]


_tlc_n = [0]


def tlc(module, cfg, name=None, env=None, workers=None, timeout=600, sim=None, depth=None,
        seed=None, extra=(), heap="4g", stack="64m", ok=(0,), nocheck_deadlock=True):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    _tlc_n[0] += 1
    d = os.path.join(BUILD, "tlc", "%s-%d-%d" % (name or module, os.getpid(), _tlc_n[0]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss" + stack,
           "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + d,
           "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
           "-config", cfgf, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers or NCPU)]
    if nocheck_deadlock:
        cmd.append("-deadlock")
    if sim is not None:
        cmd += ["-simulate", "num=%d" % sim]
        if depth:
            cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed), "-fp", "0"]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    p = sh(cmd, timeout=timeout, env=env, cwd=d, ok=None)
    text = p.stdout.decode("utf8", "replace")
    if ok is not None and p.returncode not in ok:
        raise ToolError("TLC on %s ended with %s:\n%s\n%s" % (
            module, p.returncode, text[-6000:], p.stderr.decode("utf8", "replace")[-2000:]))
    st = ds = 0
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", text):
        st, ds = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        st = max(st, int(m.group(1)))
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return Tlc(p.returncode, text, st, ds or st)


def write_ndjson(path, items):
    with open(path, "w") as f:
        for i in items:
            f.write(json.dumps(i, separators=(",", ":")))
            f.write("\n")


# ---------------------------------------------------------------- verdicts

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.exhaustive = None
        self.rng = random.Random(self.seed * 7919 + int(pid[1:]))
        self.known = load_known(pid)

    def count(self, t):
        """Adds a model-checking run to the coverage."""
        self.states += t.distinct
        self.transitions += t.states
        return t

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, data):
        self.violations.append((what, data))

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def finish(self):
        new = []
        for what, data in self.violations:
            if what in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
            else:
                new.append((what, data))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if new:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "data": d} for w, d in new[:50]], f, indent=1, default=str)
            for w, d in new[:5]:
                self.log("violation: %s %s" % (w, json.dumps(d, default=str)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        self.log("held: states=%d transitions=%d traces=%d" % (
            self.states, self.transitions, self.traces))
        return 0


def load_known(pid):
    """Descriptions of recorded, unrepaired findings. 'fixed:' entries suppress nothing."""
    out = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(P\d+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.add(m.group(2))
    return out


def pmap(f, xs, n=None):
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))


def enc(s):
    """The injective ASCII encoding the drivers use (see harness/rt/src/out.rs)."""
    b = s if isinstance(s, bytes) else s.encode("utf8")
    out = []
    for c in b:
        if c == 0x5c:
            out.append("\\\\")
        elif 0x20 <= c <= 0x7e:
            out.append(chr(c))
        else:
            out.append("\\x%02x" % c)
    return "".join(out)


def dec(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def validate(chk, module, records, consts="", heap="4g", stack="512m", timeout=700, env=None):
    """Runs a trace specification of the kind `one step per record' over the records and returns
    the indices (from 0) it rejects. Every record must have been judged."""
    if not records:
        return []
    path = os.path.join(BUILD, "work", "trace-%s-%d-%d.ndjson" % (module, os.getpid(), _tlc_n[0]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    write_ndjson(path, records)
    e = {"TRACE": path}
    if env:
        e.update(env)
    t = tlc(module, "INIT Init\nNEXT Next\nINVARIANT Report\n" + consts, env=e,
            timeout=timeout, heap=heap, stack=stack)
    if t.distinct != 2 * len(records):
        raise ToolError("%s judged %d states for %d records\n%s" % (
            module, t.distinct, len(records), t.text[-2000:]))
    chk.count(t)
    chk.traces += len(records)
    rej = sorted({int(x) - 1 for x in t.tuples("REJ")})
    if os.environ.get("VERIF_KEEP") is None:
        os.unlink(path)
    return rej


def run_bin(cmd, timeout=600, env=None, stdin=None):
    """Runs a driver; returns (return code, stdout text, stderr text)."""
    p = sh(cmd, timeout=timeout, env=env, stdin=stdin, ok=None)
    return (p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"))


def parse_lines(text):
    out = []
    for l in text.splitlines():
        if l.startswith("{"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def apalache(chk, module, init, inv, length, expect=True, timeout=600):
    """Checks spec/<module>.tla with Apalache; the specification itself must satisfy `inv'."""
    _tlc_n[0] += 1
    d = os.path.join(BUILD, "apalache", "%s-%d-%d" % (module, os.getpid(), _tlc_n[0]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    p = sh(["apalache-mc", "check", "--init=" + init, "--inv=" + inv, "--length=%d" % length,
            "--out-dir=" + d, os.path.join(SPEC, module + ".tla")], timeout=timeout, cwd=d, ok=None,
           env={"JVM_ARGS": "-Xmx4g"})
    text = p.stdout.decode("utf8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    if "NoError" not in text or p.returncode != 0:
        raise ToolError("Apalache on %s (%s => %s): %s" % (module, init, inv, text[-3000:]))
    chk.notes.setdefault("apalache", []).append("%s: %s => %s (length %d)" % (module, init, inv, length))
