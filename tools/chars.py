"""Every character through the operations that write text, judged by spec/Chars.tla."""

from vlib import *

# operations that take text, in every frame (see harness/rt/src/bin/chars.rs); others take the character
FRAMES = ["", "@pre", "@post", "@mid", "@long", "@far"]
BUFFER = ["push", "write_char", "write_fmt", "write_one"] + [
    o + f for o in ("push_str", "write_str", "add_assign", "from_str", "from_string", "clone", "into_string") for f in FRAMES]
RAW = [o + f for o in ("raw", "raw_string", "raw_cow") for f in FRAMES]
SCAN = [o + f for o in ("escape", "escape_str") for f in FRAMES]
COOKED = [o + f for o in ("str", "string", "cow", "args_str") for f in FRAMES]
VALUE = ["char", "cow_char", "some", "frag", "iter", "str", "string", "cow"]
FORMAT = ["args", "args_one", "args_pad", "disp", "args_str"]
PLAIN = {o.split("@")[0] for o in BUFFER + RAW}


def sweep(chk, ops, modes, what, profiles=("release",)):
    rts = {p: build_rt(p) for p in profiles}
    jobs = [(p, m, op) for p in profiles for m in modes for op in ops]
    chk.log("sweeping all characters through %d operations" % len(jobs))
    res = pmap(lambda j: run_bin([rts[j[0]].bin("chars"), str(j[1]), j[2]], timeout=800), jobs)
    recs, seen = [], {}
    for j, (rc, out, err) in zip(jobs, res):
        runs = list(parse_lines(out))
        if rc != 0 or not runs or runs[-1]["lo"] != -1:
            chk.violation("the process ended while writing characters", {
                "profile": j[0], "cpu_mode": j[1], "operation": j[2], "exit": rc, "stderr": err[-400:]})
            continue
        chk.notes["characters_written"] = chk.notes.get("characters_written", 0) + runs[-1]["total"]
        runs = runs[:-1]
        if len(runs) > 400:    # far more than any correct sweep has
            runs = runs[:400]
        r = {"esc": j[2].split("@")[0] not in PLAIN, "runs": runs}
        key = json.dumps(r)
        if key in seen:
            seen[key].append(j)
            continue
        seen[key] = [j]
        recs.append(r)
    keys = [json.dumps(r) for r in recs]
    for i in validate(chk, "Chars", recs):
        odd = [x for x in recs[i]["runs"] if x["what"] != "self" and not (recs[i]["esc"] and x["lo"] in (34, 38, 39, 60, 62))]
        chk.violation(what, {"seen_in": ["%s/mode %s/%s" % j for j in seen[keys[i]]][:10],
                             "first_unexpected": odd[:3] or recs[i]["runs"][:12]})
