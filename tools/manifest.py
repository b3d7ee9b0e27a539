"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC"
CLAIMED = {
 "P01": (T + "; texts generated from it escaped by the real code on every processor level; recorded outputs validated by a TLC trace specification",
   "The scanners are model-checked for no missed and no doubled byte at scaled and real vector widths; the binding to the code is by replay (a sample of the infinite input space, structured around vector borders). CPU levels are imitated through a patched raw-cpuid."),
 "P02": (T + " over processor levels and thread interleavings; recorded selections and racing first calls validated by a TLC trace specification",
   "All interleavings of the model for up to 3 threads; the real races are sampled. Instruction sets are judged from which routine runs at each reported level."),
 "P03": (T + "; histories it generates are replayed on the real Buffer and each recorded step is validated by a TLC trace specification",
   "Every transition of one small buffer and every short history of two, random longer ones of three; replay in debug and release builds."),
 "P04": (T + " and Apalache (inductive capacity arithmetic over all machine integers); histories replayed under a guarding allocator, steps validated by a TLC trace specification",
   "Capacity arithmetic proved in the model for all 64-bit values; memory rules of the code observed by red zones, poisoning and quarantine on replayed histories."),
 "P05": (T + " (template machine refining its meaning); templates it enumerates compiled against the real macros, outputs validated by a TLC trace specification",
   "All template shapes up to the stated size are enumerated on the model and compiled; larger ones are sampled. Every one of the 115 tag macros is exercised."),
 "P06": (T + " (composition modes of the same template have one meaning); templates it enumerates compiled in every mode, outputs validated by a TLC trace specification",
   "All shapes up to the stated size in each composition mode, starting from four different buffer states."),
 "P07": (T + " (numeral and literal denotation with exact big-number arithmetic); literals it enumerates compiled, outputs validated by a TLC trace specification",
   "Spellings enumerated by kind, radix, sign, suffix and placement; the value space is sampled around boundaries."),
 "P08": (T + " (construct/render event order as refinement of the denotation); templates it enumerates compiled with recording probes, event logs validated by a TLC trace specification",
   "All template shapes up to the stated size; construct-time and render-time events compared separately and in order."),
 "P09": (T + "; attribute forms and condition values it enumerates compiled, outputs and events validated by a TLC trace specification",
   "Every combination of attribute name form, marker form and value up to the stated number of attributes."),
 "P10": (T + "; if/match shapes it enumerates compiled and run with every condition outcome, outputs and events validated by a TLC trace specification",
   "All chains and matches up to the stated number of arms and nesting."),
 "P13": (T + "; iterator scripts (including items after the end signal) it enumerates replayed on the real wrappers, event logs validated by a TLC trace specification",
   "All scripts up to the stated length in every wrapper form."),
 "P18": (T + "; joins and nestings it enumerates compiled, outputs validated by a TLC trace specification",
   "All nestings up to the stated size."),
 "P19": (T + " (information-flow: only raw leaves reach the output unescaped); templates it enumerates compiled with hostile values, outputs validated by a TLC trace specification",
   "Every value kind in every position up to the stated size."),
 "P14": (T + " (big-number decimal semantics of integers and IEEE floats: shortest text that reads back); values rendered by the real code, texts validated by a TLC trace specification",
   "All 8- and 16-bit integers; wider ones, floats and characters sampled around boundaries (all characters in the thorough tier). The shortest-text rule is decided exactly per float by the specification."),
 "P15": (T + " (pieces written one by one commute with escaping); scripted Display values and format strings it enumerates rendered by the real code, outputs validated by a TLC trace specification",
   "Piece sequences up to the stated length; ordinary std formatting sampled over some eighty format strings, their text taken from std."),
 "P16": (T + " (allocation steps, doubling growth, logarithmic bound); allocations counted by a global allocator around templates it enumerates, validated by a TLC trace specification",
   "All template shapes up to the stated size, outputs up to megabytes."),
 "P17": (T + " (machine with failing steps refining its meaning); templates with failures at every point it enumerates run under unwinding, records validated by a TLC trace specification",
   "All failure points of all shapes up to the stated size; drops, leaks and memory rules observed per run."),
 "P11": (T + " (signature/call/binding machine: decides, binds, order-free); components and calls it enumerates compiled, event logs and outputs validated by a TLC trace specification",
   "All signatures and calls up to the stated number of parameters and arguments; nested and composed calls sampled."),
 "P12": (T + " (expansion machine deciding which templates and calls are well-formed); templates and calls it enumerates given to the real compiler, accept/reject compared with the specification's verdict",
   "Every fault kind at every nesting position up to the stated size; only the verdict is compared, never the wording of a diagnostic."),
 "P20": (T + " (scope machine: generated names never capture user names); name/kind/position combinations compiled and run, outputs validated by a TLC trace specification",
   "Some seventy names in every kind of binding; every pair of name, kind and position covered, combinations sampled."),
 "P21": (T + " (the same call machine as P11); components compiled with the decl_macro feature, called near, by path and from another crate, event logs validated by a TLC trace specification",
   "Needs the nightly compiler installed here; same bounds as P11."),
 "P22": (T + " (the same template machine, where any step may leave the enclosing body); templates it enumerates compiled inside functions, loops, blocks, closures and async tasks, event and drop logs validated by a TLC trace specification",
   "All shapes of a few items with a leaving expression at every point, larger ones sampled; every position in fourteen kinds of enclosing body."),
 "P23": (T + " (many renderings interleaved, nested, failing, on ending threads; designs with shared state refuted by it); schedules it generates replayed on real threads stopped at every point where user code runs, runs validated by a TLC trace specification",
   "All schedules of two or three renderings of small templates, sampled ones of up to ten on three threads; threads change hands only where a template runs user code (races inside laby's own code are P02's)."),
 "P24": (T + " (what generated paths and methods resolve to in a surrounding; every other style of mentioning things refuted by it); surroundings it enumerates compiled around every construct, outputs validated by a TLC trace specification",
   "Every pair of surrounding features and every common name alone for every construct, combinations sampled; lints are those of the installed compiler."),
 "P25": (T + " (expression trees with substituted parts, their tokens and what the tokens mean when read back; losing the grouping refuted by it); expressions and templates it generates compiled with parts handed through macro_rules macros, outputs validated by a TLC trace specification",
   "All expressions of up to four nodes on the model, a sample of them and of larger ones compiled in some sixty places; a fixed table of fragment kinds."),
 "P26": (T + " (the HTML standard's tokenizer as a machine and the tokens a template means; reading the rendering of any template gives them back); templates it enumerates filled with hostile texts, compiled and run, their outputs read back by the tokenizer in a TLC trace specification",
   "Closed-language lemma for all texts over the critical characters up to the stated length; all small templates on the model; larger templates and texts sampled. Only the references laby may write and a few more are decoded."),
 "P27": (T + " (types taken apart layer by layer down to the values held; a template never adds a demand nor lifts one); templates it enumerates around values of twenty-one kinds given to the real compiler with each possible use, accept/reject compared with the specification's verdict, and run, texts validated by a TLC trace specification",
   "Every kind of value in every place; two and three deep sampled. Threads, sharing, keeping and outliving blocks and statements are judged; other traits (Unpin, UnwindSafe) are not."),
 "P28": (T + " (templates laid out token by token with free line breaks; expansion moves expressions and keeps their places; reparsing generated text refuted by it); templates it lays out compiled and run with probes that report their line and column, mistakes and malformed calls located by the compiler, all validated by a TLC trace specification",
   "All one-item templates in two gap styles, sampled larger ones in five; one mistake or flaw per template. Diagnostics are judged by position only, never by wording."),
 "P29": (T + " (pieces scanned once and copied behind what is there, doubling growth; scanning again, scanning ahead and fixed or exact growth refuted by it); instructions counted while the real code renders over a hundred kinds of content at growing sizes, validated by a TLC trace specification",
   "About 170 workloads, the escaping ones under each scanner, sizes from 4 KiB to 128 KiB (512 KiB in the thorough tier). Only growth is judged, never speed."),
 "P30": (T + " (templates with conditional attributes expanded, then configured, then run; every slot keeps a type and the text is that of the tree without what was removed; bare and shared slots refuted by it); trees it enumerates compiled in both component modes, outputs validated by a TLC trace specification",
   "All small matches under twenty lists of attributes, small templates of every shape, sampled larger ones; conditions are spelled with settings the build platform has or lacks."),
 "P31": (T + " (a store of variables with what the compiler knows to be moved or borrowed at each point; values evaluated into fields and slots, then rendered, against one pass over the tree; matching a copy, evaluating when rendering and considering one branch only refuted by it); behaviours it enumerates compiled and run, text and variables afterwards validated by a TLC trace specification",
   "Five variables of different kinds and a shared cell; all short sequences, small matches with every way of binding and small chains; sampled larger ones. Whether code that must be rejected is rejected is not judged here."),
 "P32": (T + " (wrappers as values: contents on a heap, with cells that clones share, against wrappers that are their content; sharing, rewinding, early rendering and half assignment refuted by it); histories it enumerates and simulates replayed on the real wrappers with observable contents, text and contents alive after every step validated by a TLC trace specification",
   "All histories of three operations on two wrappers, sampled; long ones of up to 24 operations on up to four wrappers. What Debug prints is judged only for containing what the content prints."),
}
NA = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in CLAIMED:
        NA[p] = "check under construction"
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 -B tools/check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 -B tools/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking",
                 "level_note": n} for p, (t, n) in sorted(CLAIMED.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: everything is observed through public and doc-hidden API, a patched copy of the raw-cpuid dependency (vendor/) and a guarding global allocator in the harness."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
