"""Writes /verif/MANIFEST.json from the checks that exist (run by hand after editing)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
T = {
 "C01": "runtime reference-model monitor: every evaluated point against independently derived closed forms with rounding bounds",
 "C02": "runtime reference-model monitor: OSA/ANSI radial polynomials by recurrence, rejection of invalid indices observed",
 "C03": "runtime monitor: exact 0/1 indicator oracle with undecidable band of one rounding at the rim, under parameter histories",
 "C04": "differential runtime monitor: random expression programs on profiles against pointwise evaluation of the same expression",
 "C05": "differential runtime monitor: random transform chains against substituted coordinates",
 "C06": "history monitor: random assign/evaluate/derive histories against a model of current parameters",
 "C07": "runtime reference-model monitor over grids of random devices and paddings, metamorphic consistency of the grids",
 "C08": "runtime reference-model monitor over accepted kinds of profile (array, tensor, number, profile), types and planes",
 "C09": "runtime reference-model monitor: every mirror against the Lee formula with explicit Fourier sums, NaN sanitizing",
 "C10": "runtime monitor: order separation by phase stepping, field of the order against the target; metamorphic laws of eta",
 "C11": "trace monitor on the tapped random source (draw by draw) plus statistical monitor over repeated untapped calls",
 "C12": "runtime monitor: executed IFTA against a float64 run of the documented rounds, determinism, quality oracle",
 "C13": "trace monitor on the tapped random source: executed GS against a float64 run; untapped image quality oracle",
 "C14": "trace monitor on the tapped random source: executed MRAF against a float64 run; untapped window quality oracle",
 "C15": "runtime reference-model monitor: every field point against direct Fourier sums; conservation of power",
 "C16": "history monitor: random propagate/clear/block/change histories over several simulations against a model",
 "C17": "history monitor: random sequences of state edits against a model of the mirrors",
 "C18": "runtime monitor: packed bytes decoded bit by bit by an independent reader over sizes and states",
 "C19": "runtime monitor in fresh library instances: precision choice histories, type and accuracy sanitizer on all results",
 "C20": "runtime monitor: decomposition of known maps against the exact discrete sums, linearity and index bijection",
 "C21": "alias sanitizer: byte snapshots of every argument and returned array, poisoned afterwards, over random call sequences",
 "C22": "differential history monitor: fresh-process results against those after and between other computations",
 "C23": "fault injection at every eager operation, compiled call and transform, and invalid-call tables, with state snapshot monitor",
 "C24": "thread monitor: single preemption at every library line, noise-injected stress, serial results as oracle",
 "C25": "fault injection at every hardware call of emulated controllers with a call recorder",
 "C26": "history monitor: emulated ALP device model, displayed frames against loaded images",
 "C27": "history monitor: emulated Luxbeam interpreting the uploaded sequencer, displayed frames against a model",
 "C29": "memory monitor: tracked objects, resident memory and weak references over blocks of repetitions and generations of dropped objects",
 "C28": "runtime monitor: images read back glyph by glyph by an independent reader",
}
N = {
 "C25": "Trusts the emulation of the vendor API in vf/fakes.py (written from the calls' documented meaning); no real hardware.",
 "C26": "Trusts the ALP emulation in vf/fakes.py (sequence memory, trigger and timing modes as documented for ALP-4); no real hardware.",
 "C27": "Trusts the Luxbeam sequencer emulation in vf/fakes.py; no real hardware.",
 "C11": "Statistical part has a false alarm probability below 1e-9 per run and a fixed seed; the tapped part is exact up to rounding.",
 "C29": "Growth below a third of one field, or 30 tracked objects, per repetition is not judged; memory inside TensorFlow is seen only as resident memory of the process.",
 "C24": "Single preemptions at line granularity inside pySLM2's Python code, plus free-running stress; TensorFlow's own native code is trusted.",
 "C23": "Faults are injected where Python enters the TensorFlow runtime and in numpy's FFT; faults inside one native kernel appear as faults of its call.",
}
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    f = os.path.join(ROOT, "vf", "checks", p.lower() + ".py")
    if not os.path.exists(f): continue
    src = open(f).read()
    level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in src else "exploration"
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "technique": T[p], "level": level,
                   "level_note": "Held on the executions counted in the evidence, on the real code in both precisions where they differ; nothing is claimed for inputs not driven. "
                                 + N.get(p, "Trusts the float64 reference in vf/ref.py and vf/opt.py and its rounding bounds; values within those bounds of a threshold are not judged.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: all instrumentation (random source tap, fault points, emulated drivers, preemption tracer) is installed from outside. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [p for p in props if p not in {c["property"] for c in checks}])
