"""writes MANIFEST.json from the checks that exist"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "runtime monitoring: randomised and stress workloads on the instrumented library, deciding oracle = online monitors of the observed values",
 "C15": "ThreadSanitizer over an instrumented OpenMP runtime with injected schedules, plus monitors comparing results across thread counts",
 "C16": "AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions under hostile arguments and mutated input files, plus state/leak monitors",
}
NOTE = {
 "default": "Exploration: every oracle listed in DESIGN.md held on every generated case of this run (counts in the evidence file); inputs that were not generated are not covered. Trusts the compiler, libm/GSL, numpy/scipy where used as reference, and the tolerances documented in DESIGN.md.",
 "C15": "Exploration: no data race was observed by ThreadSanitizer in the executed parallel regions (all synchronisation of the OpenMP runtime is modelled by our instrumented shim), and results agree for the tried numbers of threads; other schedules/inputs are not covered.",
 "C16": "Exploration: no sanitizer report, crash, hang or leak on the executed hostile calls and mutated files. Uninitialised reads are only seen when they influence results; GSL/GLPK/Python are not instrumented.",
}
NA = {
 "C16": "runtime monitoring applies (the ASan+UBSan variant of lib/vbuild.py exists for it; crashes and hangs met by the other checks are reported there), but the check with hostile calls and mutated files has not been completed; not claimed",
 "C20": "runtime monitoring applies (recorded mass and energy budgets), but the check of the Fokker-Planck and raga codes has not been completed; not claimed",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(V, "checks", i + ".py"))]
m = dict(version=1, setup_cmd="python3 lib/setup.py",
  hooks=dict(guard="AGAMA_VERIF", enable="lib/vbuild.py compiles every variant with -DAGAMA_VERIF", source_commits=[]),
  checks=[dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
     evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH["default"]), level="exploration",
     level_note=NOTE.get(i, NOTE["default"])) for i in have],
  not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in have],
  notes="See DESIGN.md. Repository hooks: none are needed so far (the guard is reserved); all monitors observe public interfaces.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
