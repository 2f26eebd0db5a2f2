"""Writes /verif/MANIFEST.json from the check modules and the texts below."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "explicit-state exploration of a reference automaton, every history replayed on the implementation (conformance)"
ENUM = "exhaustive enumeration of the bounded input/configuration space on the implementation against an independent oracle"
INTER = "exhaustive interleaving exploration of the implementation against runs alone in a pristine process"
LANE = "exhaustive history enumeration, batched layouts against single-lane runs of the implementation"
T = {
 "C01": (ENUM, "all kinds x widths x dimensions x types; every lfsr seed/polynomial choice is enumerated by driving the random draws; sys permutations enumerated at small widths"),
 "C02": (ENUM, "every quarter step of every width up to 12, both modes, all types"),
 "C03": (ENUM, "all (value, cycle index) pairs over several periods for widths 1-8"),
 "C04": (ENUM, "all tensors over a small alphabet, all quantiles of a grid"),
 "C20": (ENUM, "full product tables by one-hot probing of the layers; the hybrid run itself is a table, so no schedule is involved"),
 "C21": (ENUM, "all operand values at sub-step resolution, all widths and rounding modes listed in BOUNDS"),
 "C22": (ENUM, "all integers/mantissas of the widths, all digit widths and cycle limits listed in BOUNDS"),
 "C23": (ENUM, "gradients are linear in the upstream gradient: one-hot upstream gradients span all of them"),
 "C24": (ENUM, "every eighth step of every format listed in BOUNDS"),
 "C25": (ENUM, "grids of input, hidden value and weights; fixed-point rounding compared up to one half step at ties"),
 "C27": (ENUM, "all small tensors and all call sequences listed in BOUNDS"),
 "C28": (ENUM, "all geometry combinations listed in BOUNDS, oracle: the framework's own layers"),
 "C32": (INTER, "schedules are call interleavings; the code has no threads"),
 "C33": (LANE, "no model is involved: layouts are compared with single lanes"),
 "C34": ("exhaustive history x data type enumeration against the single-precision run of the implementation", "all type pairs the component admits"),
 "C36": ("exhaustive exploration of snapshot points and of all interleavings of original and copy on the implementation, against runs of fresh instances in a pristine process", "the snapshot point plays the role of a crash point: every call boundary up to the bound"),
 "C37": ("exhaustive enumeration of all words of call modes and layouts on the implementation, against a plain run in a pristine process", "results are compared bit for bit"),
 "C38": (ENUM, "printed reports are parsed and compared with double-precision statistics"),
 "C41": ("exhaustive enumeration of configurations and of words with refused calls on the real classes, against a table of the documented rules", "a refusal is any exception; values outside the listed axes are not tried"),
 "C40": ("exhaustive exploration of operation words on the real layers against fresh layers with the same parameters", "parameters do not change between a call and its backward pass; fresh layers are judged by C20-C25"),
 "C39": ("exhaustive history enumeration of the circuit (cycle simulator of the sources) against the simulated components (product conformance)", "mc/rtl.py elaborates the sources of the working tree; a construct it does not support is reported as not covered"),
 "C35": (ENUM, "error bounds are the ones stated; operand grids are complete (thinned at widths 7-8 in quick)"),
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    f = os.path.join(V, "mc", "checks", d["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "BOUNDS"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    tech, note = T.get(d["id"], (MODEL, "finite-state model of the statement; every reachable model state (within bounds) extended by all words is replayed on the real code, cycle by cycle"))
    checks.append(dict(property=d["id"], quick_cmd="./check %s --tier quick" % d["id"], thorough_cmd="./check %s --tier thorough" % d["id"],
                       technique="model checking: " + tech, level=c["LEVEL"], level_note=note + ". Bounds: " + c["BOUNDS"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="No hooks: every observation is made through the public API. Known findings: known_findings.txt. Properties are generated by tools/gen_properties.py, this file by tools/gen_manifest.py."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
