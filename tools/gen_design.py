"""Refreshes the generated section (per property: oracle, bounds, cost) of /verif/DESIGN.md."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = {
 "C01": "closed-form ramps; torch's Sobol engine plus an independent equidistribution count; lfsr: set of states over a period. The lfsr's draws (initial state, polynomial) are not left to chance: the random draw is replaced so that every choice is visited.",
 "C02": "round-half-even in exact rational arithmetic.",
 "C03": "bit = (value > sequence[t mod length]) and window counts, sequence observed through the generator itself.",
 "C04": "quantiles by sorting and linear interpolation in double precision.",
 "C05": "automaton: withheld count 0..2^depth-1. Model: mc/models.py SkewedSync. States x words, ledger invariant.",
 "C06": "saturating accumulator automaton, plus the running-maximum law without any model.",
 "C07": "saturating accumulator automaton, plus floor((t+k)/2).",
 "C08": "accumulator automaton, a ledger check that infers the residue from outputs only, and a configured/runtime precedence table.",
 "C09": "two-index automaton over the observed random sequence; window counts.",
 "C10": "automaton: window content + two indices.",
 "C11": "queue automaton.",
 "C12": "two-state automaton; aliasing: returned tensors are re-read and overwritten.",
 "C13": "saturating counter automaton.",
 "C14": "saturating counter automaton over outputs; never-negative law.",
 "C15": "composition automaton built from the models of C05, C06, C07, C13 and the core's register model.",
 "C16": "composition automata of both modes and both structures.",
 "C17": "automaton per output (weight indices per batch item, bias index, accumulator).",
 "C18": "the C17 automaton on explicitly unfolded windows, padding as alternating bits.",
 "C19": "composition automaton of the C07-C10, C17 models; wrapper: encode, run 2^width cycles, decode.",
 "C20": "product table computed from the two sequences by counting; exponents by exact powers of two.",
 "C21": "exact products of rounded operands in double precision.",
 "C22": "digit-by-digit integer arithmetic.",
 "C23": "gradients of torch's own linear/conv2d on the unquantised values.",
 "C24": "round-half-even in double precision.",
 "C25": "gate equations in double precision; fixed-point variant rounds at the same points.",
 "C26": "piecewise-linear formulae; C07's automaton.",
 "C27": "normalise/clip and round in double precision.",
 "C28": "the framework's Conv2d/ConvTranspose2d output on zero tensors.",
 "C29": "count of ones in double precision.",
 "C30": "last-large-error cycle computed from counts.",
 "C31": "the stated formula on exact integer counts.",
 "C32": "the outputs of the same calls made alone, computed in a forked child before anything else happened.",
 "C33": "single-lane runs of the same component.",
 "C34": "the single-precision run of the same component.",
 "C36": "fresh instances driven with the same history in a pristine process.",
 "C37": "the same calls on contiguous tensors in a pristine process.",
 "C41": "a table of the documented rules (which values and combinations are legal); for calls, the outputs of an instance that never saw the refused call.",
"C40": "a fresh instance given the current parameters (bit-exact), a hand-kept model of parameters and gradient accumulation.",
 "C39": "the simulated components themselves (and integer counters for the counter-based circuits), composed with the registers of the circuit; the circuits run in mc/rtl.py, a vectorised cycle simulator of the sources.",
 "C38": "statistics in double precision, parsed from the printed text.",
 "C35": "real arithmetic with the stated error bounds.",
}
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    vals = {}
    for n in ast.parse(open(os.path.join(V, "mc", "checks", i.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "BOUNDS", "ASSUMPTIONS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("### %s %s" % (i, d["title"]))
    out.append("- Level: %s. Oracle: %s" % (vals["LEVEL"], ORACLE.get(i, "see the module")))
    out.append("- Enumerated (all of it, within these bounds): %s." % vals["BOUNDS"].rstrip("."))
    if vals.get("ASSUMPTIONS"):
        out.append("- Assumes: %s." % "; ".join(vals["ASSUMPTIONS"]))
    out.append("- Beyond the tests: %s" % d["why_tests_cant"])
    try:
        e = json.load(open(os.path.join(V, "evidence", i + ".json")))
        c = e["coverage"]
        out.append("- Measured (%s): %d cases, %s states, %s transitions, %s evaluations." % (e["tier"], c["cases"], c.get("states", "-"), c.get("transitions", "-"), c.get("evaluations", "-")))
    except OSError:
        pass
    out.append("")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
A, B = "<!-- generated: properties -->", "<!-- end generated -->"
h, r = s.split(A)
t = r.split(B)[1]
open(p, "w").write(h + A + "\n\n" + "\n".join(out) + B + t)
