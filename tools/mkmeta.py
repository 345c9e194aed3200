BASE = "TLA+ state machine checked with TLC; recorded executions of the real module validated against it; transition tours replayed"
TECH = {
    "*": BASE,
    "C01": "TLA+ operational definition of every source checked with TLC (permutation, block balance, run order); sequences read from RNG validated against it",
    "C23": "TLA+ gradient equations of the unquantised layer; gradients recorded from backward() validated against them by TLC",
    "C33": "TLA+ session model (create/step/deep-copy): TLC enumerates schedules and proves isolation on them; each is performed on real units and every lineage validated against the unit's machine",
    "C34": "each recorded execution is repeated in other element types, shapes, layouts and company; every variant validated by TLC against the same TLA+ machine",
    "C35": "TLA+ model of legal configurations and their echo: TLC walks the configuration space, every configuration is constructed on the real code and its verdict compared",
    "C39": "TLA+ redraw process (TLC: settled elements are kept, every vector in band and no other is reachable); real results validated by TLC against the band and the shares of the truncated normal",
    "C38": "TLA+ machine of a metric and its printed report (exact statistics over integers); TLC enumerates small metric histories, whose tours and random reports of the real functions are parsed and validated against it",
    **{c: "TLA+ register machines of the RTL modules (Rtl) explored by TLC, with clauses tying them to the functional machines; transition tours and random clocked executions of the .sv sources, run in a SystemVerilog simulator of our own, validated against them"
       for c in ("C41", "C42", "C43")},
    "C40": "TLA+ chain rule of activations and gated cells on exact dyadics (Gradients); every operand of a coarse grid and random backward passes of the real modules validated by TLC",
    "C37": "TLA+ table of documented defaults walked by TLC over all subsets of omitted arguments; real units built with the omissions are validated against the machine with the documented values",
    "C36": "TLA+ composition of encoder, unit machine and decoder run for a full period: TLC checks the error bounds for every operand (pair) of small widths, real chains must give the exact count",
}
NOTE = {"*": "TLC explores the unit's state machine exhaustively in small configurations and checks the property's history clauses there; every transition found is "
             "replayed on the real module, and randomly configured executions of the real module are accepted only if each step is a step of the same "
             "machine. Assurance on the code is as good as the executions observed; trusts TLC, torch on CPU and the adapters in harness/.",
        "C23": "No exhaustive model: the gradient equations are evaluated by TLC on recorded backward passes over random dyadic operands, formats, geometries and requires_grad sets.",
        "C33": "Schedules of 7 operations over at most 3 instances are enumerated exhaustively by TLC and sampled per unit; longer interleavings are not covered.",
        "C34": "Variants are sampled per unit and execution; the machine they must match is the one checked in the unit's own property.",
        "C35": "All configurations reachable by changing at most two fields (thorough: a sample of three) of a base configuration per unit, with the listed values of each field.",
        "C39": "Shares are compared within nine standard deviations of a binomial and only for 200 elements or more.",
        "C38": "Standard deviations and RMS values are compared to 1/2048 (relative errors 1/64), cycle counts and source denominators are powers of two up to 16, relative errors are asked for only where the decoded value is not 0 or the error is 0.",
        **{c: "No RTL simulator is installed: the sources run in harness/sv.py (two-state, cycle based, random power-up values, self-tested); a construct it does not "
              "know ends the check without a verdict. Default and 1-16 deep parameters." for c in ("C41", "C42", "C43")},
        "C40": "Hard gates are compared to 2^-16, soft gates to 2^-6; a case with an operand exactly at the edge of a clamp is left open.",
        "C37": "The table of defaults is finite and complete for the public classes; executions of each default unit are sampled (accumulator depths are driven to saturation).",
        "C36": "Bounds are exhaustive for widths 2-3 (thorough 5), sampled up to width 10; low-discrepancy clauses only for Sobol-coded weights."}
NA = {}
