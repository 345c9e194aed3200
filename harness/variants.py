"""The same bits through every element type, memory layout, shape and batch (C34)."""
import copy
from gen import ANY, FLOATS, accfit
from units import layouts

SHAPED = {"bi2uni", "uni2bi", "sync", "signabs", "relu", "shift", "jk", "add", "hsig", "htanh", "muls", "muli", "kern", "div",
          "sqrt", "bsgen", "scc", "progerr", "stab"}
KINDS = ["bsgen", "bi2uni", "sync", "signabs", "relu", "shift", "jk", "add", "hsig", "htanh", "muls", "muli", "kern", "div",
         "sqrt", "lin", "conv", "mgu", "progerr", "stab", "scc"]


def fits(c, name, d):
    k, cfg = c["kind"], c["cfg"]
    if k in ("bi2uni", "uni2bi"):
        return accfit(cfg["depth"], d)
    if k in ("sync", "signabs", "relu"):
        return accfit(cfg["depth"], d, 1)
    if k == "div":
        return True
    return d in FLOATS


def options(c):
    """legal element types per type parameter of this unit"""
    k, cfg = c["kind"], c["cfg"]
    o = {"stype": ANY, "itype": ANY, "btype": [d for d in ANY if fits(c, "btype", d)]}
    if k in ("shift", "sync", "div", "htanh"):
        del o["itype"]                          # the input must be of the stream type
    if k in ("shift", "jk", "htanh", "kern", "bsgen"):
        o.pop("btype")
    if k in ("muls", "muli"):
        w = c["py"]["rng"]["width"]
        o["rtype"] = [d for d in ANY if accfit(w, d, 1)]
    if k == "bsgen":
        o["rtype"] = [d for d in ANY if accfit(c["py"]["rng"]["width"], d, 1)]
        o["itype"] = ["long", "float", "int32"]
    if k in ("lin", "linpc", "conv", "convpc", "mgu"):
        o = {"itype": FLOATS if k.startswith("conv") else ["float", "double", "long", "int8"]}
    if k in ("progerr", "stab", "scc"):
        o = {"itype": ANY}
    return o


def shapes(c, n):
    s = layouts(n) + [[1, n, 1, 1], [1, 1, 1, n], [n, 1, 1, 1, 1]]
    if n == 1:
        s.append([])
    return s


def retype(g, c, opts, forced):
    v = copy.deepcopy(c)
    py = v["py"]
    for k, ds in opts.items():
        py[k] = forced.get(k) or g.pick(ds)
    if "itype" not in opts and "stype" in opts:
        py["itype"] = py["stype"]
    py["strided"] = g.r.randrange(3)
    py["case"] = g.r.randrange(3)
    n = v["lanes"]
    if v["kind"] in SHAPED and not (v["kind"] == "bsgen" and py.get("scalar") and False):
        old = len(py["shape"])
        py["shape"] = g.pick(shapes(c, n))
        if v["kind"] == "add":
            py["dima"] = g.r.randint(-len(py["shape"]) - 1, len(py["shape"]))
    v["id"] += "/variant"
    return v


def alone(c, stim, i):
    """lane i by itself"""
    v = copy.deepcopy(c)
    v["lanes"], v["lp"] = 1, [c["lp"][i]]
    if v["kind"] in SHAPED:
        v["py"]["shape"] = [1]
        if v["kind"] == "add":
            v["py"]["dima"] = 0
    v["id"] += "/alone"
    return v, [[x[i]] for x in stim]


def crowd(g, c, stim, times):
    """the same lanes repeated among permuted copies of themselves"""
    v = copy.deepcopy(c)
    n = c["lanes"]
    order = [i for _ in range(times) for i in range(n)]
    g.r.shuffle(order)
    v["lanes"], v["lp"] = len(order), [c["lp"][i] for i in order]
    if v["kind"] in SHAPED:
        v["py"]["shape"] = g.pick(shapes(c, len(order)))
        if v["kind"] == "add":
            v["py"]["dima"] = g.r.randint(-len(v["py"]["shape"]) - 1, len(v["py"]["shape"]))
    v["id"] += "/crowd"
    return v, [[x[i] for i in order] for x in stim]


def run_variants(run, bases, per_base, T=None):
    g = run.g
    for kind in KINDS:
        for _ in range(bases):
            c, s = getattr(g, kind)(T=T)
            s = s[:T] if T and kind not in ("progerr", "stab", "scc") else s
            if kind in ("scc", "progerr", "stab"):
                s = s[:T] + [[[1] for _ in range(c["lanes"])]]
            opts = options(c)
            # every value of every type parameter appears once, then random combinations
            plans = [{k: d} for k, ds in opts.items() for d in ds]
            g.r.shuffle(plans)
            plans = (plans + [{}] * per_base)[:per_base]
            for forced in plans:
                run.run_case(retype(g, c, opts, forced), s)
            for i in {0, c["lanes"] - 1}:
                a, sa = alone(c, s, i)
                run.run_case(a, sa)
            b, sb = crowd(g, c, s, 2 + g.r.randrange(2))
            run.run_case(b, sb)
