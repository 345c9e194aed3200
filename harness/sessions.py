"""Performs the schedules of spec/Session.tla on real units (C33)."""
import copy, inspect, sys
import torch
from core import run_tlc, Machinery
import units

STREAM = ["bsgen", "bi2uni", "sync", "signabs", "relu", "shift", "jk", "add", "hsig", "htanh", "muls", "muli", "kern", "div",
          "sqrt", "lin", "conv", "mgu", "progerr", "stab", "scc"]
LAYER = ["rng", "bingen", "rawscale", "round", "hubact", "hublin", "fxplin", "tlutlin", "hubconv", "fxpconv", "tlutconv",
         "hubmgu", "hardmgu", "clipper"]


def schedules(ops, inst):
    r = run_tlc("Session", dict(ops=ops, inst=inst))
    if r["rc"] != 0:
        raise Machinery("Session: " + r["text"][-2000:])
    return sorted((p[1:] for p in r["printed"] if p[0] == "S"), key=repr), r


class Pool:
    """Hands equal configuration dictionaries and tensors of a session to constructors as one shared object,
    and remembers what they contained."""
    active = None

    def __init__(self):
        self.dicts, self.tensors, self.depth = [], [], 0

    def share(self, v):
        if isinstance(v, dict):
            for d, snap in self.dicts:
                if snap == v:
                    return d
            self.dicts.append((v, copy.deepcopy(v)))
        elif torch.is_tensor(v) and not isinstance(v, torch.nn.Parameter):
            for t, snap in self.tensors:
                if t.dtype == v.dtype and t.shape == v.shape and t.stride() == v.stride() and torch.equal(snap, v):
                    return t
            self.tensors.append((v, v.clone()))
        return v

    def changed(self):
        c = [str(s) + " became " + str(d) for d, s in self.dicts if d != s]
        return c + ["constructor tensor modified" for t, s in self.tensors if not torch.equal(t, s)]


def instrument(wrapper=None):
    """route the outermost constructor call of every UnarySim class through the active pool"""
    import UnarySim.kernel, UnarySim.kernel.utils, UnarySim.stream, UnarySim.metric.metric  # noqa
    seen = set()
    for name, m in list(sys.modules.items()):
        if not name.startswith("UnarySim") or m is None:
            continue
        for cls in list(vars(m).values()):
            if not inspect.isclass(cls) or not cls.__module__.startswith("UnarySim") or cls in seen or "__init__" not in vars(cls):
                continue
            seen.add(cls)
            (wrapper or wrap)(cls)


def wrap(cls):
    orig = cls.__init__
    try:
        sig = inspect.signature(orig)
    except ValueError:
        return
    defaults = {n: p.default for n, p in sig.parameters.items() if isinstance(p.default, dict)}

    def init(self, *a, **k):
        pool = Pool.active
        if pool is None or pool.depth:
            return orig(self, *a, **k)
        b = sig.bind(self, *a, **k)
        for n, v in list(b.arguments.items()):
            if n == "self":
                continue
            if n in defaults and v == defaults[n]:
                pool.dicts.append((defaults[n], copy.deepcopy(defaults[n]))) if not any(d is defaults[n] for d, _ in pool.dicts) else None
                b.arguments[n] = defaults[n]      # the shared default object itself
            elif n != "kwargs":
                b.arguments[n] = pool.share(v)
        pool.depth += 1
        try:
            return orig(*b.args, **b.kwargs)
        finally:
            pool.depth -= 1
    cls.__init__ = init


def usable(kind, x, fresh):
    if kind in ("progerr", "stab", "scc"):
        return not (fresh and x[0][0] == 1)
    return True


def perform(g, a, b, schedule, burst, garble):
    """a, b: (case, stimulus). Returns one recorded case per instance."""
    sched, cfgof, hist = schedule
    pool = Pool()
    ads, ticks, kept, dts = {}, {}, [], {}
    errs, imut, retro = {}, {}, {}
    src = {1: a, 2: b}
    touched = {}
    try:
        with torch.no_grad():
            for op, i, arg in sched:
                if op == "new":
                    Pool.active = pool
                    try:
                        ads[i] = units.adapter(src[arg][0])
                    except Exception as e:
                        errs[i] = "%s: %s" % (type(e).__name__, str(e)[:200])
                        ads[i] = None
                    finally:
                        Pool.active = None
                    touched[i] = False
                elif op == "copy":
                    try:
                        ads[i] = copy.deepcopy(ads[arg])
                    except Exception as e:
                        errs[i] = "deepcopy: %s: %s" % (type(e).__name__, str(e)[:200])
                        ads[i] = None
                    touched[i] = touched[arg]
                    if arg in errs:
                        errs[i] = errs[arg]
                else:
                    u = ads[i]
                    ticks[arg] = []
                    if u is None:
                        continue
                    case, stim = src[cfgof[i - 1]]
                    o = g.r.randrange(len(stim))
                    n = burst(stim)
                    if case["kind"] == "clipper":
                        pool_ = [s for s in stim if s[0]["w"] or not case["cfg"]["hasw"]]
                        pool_ = [s for s in pool_ if s[0]["b"] or not case["cfg"]["hasb"]] or [stim[0]]
                    else:
                        pool_ = stim
                    try:
                        for t in range(n):
                            x = pool_[(o + t) % len(pool_)]
                            if not usable(case["kind"], x, not touched[i]):
                                continue
                            ins = u.inputs(x)
                            snap = [v.clone() if torch.is_tensor(v) else v for v in ins]
                            r = u.call(ins)
                            ts = list(r) if isinstance(r, tuple) else [r]
                            touched[i] = True
                            ticks[arg].append(dict(i=x, o=u.outs(ts)))
                            d = dts.setdefault(i, [])
                            for j, v in enumerate(ts):
                                if (u.typed is None or j in u.typed) and units.dtname(v.dtype) not in d:
                                    d.append(units.dtname(v.dtype))
                            if garble:
                                if any(torch.is_tensor(v) and not torch.equal(v, s) for v, s in zip(ins, snap)):
                                    imut.setdefault(i, []).append(arg)
                                for v in list(ins) + ts:
                                    if torch.is_tensor(v):
                                        v.data.fill_(1 - int(v.reshape(-1)[0] if v.numel() else 0) & 1)
                            else:
                                kept.append((i, arg, ins, snap, ts, [v.clone() for v in ts if torch.is_tensor(v)]))
                    except Exception as e:
                        errs[i] = "%s: %s" % (type(e).__name__, str(e)[:200])
                        ads[i] = None
            for i, k, ins, snap, ts, cp in kept:
                if any(torch.is_tensor(v) and not torch.equal(v, s) for v, s in zip(ins, snap)):
                    imut.setdefault(i, []).append(k)
                if case_retro(src[cfgof[i - 1]][0]) and any(not torch.equal(v, s) for v, s in zip(ts, cp)):
                    retro.setdefault(i, []).append(k)
    finally:
        Pool.active = None
    ch = pool.changed()
    out = []
    for i, h in enumerate(hist, 1):
        case = src[cfgof[i - 1]][0]
        out.append(dict(id=case["id"] + "/session%d" % i, kind=case["kind"], cfg=case["cfg"], lanes=case["lanes"], lp=case["lp"],
                        err=errs.get(i, ""), xdt=case["py"].get("odt") or case["py"].get("stype", "float"), odt=dts.get(i, []),
                        xshape=[], oshape=[], retro=retro.get(i, []), imut=(ch if i == 1 else []) + imut.get(i, []),
                        steps=[s for k in h for s in ticks.get(k, [])],
                        py=dict(case["py"], session=dict(schedule=sched, instance=i, garble=garble))))
    return out


def case_retro(case):
    return case["kind"] not in ("progerr", "stab", "scc", "clipper", "bingen")


def run_sessions(run, per_kind, ops=7, inst=3):
    instrument()
    key = (ops, inst)
    if key not in getattr(run, "scheds", {}):
        s, r = schedules(*key)
        run.scheds = {key: s}
        run.states += r["states"]
        run.transitions += r["generated"]
        run.notes["schedules_enumerated"] = run.notes.get("schedules_enumerated", 0) + len(s)
    scheds = run.scheds[key]
    g = run.g
    for kind, n in per_kind.items():
        for k in range(n):
            a = getattr(g, kind)()
            m = g.r.randrange(3)
            if m == 0:
                b = a
            elif m == 1:
                b = getattr(g, kind)()
            else:
                b = getattr(g, g.pick(STREAM))()
            for c in (a, b):
                c[0]["py"].pop("late", None) if kind in ("add", "lin", "conv") else None
            # number sources and encoders hand out their own buffer by design
            garble = g.r.random() < .4 and not {a[0]["kind"], b[0]["kind"]} & {"rng", "bingen"}
            small = kind in LAYER
            burst = (lambda stim: 1 + g.r.randrange(2)) if small else (lambda stim: g.pick([1, 2, 5, 17]))
            sch = g.pick(scheds)
            with units.Guard():
                recs = perform(g, a, b, sch, burst, garble)
            for rec in recs:
                run.push(rec)
            run.notes["sessions"] = run.notes.get("sessions", 0) + 1
