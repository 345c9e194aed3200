"""Constructs every configuration spec/Config.tla enumerates and compares accept/reject and the reported fields (C35)."""
import json, random
import torch
from core import run_tlc, Machinery, THOROUGH, SEED
from units import DT

KINDS = ["rng", "rawscale", "bingen", "bsgen", "add", "hsig", "mul", "kern", "div", "sqrt", "linpc", "lin", "convpc", "conv", "mgu",
         "hublin", "hubconv", "fxplin", "fxpconv", "tlutlin", "tlutconv", "progerr", "stab", "clipper", "mgucall", "shiftcall", "lincall"]
NIN, NOUT = 3, 2


def nm(v):
    s, c = v
    return s if c == 0 else s.upper() if c == 1 else s.capitalize()


def none(v):
    return None if v == -1 else v


def val(sh):
    return torch.linspace(-0.5, 0.75, steps=max(1, int(torch.tensor(sh).prod()))).reshape(sh)


def wten(s, rows, cols, conv=False):
    sh = {"ok": [rows, cols], "transposed": [cols, rows], "short": [rows - 1, cols], "wide": [rows, cols + 1]}.get(s)
    if sh is None:
        return None
    return val([sh[0], 1, 1, sh[1]]) if conv else val(sh)


def bten(s, n):
    return val([{"ok": n, "short": n - 1, "long": n + 1}[s]])


def q(v):
    return v // 4 if v % 4 == 0 else v / 4


def build(kind, c):
    import UnarySim.stream as S
    import UnarySim.kernel as K
    import UnarySim.kernel.linear as L
    import UnarySim.kernel.conv as C
    from UnarySim.metric.metric import ProgError, Stability
    n = {k: nm(v) for k, v in c.items() if isinstance(v, list)}
    if kind == "rng":
        return S.RNG({"width": c["width"], "dimr": c["dimr"], "rng": n["rng"]}, {"rtype": torch.float})
    if kind == "rawscale":
        return S.RawScale({"quantile": q(c["quantile"])})
    if kind == "bingen":
        return S.BinGen(val([4]), {"width": c["width"], "mode": n["mode"]}, {"rtype": torch.float})
    if kind == "bsgen":
        return S.BSGen(torch.ones(3), torch.arange(c["len"]).float(), {"stype": torch.float})
    if kind == "add":
        return K.FSUAdd({"mode": n["mode"], "scale": none(c["scale"]), "dima": c["dima"], "depth": c["depth"], "entry": none(c["entry"])},
                        {"btype": torch.float, "stype": torch.float})
    if kind == "hsig":
        return K.FSUHardsigmoid({"mode": n["mode"], "scale": 2, "dima": 0, "depth": c["depth"], "entry": 2}, {"btype": torch.float, "stype": torch.float})
    if kind == "mul":
        return K.FSUMul(val([3]) if c["prob"] else None, {"width": c["width"], "mode": n["mode"], "static": c["static"], "rng": n["rng"], "dimr": c["dimr"]},
                        {"btype": torch.float, "rtype": torch.float, "stype": torch.float})
    if kind == "kern":
        return K.CORDIV_kernel({"entry": c["entry"], "rng": n["rng"], "dimr": c["dimr"]}, {"stype": torch.float})
    if kind == "div":
        return K.FSUDiv({k: n.get(k, c[k]) for k in ("depth_sa", "depth_ss", "entry_kn", "mode", "rng", "dimr")}, {"stype": torch.float, "btype": torch.float})
    if kind == "sqrt":
        return K.FSUSqrt({k: n.get(k, c[k]) for k in ("mode", "jk_trace", "emit", "entry_kn", "entry_sr", "rng", "dimr")}, {"stype": torch.float, "btype": torch.float})
    if kind in ("lin", "linpc", "conv", "convpc"):
        conv = kind.startswith("conv")
        hw = {"width": c["width"], "mode": n["mode"], "rng": n["rng"], "dimr": c["dimr"], "scale": none(c.get("scale", -1)), "depth": c.get("depth", 8)}
        sw = {k: DT[c.get(k, "float")] for k in ("btype", "rtype", "stype")}
        kw = dict(bias=c["bias"], weight_ext=wten(c["wshape"], NOUT, NIN, conv), bias_ext=bten(c["bshape"], NOUT), hwcfg=hw, swcfg=sw)
        if conv:
            cls = K.FSUConv2d if kind == "conv" else C.FSUConv2dPC
            return cls(*chan(c, kw), (1, NIN), groups=c["groups"], padding_mode=c["padmode"], **kw)
        return (K.FSULinear if kind == "lin" else L.FSULinearPC)(NIN, NOUT, **kw)
    if kind == "mgu":
        return K.FSUMGUCell(3, 2, bias=c["bias"], weight_ext_f=wten(c["wshapef"], 2, 5), bias_ext_f=bten(c["bshapef"], 2),
                            weight_ext_n=wten(c["wshapen"], 2, 5), bias_ext_n=bten(c["bshapen"], 2), hx_buffer=val([2, 2]),
                            hwcfg={k: n.get(k, c[k]) for k in ("width", "mode", "depth", "depth_ismul", "rng", "dimr")},
                            swcfg={k: torch.float for k in ("btype", "rtype", "stype")})
    if kind[:3] in ("hub", "fxp") or kind[:4] == "tlut":
        conv = kind.endswith("conv")
        hw = {k: n.get(k, v) for k, v in c.items() if k not in ("bias", "wshape", "bshape", "groups", "padmode")}
        hw["quantilei"], hw["quantilew"] = q(c["quantilei"]), q(c["quantilew"])
        if "width" in hw:
            hw["widthi"] = hw["widthw"] = hw.pop("width")
        if "cycle" in hw:
            hw["cycle"] = none(hw["cycle"])
        fam = {"h": "HUB", "f": "FXP", "t": "TLUT"}[kind[0]]
        kw = dict(bias=c["bias"], weight_ext=wten(c["wshape"], NOUT, NIN, conv), bias_ext=bten(c["bshape"], NOUT), hwcfg=hw)
        if conv:
            return getattr(C, fam + "Conv2d")(*chan(c, kw), (1, NIN), groups=c["groups"], padding_mode=c["padmode"], **kw)
        return getattr(L, fam + "Linear")(NIN, NOUT, **kw)
    if kind == "progerr":
        return ProgError(val([3]), {"scale": c["scale"], "mode": n["mode"]})
    if kind == "stab":
        return Stability(val([3]), {"scale": c["scale"], "mode": n["mode"], "threshold": c["quarter"] / 4})
    if kind == "clipper":
        from UnarySim.kernel.utils import NN_SC_Weight_Clipper
        u = NN_SC_Weight_Clipper(mode=n["mode"], bitwidth=c["bitwidth"])
        u(torch.nn.Linear(3, 2))
        return u
    if kind == "mgucall":
        u = K.FSUMGUCell(3, 2, bias=False, weight_ext_f=wten("ok", 2, 5), weight_ext_n=wten("ok", 2, 5), hx_buffer=torch.zeros(c["hbatch"], c["hidden"]),
                         hwcfg={"width": 3, "mode": "bipolar", "depth": 8, "depth_ismul": 3, "rng": "Sobol", "dimr": 1},
                         swcfg={k: torch.float for k in ("btype", "rtype", "stype")})
        u(torch.ones(c["batch"], c["features"]), torch.ones(c["hbatch"], c["hidden"]))
        return u
    if kind == "shiftcall":
        u = K.ShiftReg({"entry": 4}, {"stype": torch.float})
        u(torch.ones(c["n"]), mask=torch.ones(c["mask"]))
        return u
    if kind == "lincall":
        sh = {1: [3], 2: [2, 3], 3: [2, 2, 3]}[c["dims"]]
        if c["family"] == "hub":
            u = L.HUBLinear(3, 2, weight_ext=wten("ok", 2, 3), bias_ext=bten("ok", 2),
                            hwcfg={"widthi": 4, "rngi": "Sobol", "quantilei": 1, "widthw": 4, "rngw": "Sobol", "quantilew": 1, "cycle": 8,
                                   "rounding": "round", "signmag": True})
        else:
            u = L.FSULinearPC(3, 2, weight_ext=wten("ok", 2, 3), bias_ext=bten("ok", 2), hwcfg={"width": 3, "mode": "bipolar", "rng": "Race", "dimr": 1},
                              swcfg={k: torch.float for k in ("btype", "rtype", "stype")})
        u(torch.ones(sh))
        return u
    raise KeyError(kind)


def chan(c, kw):
    """channels such that torch itself would accept the group count"""
    if c["groups"] == 2:
        if kw["weight_ext"] is not None:
            s = kw["weight_ext"].shape
            kw["weight_ext"] = val([s[0], 1, 1, s[3]])
        return 2, NOUT
    return 1, NOUT


def report(kind, u, f):
    if kind == "lincall":
        return None
    v = u.hwcfg[f]
    if f.startswith("quantile"):
        return v * 4
    if f in ("scale", "entry", "cycle") and v is None:
        return -1
    return v


NAMED = ["rng", "bingen", "add", "hsig", "muls", "muli", "kern", "div", "sqrt", "lin", "linpc", "conv", "convpc", "mgu", "hublin", "hubconv",
         "fxplin", "fxpconv", "tlutlin", "tlutconv", "hubmgu", "progerr", "stab"]


def run_spellings(run, reps):
    """the spelling of a name decides nothing: one case per unit and spelling, judged by the machine, which knows only lower case"""
    import copy
    g = run.g
    for kind in NAMED:
        for _ in range(reps):
            fn = {"linpc": lambda: g.lin("linpc", T=40), "convpc": lambda: g.conv("convpc", T=12)}.get(kind) or (
                lambda: getattr(g, kind)(**({"T": 40} if kind in ("add", "hsig", "muls", "muli", "kern", "div", "sqrt", "lin", "mgu", "progerr", "stab") else
                                            {"T": 12} if kind == "conv" else {})))
            c, s = fn()
            for k in range(4):
                v = copy.deepcopy(c)
                v["py"]["case"] = k
                v["id"] += "/spelling%d" % k
                run.run_case(v, s)


def run_configs(run, kinds=None):
    """All units by default; a property whose statement includes rejections runs only its own kinds."""
    if kinds and run.notes.get("configurations"):
        return                                # once per run is enough: the enumeration is deterministic
    r = run_tlc("Config", dict(kinds=kinds or KINDS, changes=2))
    if r["rc"] != 0:
        raise Machinery("Config: " + r["text"][-2000:])
    run.states += r["states"]
    run.transitions += r["generated"]
    seen, todo = set(), []
    for _, kind, cfg, legal, echo in (p for p in r["printed"] if p[0] == "C"):
        key = json.dumps([kind, cfg], sort_keys=True)
        if key not in seen:
            seen.add(key)
            todo.append((kind, cfg, legal, echo))
    todo.sort(key=lambda t: json.dumps(t[:2], sort_keys=True))
    rnd = random.Random("cfg%d" % SEED)
    if THOROUGH and not kinds:
        r3 = run_tlc("Config", dict(kinds=[k for k in KINDS if k not in ("tlutlin", "tlutconv", "hubconv", "sqrt")], changes=3))
        extra = []
        for _, kind, cfg, legal, echo in (p for p in r3["printed"] if p[0] == "C"):
            key = json.dumps([kind, cfg], sort_keys=True)
            if key not in seen:
                seen.add(key)
                extra.append((kind, cfg, legal, echo))
        run.states += r3["states"]
        run.transitions += r3["generated"]
        rnd.shuffle(extra)
        todo += extra[:40000]
    legalc = 0
    nbad = 0
    for kind, cfg, legal, echo in todo:
        run.kinds[kind] += 1
        u, err = None, ""
        try:
            with torch.no_grad():
                u = build(kind, cfg)
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, str(e)[:120])
        problem = None
        if legal:
            legalc += 1
            if u is None:
                problem = ["legal-rejected", err]
            elif "none" not in echo:
                for f, v in echo.items():
                    try:
                        g = report(kind, u, f)
                    except Exception as e:
                        g = "missing"
                    if g != v:
                        problem = ["echo", f, v, str(g)]
                        break
        elif u is not None:
            problem = ["illegal-accepted"]
        if problem:
            nbad += 1
            if nbad <= 20:
                run.bad.append((dict(id=run.pid + "/config/" + kind, kind=kind, cfg=cfg, lanes=0, lp=[], steps=[], py={}), None, problem))
        else:
            run.ok += 1
    if not kinds:
        run_spellings(run, 3)
        run.sample = [dict(kind=k, cfg=c, legal=l, echo=e) for k, c, l, e in (todo[0], todo[len(todo) // 2], todo[-1])]
    run.notes["configurations"] = len(todo)
    run.notes["legal_configurations"] = legalc
