"""Units built with arguments left out (C37): every open place must mean what spec/Defaults.tla says."""
import inspect
import torch
from core import run_tlc, Machinery
from units import NAME, layouts, out_hw

F = dict(stype="float", btype="float", rtype="float", itype="float")


def calls():
    """class -> {frozenset of omitted arguments: their documented values}"""
    r = run_tlc("Defaults", {})
    if r["rc"] != 0:
        raise Machinery("Defaults: " + r["text"][-2000:])
    d = {}
    for _, c, o, v in r["printed"]:
        d.setdefault(c, {})[frozenset(o)] = v
    return d, r


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, torch.dtype):
        return NAME.get(v, str(v))
    if isinstance(v, str):
        return "None" if v == "None" else v.lower()
    if v is None:
        return "None"
    if isinstance(v, list):
        return v[0] / v[1]
    return v


def same(given, doc):
    g, d = norm(given), norm(doc)
    if isinstance(d, dict):
        return isinstance(g, dict) and all(k in g and g[k] == d[k] for k in d)
    if isinstance(g, tuple):
        return all(x == d for x in g)
    return not torch.is_tensor(g) and g == d


class Stripper:
    """Leaves the chosen arguments out of the outermost constructor call."""
    table, omit, depth, log, force, stress = None, None, 0, [], None, False


def wrap(cls):
    orig = cls.__init__
    try:
        sig = inspect.signature(orig)
    except ValueError:
        return

    def init(self, *a, **k):
        if Stripper.table is None or Stripper.depth or cls.__name__ not in Stripper.table or type(self) is not cls:
            return orig(self, *a, **k)
        t = Stripper.table[cls.__name__]
        full = t[max(t, key=len)]
        try:
            b = sig.bind(self, *a, **k)
        except TypeError:
            return orig(self, *a, **k)
        okay = {n for n in full if n in b.arguments and same(b.arguments[n], full[n])}
        # the configuration itself is always left out, the rest by choice
        out = frozenset(n for n in okay if (n in Stripper.force if Stripper.force is not None else n == "hwcfg" or Stripper.omit.random() < .8))
        if Stripper.force is None and "hwcfg" in full and "hwcfg" not in out:
            raise Machinery("%s: the case does not spell out the default configuration: %r" % (cls.__name__, b.arguments.get("hwcfg")))
        assert out in t
        Stripper.log.append((cls.__name__, out))
        given = {n: v for n, v in b.arguments.items() if n not in out and n != "self"}
        Stripper.depth += 1
        try:
            return orig(self, **given)
        finally:
            Stripper.depth -= 1
    cls.__init__ = init


def cases(g):
    """one random case per class whose configuration is the documented default"""
    r = g.r
    sob = lambda w, d: dict(rng="sobol", width=w, dimr=d)

    plain = g.geo

    def geo(big=False):
        d = plain(big)
        while r.random() < .7 and not (d["H"] >= d["kh"] and d["W"] >= d["kw"]):
            d = plain(big)
        if d["H"] >= d["kh"] and d["W"] >= d["kw"]:
            e = dict(d, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1)
            a, b = out_hw(e)
            d = e if a * b * d["C"] * d["kh"] * d["kw"] <= 200 else d
        return d

    def ty(c):
        c[0]["py"].update({k: v for k, v in F.items() if k in c[0]["py"]})
        return c

    def add():
        c, s = g.add(mode="bipolar", **F)
        c["cfg"].update(depth=10, csc=-1, rsc=-1, centry=-1, rentry=-1)
        c["py"].update(dima=0)
        if Stripper.stress:
            n, c["lanes"] = 9, 1
            c["lp"], c["py"]["shape"] = [[]], [1]
            c["cfg"].update(n=n, rsc=c["cfg"]["D"])
            s = surge(n, 160, 320)
        return c, s

    def surge(n, up, down):
        """a long run of ones that drives an accumulator to its limit, then one of zeros: the run of output ones afterwards tells the limit"""
        p = r.choice([.9, 1.])
        return [[[int(r.random() < (p if t < up else 1 - p)) for _ in range(n)]] for t in range(up + down)]

    def hsig():
        c, s = g.hsig(**F)
        c["cfg"].update(mode="bipolar", depth=8)
        return c, s

    def div():
        c, s = g.div(mode="bipolar", **F)
        c["cfg"].update(depth_sa=3, depth_ss=2, entry=2, r=g.src("sobol", 1, 4))
        c["py"]["rng"] = sob(1, 4)
        return c, s

    def kern():
        c, s = g.kern(**F)
        c["cfg"].update(entry=4, r=g.src("sobol", 2, 4))
        c["py"]["rng"] = sob(2, 4)
        return c, s

    def sqrt():
        c, s = g.sqrt(mode="bipolar", variant="emit", **F)
        c["cfg"].update(entry_sr=2, r=g.src("sobol", 2, 4))
        c["py"].update(rng=sob(2, 4), entry_kn=1, jk=True)
        return c, s

    def layer(kind):
        c, s = getattr(g, "conv" if kind.startswith("conv") else "lin")(kind, mode="bipolar", src=sob(8, 1), **(dict(T=25) if kind.startswith("conv") else {}), **F)
        c["cfg"].update(depth=12, csc=-1, rsc=-1, rentry=-1)
        if kind in ("lin", "conv") and Stripper.stress:
            # unit weights: the row total is the number of ones, and a unit scale lets it pile up to the limit
            cfg = c["cfg"]
            if kind == "conv":
                cfg["g"] = dict(C=4, H=2, W=2, kh=2, kw=2, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1)
            n = 16
            cfg.update(wn=[[cfg["wden"]] * n], bn=[0], hasb=True, rsc=cfg["D"])
            c["lanes"], c["lp"] = 1, [[]]
            return c, surge(n, 330, 330)
        return c, s

    def mgu():
        c, s = g.mgu(src=sob(8, 1), **F)
        cfg = c["cfg"]
        cfg.update(depth=10, ismul=6, ri=g.src("sobol", 6, 1))
        for f in ("f", "n"):
            cfg[f]["depth"] = 10
        if Stripper.stress:
            nh = len(cfg["f"]["wn"])
            nin = cfg["nin"] = 6
            for f in ("f", "n"):
                cfg[f]["wn"] = [[cfg[f]["wden"]] * (nin + nh) for _ in range(nh)]
            c["lanes"], c["lp"] = 1, c["lp"][:1]
            return c, surge(nin + nh, 260, 300)
        return c, s

    def hubmgu():
        c, s = mgu()
        cfg, n = c["cfg"], r.choice([1, 2])
        nin, nh, D = cfg["nin"], len(cfg["f"]["wn"]), cfg["hden"]
        k = g.lcase("hubmgu", cfg, dict(rng=sob(8, 1), none=False, odt="float"), n)
        return k, [[[r.randint(-D, D) for _ in range(nin + nh)] for _ in range(n)]]

    def mat(kind):
        fam, conv = (kind[:-4], True) if kind.endswith("conv") else (kind[:-3], False)
        c, s = g.mat(kind, fam, conv)
        cfg = c["cfg"]
        wn = cfg["wn"]
        cfg.update(qin=1, qid=1, qwn=1, qwd=1, rmode="round", cyc=-1)
        c["py"]["late"] = c["py"]["longname"] = False
        if fam == "hub":
            cfg.update(width=8, cyc=128, hm=g.hubmap("sobol", "sobol", 7))
            c["py"].update(rngi="sobol", rngw="sobol")
        elif fam == "fxp":
            cfg.update(widthi=8, widthw=8)
        else:
            cfg.update(temporal="i", widtht=4, formati="fxp", formatw="fxp", widthi=8, widthw=8)
        return c, s

    def rng():
        return g.lcase("rng", dict(name="sobol", w=8, d=1, r=g.src("sobol", 8, 1)), dict(rtype="float", odt="float")), [[0], [0]]

    def bingen():
        c, s = g.bingen()
        d = c["cfg"]["d"]
        D = 2 ** d
        n = len(s[0][0])
        c["cfg"].update(mode="bipolar", width=8)
        c["py"].update(rtype="float", odt="float")
        return c, [[[r.randint(-D, D) for _ in range(n)]] for _ in s]

    def rawscale():
        while True:
            c, s = g.rawscale()
            if c["cfg"]["qn"] == c["cfg"]["qd"]:
                return c, s

    def stab():
        n = r.choice([1, 2, 3])
        T = r.randint(5, 39)
        # zero source: a run total is never at the threshold of 1/20 below 40 cycles
        c = g.case("stab", dict(mode="bipolar", sn=1, sd=1, tn=1, td=20), n, g.py(n, itype="float"), [[0, 4] for _ in range(n)])
        st = [[[0] + x for x in row] for row in g.stim(T, n, 1)]
        return c, st + [[[1] for _ in range(n)]]

    def progerr():
        c, s = g.metric("progerr", mode="bipolar", **F)
        c["cfg"].update(sn=1, sd=1)
        return c, s

    def hard(fxp):
        c, s = g.hardmgu(fxp=fxp, hard=True)
        if fxp:
            while (c["cfg"]["iw"], c["cfg"]["fw"]) != (3, 4):
                c, s = g.hardmgu(fxp=True, hard=True)
        return c, s

    def rnd():
        while True:
            c, s = g.round()
            if (c["cfg"]["iw"], c["cfg"]["fw"]) == (3, 4):
                return c, s

    def act(f):
        while True:
            c, s = g.hubact(f)
            if (c["cfg"]["sn"], c["cfg"]["sd"]) == ((3, 1) if f == "hsig" else (1, 1)):
                return c, s

    def clipper():
        while True:
            c, s = g.clipper()
            if c["cfg"]["freq"] == 1 and c["cfg"]["bw"] == 8 and c["cfg"]["mode"] == "bipolar":
                return c, s
    return geo, dict(
        RNG=rng, RawScale=rawscale, BinGen=bingen, BSGen=lambda: ty(g.bsgen(src=sob(r.choice([3, 5]), 1), stype="float")),
        SkewedSync=lambda: g.sync(depth=2, **F), Bi2Uni=lambda: ty(g.bi2uni("bi2uni", depth=3, **F)), Uni2Bi=lambda: ty(g.bi2uni("uni2bi", depth=4, **F)),
        FSUSignAbs=lambda: g.signabs(depth=3, **F), FSUReLU=lambda: g.relu(depth=6, **F), ShiftReg=lambda: g.shift(entry=8, **F), JKFF=lambda: g.jk(**F),
        FSUAdd=add, FSUHardsigmoid=hsig, FSUMul=lambda: g.muli(mode="bipolar", src=sob(8, 1), **F), CORDIV_kernel=kern, FSUDiv=div, FSUSqrt=sqrt,
        FSULinear=lambda: layer("lin"), FSULinearPC=lambda: layer("linpc"), FSUConv2d=lambda: layer("conv"), FSUConv2dPC=lambda: layer("convpc"),
        FSUMGUCell=mgu, HUBMGUCell=hubmgu, HUBLinear=lambda: mat("hublin"), HUBConv2d=lambda: mat("hubconv"), FXPLinear=lambda: mat("fxplin"),
        FXPConv2d=lambda: mat("fxpconv"), TLUTLinear=lambda: mat("tlutlin"), TLUTConv2d=lambda: mat("tlutconv"), HardMGUCell=lambda: hard(False),
        HardMGUCellFXP=lambda: hard(True), Round=rnd, HUBReLU=lambda: act("relu"), HUBHardsigmoid=lambda: act("hsig"),
        NN_SC_Weight_Clipper=clipper, ProgError=progerr, Stability=stab)


def run_defaults(run, n):
    import sessions
    if not getattr(run, "table", None):
        run.table, r = calls()
        run.states += r["states"]
        run.transitions += r["generated"]
        sessions.instrument(wrap)
    plain_geo = run.g.geo
    made_geo, made = cases(run.g)
    missing = set(run.table) ^ set(made)
    if missing:
        raise Machinery("no case for " + ", ".join(sorted(missing)))
    Stripper.omit = run.g.r
    for cls, f in made.items():
        for k in range(n):
            Stripper.stress = k % 2 == 1
            run.g.geo = made_geo if k != 1 else plain_geo
            try:
                c, s = f()
            finally:
                run.g.geo = plain_geo
            Stripper.table = {cls: run.table[cls]}
            Stripper.log = []
            try:
                rec = run.run_case(c, s)
            finally:
                Stripper.table = None
            if not Stripper.log and not rec["err"]:
                raise Machinery("%s was never constructed in %s" % (cls, c["id"]))
            rec["py"] = dict(rec["py"], omitted=[cls] + (sorted(Stripper.log[0][1]) if Stripper.log else []))
            seen = run.notes.setdefault("constructor_calls_with_omissions", {})
            seen[cls] = seen.get(cls, 0) + 1


def replaying(omitted):
    """leave out exactly what the recorded call left out"""
    import sessions
    t, _ = calls()
    sessions.instrument(wrap)
    Stripper.table, Stripper.force = {omitted[0]: t[omitted[0]]}, set(omitted[1:])
