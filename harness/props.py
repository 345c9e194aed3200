"""What each property's check explores: models for TLC and executions of the real units."""


class P:
    """models(m): configurations TLC explores exhaustively; run(r): executions to record."""
    def __init__(self, models=None, run=None, ignore=()):
        self.models = models or (lambda m: None)
        self.run = run or (lambda r: None)
        self.ignore = ignore


def each(*fns):
    def f(x):
        for fn in fns:
            fn(x)
    return f


def units(**counts):
    """n random cases of each generator method"""
    def f(r):
        for name, n in counts.items():
            r.many(getattr(r.g, name), n)
    return f


def scale(*what):
    """the executions of unusual size"""
    return lambda r: __import__("scale").scale(*what)(r)


def sessions(r):
    import sessions as S
    S.run_sessions(r, {**{k: 12 for k in S.STREAM}, **{k: 4 for k in S.LAYER}})


def configs(*kinds):
    return lambda r: __import__("configs").run_configs(r, list(kinds))


def rtl(**counts):
    """n random executions of the hardware modules of each group"""
    def f(r):
        H = __import__("rtl")
        for group, n in counts.items():
            r.many(lambda: H.generate(r.g, group), n)
    return f


PROPS = {
    "C03": P(lambda m: m.bsgen(), each(units(bsgen=90), scale("bsgen"))),
    "C05": P(lambda m: m.sync(), each(units(sync=100), scale("sync"))),
    "C06": P(lambda m: (m.bi2uni("bi2uni"), m.bi2uni("uni2bi")), each(units(bi2uni=100), scale("bi2uni"))),
    "C07": P(lambda m: m.addu(), each(units(add=110), scale("add"))),
    "C08": P(lambda m: m.muls(), each(units(muls=90), scale("muls"))),
    "C09": P(lambda m: m.muli(), each(units(muli=80), scale("muli"))),
    "C10": P(lambda m: m.shift(), each(units(shift=120), configs("shiftcall"))),
    "C11": P(lambda m: m.jk(), units(jk=100)),
    "C12": P(lambda m: m.signabs("signabs"), each(units(signabs=100), scale("signabs"))),
    "C13": P(lambda m: m.div(), each(units(kern=50, div=60), scale("kern", "div"))),
    "C14": P(lambda m: m.sqrt(), each(units(sqrt=90), scale("sqrt"))),
    "C15": P(lambda m: m.signabs("relu"), each(units(relu=100), scale("relu"))),
    "C17": P(lambda m: m.lin(), each(units(lin=100), scale("lin"))),
    "C18": P(lambda m: m.conv(), each(units(conv=80), scale("conv"))),
    "C24": P(lambda m: m.mgu(), each(units(mgu=60), configs("mgucall", "mgu"))),
    "C01": P(lambda m: m.rng(), units(rng=160)),
    "C02": P(lambda m: m.bingen(), units(bingen=150)),
    "C04": P(lambda m: m.rawscale(), each(units(rawscale=150), configs("rawscale"))),
    "C16": P(lambda m: (m.hsig(), m.hubact()), each(units(hsig=60, htanh=15, hubact=60), scale("hsig"))),
    "C19": P(lambda m: m.hublin(), each(units(hublin=140), scale("hublin"))),
    "C20": P(lambda m: m.fxplin(), each(units(fxplin=190), scale("fxplin"))),
    "C21": P(lambda m: m.tlutlin(), each(units(tlutlin=190), scale("tlutlin"))),
    "C22": P(lambda m: m.convs(), each(units(hubconv=65, fxpconv=55, tlutconv=75), scale("convs"))),
    "C23": P(None, units(grad=160, roundgrad=30)),
    "C25": P(lambda m: m.hubmgu(), units(hubmgu=50)),
    "C26": P(lambda m: m.hardmgu(), units(hardmgu=160)),
    "C27": P(lambda m: m.round(), units(round=200)),
    "C28": P(lambda m: m.shapes(), units(shape=60)),
    "C29": P(lambda m: m.clipper(), units(clipper=200)),
    "C30": P(lambda m: m.metric("progerr"), each(units(progerr=100), scale("progerr"))),
    "C31": P(lambda m: m.metric("scc"), each(units(scc=120), scale("scc"))),
    "C32": P(lambda m: m.metric("stab"), each(units(stab=100), scale("stab"))),
    "C36": P(lambda m: m.pipe(), units(pipe=90)),
    "C38": P(lambda m: m.reports(), units(report=150)),
    "C39": P(None, each(lambda r: __import__("layers").redraw(r), units(tnorm=90))),
    "C40": P(lambda m: m.grads(), units(actgrad=60, cellgrad=120)),
    "C41": P(lambda m: __import__("rtl").models(m, "conv"), rtl(conv=120)),
    "C42": P(lambda m: __import__("rtl").models(m, "div"), rtl(div=110)),
    "C43": P(lambda m: __import__("rtl").models(m, "sqrt"), rtl(sqrt=130)),
    "C37": P(None, lambda r: __import__("defaults").run_defaults(r, 4)),
    "C33": P(None, lambda r: sessions(r)),
    "C34": P(None, lambda r: __import__("variants").run_variants(r, 2, 11, 32)),
    "C35": P(None, lambda r: __import__("configs").run_configs(r)),
}
