"""Adapters: build a real UnarySim unit for `lanes` independent elements and step it.

cfg is the dictionary the specification sees (see spec/Prep.tla); `py` holds what only
the Python side needs (element types, layout, letter case, ...)."""
import zlib
import torch
from core import ints, fixed, SENT, Rngs

DT = {"float": torch.float32, "int8": torch.int8, "long": torch.int64, "int32": torch.int32,
      "double": torch.float64, "int16": torch.int16, "half": torch.float16, "bf16": torch.bfloat16,
      "uint8": torch.uint8}
NAME = {v: k for k, v in DT.items()}


def dtname(d):
    return NAME.get(d, str(d))


def layouts(lanes):
    """Shapes with exactly `lanes` elements."""
    s = [[lanes], [lanes, 1], [1, lanes]] * 2 + [[1, lanes, 1, 1]]
    for a in range(2, lanes):
        if lanes % a == 0:
            s.append([a, lanes // a])
            for b in range(2, lanes // a):
                if (lanes // a) % b == 0:
                    s.append([a, b, lanes // a // b])
                    s.append([a, 1, b, 1, lanes // a // b])
                    break
    return s


def arrange(vals, shape, dtype, strided):
    """Lane values -> tensor of `shape`; strided makes it a non-contiguous view of equal content."""
    t = torch.tensor(vals, dtype=torch.float64).reshape(shape)
    if strided == 1 and len(shape) >= 2:
        t = t.transpose(0, 1).contiguous().to(dtype).transpose(0, 1)
        return t
    if strided:
        big = torch.zeros(list(shape) + [2], dtype=dtype)
        big[..., 1] = t.to(dtype)
        return big[..., 1]
    return t.to(dtype)


class Unit:
    """One real unit. step(x) takes a list of lane inputs and returns the tensors forward() gave."""
    shaped = True         # outputs have the shape xshape()
    typed = None          # indices of outputs that must be of stype; None = all

    def __init__(self, case):
        self.case = case
        self.cfg, self.py = case["cfg"], case["py"]
        self.lanes = case["lanes"]
        self.shape = self.py.get("shape") or [self.lanes]
        self.st = DT[self.py.get("stype", "float")]
        self.bt = DT[self.py.get("btype", "float")]
        self.rt = DT[self.py.get("rtype", "float")]
        self.it = DT[self.py.get("itype", self.py.get("stype", "float"))]
        self.strided = self.py.get("strided", 0)
        self.sw = {"stype": self.st, "btype": self.bt, "rtype": self.rt}
        self.mod = self.build()

    def name(self, s):
        k = self.py.get("case", 0)
        return s if k == 0 else s.upper() if k == 1 else s.capitalize() if k == 2 else "".join(c.upper() if i % 2 else c for i, c in enumerate(s))

    def t(self, vals, dtype=None):
        return arrange(vals, self.shape, dtype or self.it, self.strided)

    def xshape(self):
        return list(self.shape)

    def outs(self, tensors):
        """tensors -> per-lane output sequences"""
        cols = [ints(x) for x in tensors]
        return [[c[i] if i < len(c) else SENT for c in cols] for i in range(self.lanes)]

    def inputs(self, x):
        """lane inputs -> list of tensors handed to forward()"""
        return [self.t([v[k] for v in x]) for k in range(len(x[0]))]

    def call(self, ins):
        return self.mod(*ins)

    def copy_of(self, other):
        """adopt a deep copy of another adapter's module"""
        import copy
        self.mod = copy.deepcopy(other.mod)
        return self


class BSGen(Unit):
    def build(self):
        from UnarySim.stream import RNG, BSGen as B
        r = self.py["rng"]
        seq = self.py.get("seq")
        if seq is not None:
            self.rng = torch.tensor(seq, dtype=self.rt)
        else:
            self.rng = RNG({"width": r["width"], "dimr": r["dimr"], "rng": self.name(r["rng"])}, {"rtype": self.rt})()
        self.bin = self.t([p[0] for p in self.case["lp"]], self.rt)
        return B(self.bin, self.rng, {"stype": self.st})

    def inputs(self, x):
        if self.py.get("scalar"):
            return [torch.tensor([x[0][0]], dtype=self.it)]
        return [self.t([v[0] for v in x])]


class Simple(Unit):
    def build(self):
        from UnarySim import stream, kernel
        cls = {"bi2uni": "Bi2Uni", "uni2bi": "Uni2Bi", "sync": "SkewedSync"}.get(self.case["kind"])
        if cls:
            return getattr(stream, cls)({"depth": self.cfg["depth"]}, self.sw)
        cls = {"signabs": "FSUSignAbs", "relu": "FSUReLU"}[self.case["kind"]]
        return getattr(kernel, cls)({"depth": self.cfg["depth"]}, self.sw)


class Shift(Unit):
    typed = [0]

    def build(self):
        from UnarySim.kernel import ShiftReg
        return ShiftReg({"entry": self.cfg["entry"]}, {"stype": self.st})

    def inputs(self, x):
        b = self.t([v[0] for v in x])
        idx = x[0][2]
        if self.py.get("masked"):
            return [b, self.t([v[1] for v in x]), idx]
        return [b, None, idx]

    def call(self, ins):
        b, m, i = ins
        if m is None:
            return self.mod(b, index=i) if i != 0 else self.mod(b)
        return self.mod(b, mask=m, index=i)


class JK(Unit):
    def build(self):
        from UnarySim.kernel import JKFF
        return JKFF({"stype": self.st})


class Add(Unit):
    def build(self):
        from UnarySim.kernel import FSUAdd
        c, D = self.cfg, self.cfg["D"]
        num = lambda v: None if v == -1 else (v // D if v % D == 0 else v / D)
        hw = {"mode": self.name(c["mode"]), "scale": num(c["csc"]), "dima": self.py["dima"], "depth": c["depth"],
              "entry": None if c["centry"] == -1 else c["centry"]}
        self.run = {}
        if c["rsc"] != -1:
            self.run["scale"] = num(c["rsc"])
        if c["rentry"] != -1:
            self.run["entry"] = c["rentry"]
        self.first = True
        return FSUAdd(hw, self.sw)

    def inputs(self, x):
        d = self.py["dima"]
        rows = [self.t([v[k] for v in x]) for k in range(len(x[0]))]
        t = torch.stack(rows, dim=d if d >= 0 else d)
        return [t.to(self.it)]

    def call(self, ins):
        kw = {}
        if self.first:
            kw = self.run
        elif self.py.get("late"):
            kw = {"scale": self.py["late"][0], "entry": self.py["late"][1]}
        self.first = False
        return self.mod(ins[0], **kw)


class HSig(Unit):
    def build(self):
        from UnarySim.kernel import FSUHardsigmoid, FSUHardtanh
        if self.case["kind"] == "htanh":
            return FSUHardtanh()
        return FSUHardsigmoid({"mode": self.name(self.cfg["mode"]), "scale": 2, "dima": 0, "depth": self.cfg["depth"],
                               "entry": 2}, self.sw)


class Mul(Unit):
    def build(self):
        from UnarySim.kernel import FSUMul
        r = self.py["rng"]
        hw = {"width": r["width"], "mode": self.name(self.cfg["mode"]), "static": self.case["kind"] == "muls",
              "rng": self.name(r["rng"]), "dimr": r["dimr"]}
        prob = None
        if self.case["kind"] == "muls":
            prob = arrange([p[0] / p[1] for p in self.case["lp"]], self.shape, torch.float32, self.strided)
        self.prob = prob
        return FSUMul(prob, hw, self.sw)


class Kern(Unit):
    def build(self):
        from UnarySim.kernel import CORDIV_kernel
        r = self.py["rng"]
        return CORDIV_kernel({"entry": self.cfg["entry"], "rng": self.name(r["rng"]), "dimr": r["dimr"]}, self.sw)


class Div(Unit):
    def build(self):
        from UnarySim.kernel import FSUDiv
        r, c = self.py["rng"], self.cfg
        return FSUDiv({"depth_sa": c["depth_sa"], "depth_ss": c["depth_ss"], "entry_kn": c["entry"],
                       "mode": self.name(c["mode"]), "rng": self.name(r["rng"]), "dimr": r["dimr"]}, self.sw)


class Sqrt(Unit):
    def build(self):
        from UnarySim.kernel import FSUSqrt
        r, c = self.py["rng"], self.cfg
        return FSUSqrt({"mode": self.name(c["mode"]), "jk_trace": c["variant"] == "jk" or bool(self.py.get("jk")), "emit": c["variant"] == "emit",
                        "entry_kn": self.py.get("entry_kn", 1), "entry_sr": c["entry_sr"],
                        "rng": self.name(r["rng"]), "dimr": r["dimr"]}, self.sw)


def lin_hw(c, r, name, scaled):
    hw = {"width": r["width"], "mode": name(c["mode"]), "rng": name(r["rng"]), "dimr": r["dimr"], "depth": c.get("depth", 12)}
    D = c["D"]
    hw["scale"] = None if c["csc"] == -1 else (c["csc"] // D if c["csc"] % D == 0 else c["csc"] / D)
    return hw


def lin_params(c, shape=None):
    w = torch.tensor(c["wn"], dtype=torch.float32) / c["wden"]
    if shape:
        w = w.reshape(shape)
    b = torch.tensor(c["bn"], dtype=torch.float32) / c["wden"] if c["hasb"] else None
    return w, b


def overrides(u):
    """run-time scale and entry: those of the first call count, any later ones do not"""
    kw, c = {}, u.cfg
    if u.case["kind"] not in ("lin", "conv"):
        return kw
    if not u.first:
        return {"scale": u.py["late"][0], "entry": u.py["late"][1]} if u.py.get("late") else kw
    if c["rsc"] != -1:
        kw["scale"] = c["rsc"] // c["D"] if c["rsc"] % c["D"] == 0 else c["rsc"] / c["D"]
    if c["rentry"] != -1:
        kw["entry"] = c["rentry"]
    return kw


class Lin(Unit):
    """lanes = batch rows"""
    def build(self):
        from UnarySim.kernel import FSULinear, FSULinearPC
        c, r = self.cfg, self.py["rng"]
        self.w, self.b = lin_params(c)
        no, ni = self.w.shape
        cls = FSULinear if self.case["kind"] == "lin" else FSULinearPC
        self.first = True
        return cls(ni, no, bias=c["hasb"], weight_ext=self.w, bias_ext=self.b, hwcfg=lin_hw(c, r, self.name, True), swcfg=self.sw)

    def inputs(self, x):
        return [arrange(x, [self.lanes, len(x[0])], self.it, self.strided)]

    def call(self, ins):
        kw = overrides(self)
        self.first = False
        return self.mod(ins[0], **kw)

    def xshape(self):
        return [self.lanes, len(self.cfg["wn"])]

    def outs(self, tensors):
        v = ints(tensors[0])
        n = len(self.cfg["wn"])
        return [v[i * n:(i + 1) * n] for i in range(self.lanes)]


def geo_args(g, py):
    pair = lambda a, b: a if (a == b and not py.get("tuples")) else (a, b)
    return dict(kernel_size=pair(g["kh"], g["kw"]), stride=pair(g["sh"], g["sw"]), padding=pair(g["ph"], g["pw"]),
                dilation=pair(g["dh"], g["dw"]))


def out_hw(g):
    oh = (g["H"] + 2 * g["ph"] - g["dh"] * (g["kh"] - 1) - 1) // g["sh"] + 1
    ow = (g["W"] + 2 * g["pw"] - g["dw"] * (g["kw"] - 1) - 1) // g["sw"] + 1
    return oh, ow


class Conv(Unit):
    """lanes = images of the batch"""
    def build(self):
        from UnarySim.kernel import FSUConv2d
        from UnarySim.kernel.conv import FSUConv2dPC
        c, r, g = self.cfg, self.py["rng"], self.cfg["g"]
        no = len(c["wn"])
        self.w, self.b = lin_params(c, [no, g["C"], g["kh"], g["kw"]])
        cls = FSUConv2d if self.case["kind"] == "conv" else FSUConv2dPC
        self.first = True
        return cls(g["C"], no, bias=c["hasb"], weight_ext=self.w, bias_ext=self.b, hwcfg=lin_hw(c, r, self.name, True),
                   swcfg=self.sw, **geo_args(g, self.py))

    def inputs(self, x):
        g = self.cfg["g"]
        return [arrange(x, [self.lanes, g["C"], g["H"], g["W"]], self.it, self.strided)]

    def call(self, ins):
        kw = overrides(self)
        self.first = False
        return self.mod(ins[0], **kw)

    def xshape(self):
        return [self.lanes, len(self.cfg["wn"])] + list(out_hw(self.cfg["g"]))

    def outs(self, tensors):
        v = ints(tensors[0])
        n = len(v) // self.lanes
        return [v[i * n:(i + 1) * n] for i in range(self.lanes)]


class Mgu(Unit):
    def build(self):
        from UnarySim.kernel import FSUMGUCell
        c, r = self.cfg, self.py["rng"]
        wf, bf = lin_params(c["f"])
        wn, bn = lin_params(c["n"])
        nh = len(c["f"]["wn"])
        self.hx = torch.tensor(self.case["lp"], dtype=torch.float32) / c["hden"]
        self.nh = nh
        return FSUMGUCell(c["nin"], nh, bias=c["f"]["hasb"], weight_ext_f=wf, bias_ext_f=bf, weight_ext_n=wn, bias_ext_n=bn,
                          hx_buffer=self.hx, hwcfg={"width": r["width"], "mode": self.name("bipolar"), "depth": c["depth"],
                          "depth_ismul": c["ismul"], "rng": self.name(r["rng"]), "dimr": r["dimr"]}, swcfg=self.sw)

    def inputs(self, x):
        n = self.cfg["nin"]
        return [arrange([v[:n] for v in x], [self.lanes, n], self.it, self.strided),
                arrange([v[n:] for v in x], [self.lanes, self.nh], self.it, self.strided)]

    def xshape(self):
        return [self.lanes, self.nh]

    def outs(self, tensors):
        v = ints(tensors[0])
        return [v[i * self.nh:(i + 1) * self.nh] for i in range(self.lanes)]


class Metric(Unit):
    typed = []

    def build(self):
        from UnarySim.metric.metric import ProgError, Correlation, Stability
        k, c = self.case["kind"], self.cfg
        if k == "scc":
            return Correlation()
        src = arrange([p[0] / p[1] for p in self.case["lp"]], self.shape, torch.float32, self.strided)
        sc = c["sn"] / c["sd"]
        hw = {"scale": int(sc) if sc == int(sc) else sc, "mode": self.name(c["mode"])}
        self.src = src
        if k == "progerr":
            return ProgError(src, hw)
        hw["threshold"] = c["tn"] / c["td"]
        return Stability(src, hw)

    def inputs(self, x):
        if x[0][0] == 1:
            return [None]
        return [self.t([v[k] for v in x]) for k in range(1, len(x[0]))]

    def call(self, ins):
        if ins[0] is None:
            r = self.mod()
            return tuple(r) if isinstance(r, tuple) else (r,)
        self.mod.Monitor(*ins)
        return ()

    def outs(self, tensors):
        if not tensors:
            return [[] for _ in range(self.lanes)]
        S = 2 ** 12 if self.case["kind"] == "scc" else 2 ** 14
        cols = [fixed(t, S) for t in tensors]
        return [[c[i] if i < len(c) else SENT for c in cols] for i in range(self.lanes)]


ADAPT = {"bsgen": BSGen, "bi2uni": Simple, "uni2bi": Simple, "sync": Simple, "signabs": Simple, "relu": Simple,
         "shift": Shift, "jk": JK, "add": Add, "hsig": HSig, "htanh": HSig, "muls": Mul, "muli": Mul, "kern": Kern,
         "div": Div, "sqrt": Sqrt, "linpc": Lin, "lin": Lin, "convpc": Conv, "conv": Conv, "mgu": Mgu,
         "progerr": Metric, "scc": Metric, "stab": Metric}


def adapter(case):
    import layers
    ADAPT.update(layers.ADAPT)
    return ADAPT[case["kind"]](case)


class Guard:
    """a unit that does not come back is an error of that unit, not of the check"""
    hung = 0

    def __enter__(self):
        import signal
        def stop(*a):
            Guard.hung += 1
            raise TimeoutError("no answer")
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(240 if Guard.hung == 0 else 20 if Guard.hung < 4 else 2)

    def __exit__(self, *a):
        import signal
        signal.alarm(0)


def record(case, stim):
    with Guard():
        return record_(case, stim)


def record_(case, stim):
    """Run the real unit on stim (list of cycles of lane inputs); return the case for Conform."""
    import torch
    out = dict(id=case["id"], kind=case["kind"], cfg=case["cfg"], lanes=case["lanes"], lp=case["lp"],
               err="", xdt=case["py"].get("odt") or case["py"].get("stype", "float"), odt=[], xshape=[], oshape=[], retro=[], imut=[], steps=[],
               py=case["py"])
    kept, insnap = [], []
    retro = case["py"].get("retro", False)
    # the caller may write new data into the tensors it handed in, once it has read the result
    h = zlib.crc32(case["id"].encode())
    garble = not retro and case["kind"] not in ("rng", "bingen") and h % 2
    try:
        # results do not depend on whether autograd records, or on the module's train/eval mode
        with torch.set_grad_enabled(h // 2 % 2 == 1):
            u = adapter(case)
            if isinstance(u.mod, torch.nn.Module):
                u.mod.train(h // 4 % 3 > 0)
            out["xshape"] = u.xshape()
            odt, osh = [], []
            for n, x in enumerate(stim):
                ins = u.inputs(x)
                snap = [i.clone() if torch.is_tensor(i) else i for i in ins]
                r = u.call(ins)
                ts = list(r) if isinstance(r, tuple) else [r]
                for j, t in enumerate(ts):
                    if u.typed is None or j in u.typed:
                        d = dtname(t.dtype)
                        if d not in odt:
                            odt.append(d)
                    s = list(t.shape)
                    if u.shaped and s not in osh:
                        osh.append(s)
                o = u.outs(ts)
                for i, k in zip(ins, snap):
                    if torch.is_tensor(i) and not torch.equal(i, k):
                        out["imut"].append(n + 1)
                        break
                if retro and ts and torch.is_tensor(ts[0]):
                    kept.append((n, ts, [t.clone() for t in ts]))
                if garble:
                    for v in ins:
                        if torch.is_tensor(v):
                            v.data.fill_(int(v.numel() > 0 and v.reshape(-1)[0].item() == 0))
                out["steps"].append(dict(i=x, o=o))
            for n, ts, cp in kept:
                if any(not torch.equal(a, b) for a, b in zip(ts, cp)):
                    out["retro"].append(n + 1)
            out["odt"], out["oshape"] = odt, osh
    except Exception as e:
        out["err"] = "%s: %s" % (type(e).__name__, str(e)[:300].replace("\n", " "))
    return out
