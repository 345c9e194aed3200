"""Adapters for the binary-domain half: encoders, quantisers, layers, cells, helpers.
One step is one call; operands are integers over a power of two (see spec/Layers.tla)."""
import contextlib
import io
import math
import re
import torch
import core
from core import ints, fixed, SENT
from units import Unit, DT, geo_args, out_hw, arrange

NAN, HUGE = [1, 9999], [1, 9998]


def dy(t):
    """tensor -> flat list of [m, e] in normal form (m odd)"""
    out = []
    for v in t.detach().to(torch.float64).reshape(-1).tolist():
        if not math.isfinite(v):
            out.append(NAN)
            continue
        if v == 0:
            out.append([0, 0])
            continue
        n, d = v.as_integer_ratio()
        z = (n & -n).bit_length() - 1
        n >>= z
        e = z - (d.bit_length() - 1)
        out.append([n, e] if abs(n) < 2 ** 30 else HUGE)
    return out


def ten(vals, d, shape=None, dtype=torch.float32, strided=0):
    t = torch.tensor(vals, dtype=torch.float64) * 2.0 ** -d
    t = t.to(dtype)
    if shape is not None:
        t = t.reshape(shape)
    if strided and t.dim() >= 2:
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    return t


class Layer(Unit):
    """lane-less unit: x is [input], outs are one flat sequence"""
    typed = None

    def inputs(self, x):
        return [self.operand(x[0])]

    def operand(self, v):
        return ten(v, self.cfg.get("d", 0), self.shape, self.it, self.strided)

    def outs(self, ts):
        return [[v for t in ts for v in self.read(t)]]

    def read(self, t):
        return dy(t)

    def xshape(self):
        return list(self.shape)


class RNGUnit(Layer):
    def build(self):
        from UnarySim.stream import RNG
        c = self.cfg
        return RNG({"width": c["w"], "dimr": c["d"], "rng": self.name(c["name"])}, {"rtype": self.rt})

    def inputs(self, x):
        return []

    def call(self, ins):
        return self.mod()

    def xshape(self):
        return [2 ** self.cfg["w"]]

    def read(self, t):
        return ints(t)


class BinGenUnit(Layer):
    def build(self):
        return None

    def call(self, ins):
        from UnarySim.stream import BinGen
        m = BinGen(ins[0], {"width": self.cfg["width"], "mode": self.name(self.cfg["mode"])}, {"rtype": self.rt})
        a = m()
        b = m()
        assert torch.equal(a, b)
        return b

    def read(self, t):
        return ints(t)


class RawScaleUnit(Layer):
    def build(self):
        from UnarySim.stream import RawScale
        q = self.cfg["qn"] / self.cfg["qd"]
        return RawScale({"quantile": int(q) if q == 1 and self.py.get("qint") else q})

    def read(self, t):
        return fixed(t, 2 ** 14)


class RoundUnit(Layer):
    def build(self):
        from UnarySim.kernel.utils import Round
        return Round(intwidth=self.cfg["iw"], fracwidth=self.cfg["fw"])

    def operand(self, v):
        if not v:
            return None
        return arrange([math.ldexp(m, e) for m, e in v], self.shape, self.it, self.strided)

    def call(self, ins):
        r = self.mod(ins[0])
        if ins[0] is None:
            assert r is None, "Round(None) must be None"
            return ()
        return r


class RoundGradUnit(RoundUnit):
    typed = []

    def call(self, ins):
        with torch.enable_grad():
            x = (torch.randn(self.shape) * 40).to(self.it).requires_grad_(True)
            self.mod(x).backward(ins[0])
        return x.grad


class HubActUnit(Layer):
    def build(self):
        from UnarySim.kernel import HUBHardsigmoid, HUBHardtanh, HUBReLU
        c = self.cfg
        s = c["sn"] / c["sd"]
        if c["f"] == "hsig":
            return HUBHardsigmoid() if self.py.get("default") else HUBHardsigmoid(scale=s)
        if c["f"] == "htanh":
            return HUBHardtanh()
        return HUBReLU() if self.py.get("default") else HUBReLU(scale=s)

    def read(self, t):
        return fixed(t, 2 ** 14)


def qv(n, d):
    return 1 if n == d else n / d


class Mat(Layer):
    """HUB / FXP / TLUT linear and convolution layers"""

    def build(self):
        import UnarySim.kernel.linear as L
        import UnarySim.kernel.conv as C
        c, k = self.cfg, self.py.get("layer") or self.case["kind"]
        self.conv = k.endswith("conv")
        g = c.get("g")
        no = len(c["wn"])
        dt = DT[self.py.get("dt", "float")]
        w = ten(c["wn"], c["dw"], [no, g["C"], g["kh"], g["kw"]] if self.conv else None)
        b = ten(c["bn"], c["db"]) if c["hasb"] else None
        lc = lambda s: self.name(s)
        fam = k[:-4] if self.conv else k[:-3]
        q = dict(quantilei=qv(c["qin"], c["qid"]), quantilew=qv(c["qwn"], c["qwd"]), rounding=lc(c["rmode"]))
        cyc = None if c.get("cyc", -1) == -1 else c["cyc"]
        if fam == "hub":
            hw = dict(widthi=c["width"], widthw=c["width"], rngi=lc(self.py["rngi"]), rngw=lc(self.py["rngw"]), cycle=cyc, signmag=True, **q)
        elif fam == "fxp":
            hw = dict(widthi=c["widthi"], widthw=c["widthw"], **q)
        else:
            t = c["temporal"]
            if self.py.get("longname"):
                t = {"i": "input", "w": "weight"}[t]
            hw = dict(temporal=lc(t), widtht=c["widtht"], formati=lc(c["formati"]), widthi=c["widthi"], formatw=lc(c["formatw"]),
                      widthw=c["widthw"], cycle=cyc, signmag=True, **q)
        cls = getattr(C if self.conv else L, {"hub": "HUB", "fxp": "FXP", "tlut": "TLUT"}[fam] + ("Conv2d" if self.conv else "Linear"))
        self.hw = hw
        late = self.py.get("late")
        kw = dict(bias=c["hasb"], hwcfg=hw)
        if not late:
            kw.update(weight_ext=w, bias_ext=b)
        if self.conv:
            m = cls(g["C"], no, **geo_args(g, self.py), **kw)
        else:
            m = cls(len(c["wn"][0]), no, **kw)
        if late:                              # parameters loaded after construction
            with torch.no_grad():
                m.weight.copy_(w)
                if b is not None:
                    m.bias.copy_(b)
        return m.to(dt) if dt != torch.float32 else m

    def operand(self, v):
        c = self.cfg
        g = c.get("g")
        sh = [c["batch"], g["C"], g["H"], g["W"]] if self.conv else [c["batch"], len(c["wn"][0])]
        return ten(v, c["dx"], sh, DT[self.py.get("dt", "float")], self.strided)

    def xshape(self):
        c = self.cfg
        if self.conv:
            return [c["batch"], len(c["wn"])] + list(out_hw(c["g"]))
        return [c["batch"], len(c["wn"])]


class GradUnit(Mat):
    typed = []

    def inputs(self, x):
        c = self.cfg
        g = ten(x[0]["g"], c["dg"], Mat.xshape(self), torch.float32, self.strided)
        return [self.operand(x[0]["x"]), g]

    def call(self, ins):
        c, m = self.cfg, self.mod
        with torch.enable_grad():
            x = ins[0].clone().requires_grad_(c["rgx"])
            ps = [(x, c["rgx"]), (m.weight, c["rgw"])] + ([(m.bias, c["rgb"])] if c["hasb"] else [])
            for p, on in ps[1:]:
                p.requires_grad_(on)
                p.grad = None
            y = m(x)
            if self.py.get("twice"):          # another forward before the backward of the first
                m(-x.detach() / 2 + 1)
            y.backward(ins[1])
        for p, on in ps:
            assert on or p.grad is None, "gradient delivered to an operand that requires none"
        return tuple(torch.full([1], float("nan")) if p.grad is None else p.grad for p, on in ps if on)

    shaped = False


class HubMgu(Unit):
    """lanes = batch rows"""
    def build(self):
        from UnarySim.kernel import HUBMGUCell
        from units import lin_params
        c, r = self.cfg, self.py["rng"]
        wf, bf = lin_params(c["f"])
        wn, bn = lin_params(c["n"])
        self.nh = len(c["f"]["wn"])
        return HUBMGUCell(c["nin"], self.nh, bias=c["f"]["hasb"], weight_ext_f=wf, bias_ext_f=bf, weight_ext_n=wn, bias_ext_n=bn,
                          hwcfg={"width": r["width"], "mode": self.name("bipolar"), "depth": c["depth"], "depth_ismul": c["ismul"],
                                 "rng": self.name(r["rng"]), "dimr": r["dimr"]})

    def inputs(self, x):
        n, D = self.cfg["nin"], self.cfg["hden"]
        a = arrange([[p / D for p in v[:n]] for v in x], [self.lanes, n], torch.float32, self.strided)
        h = arrange([[p / D for p in v[n:]] for v in x], [self.lanes, self.nh], torch.float32, self.strided)
        return [a, None if self.py.get("none") else h]

    def xshape(self):
        return [self.lanes, self.nh]

    def outs(self, ts):
        v = ints(ts[0], 2 ** self.cfg["width"])
        return [v[i * self.nh:(i + 1) * self.nh] for i in range(self.lanes)]


class Pipe(Unit):
    """raw values -> (RawScale) -> BinGen -> BSGen -> unit -> ProgError, all of one full period, built anew at every call"""
    shaped = False
    typed = []

    def build(self):
        return None

    def inputs(self, x):
        return [x[0]]

    def call(self, ins):
        from UnarySim.stream import RNG, BinGen, BSGen, RawScale
        from UnarySim.metric import ProgError
        import UnarySim.kernel as K
        v, c, py, D = ins[0], self.cfg, self.py, 2.0 ** self.cfg["d"]
        w, mode, f = c["width"], self.name(c["mode"]), c["f"]
        n = len(v["x"])
        shape = [1, n] if f in ("lin", "linpc") else [n]
        x = torch.tensor(v["x"], dtype=torch.float32).reshape(shape) / D
        if py.get("raw") and max(abs(q) for q in v["x"]) == D:
            x = RawScale({"quantile": 1})(x * py["raw"])
        hwx = {"width": w, "rng": self.name(py["rx"]["rng"]), "dimr": py["rx"]["dimr"], "mode": mode}
        hww = {"width": w, "rng": self.name(py["rng"]["rng"]), "dimr": py["rng"]["dimr"], "mode": mode}
        enc = BSGen(BinGen(x, hwx, self.sw)(), RNG(hwx, self.sw)(), self.sw)
        if f == "mul":
            u = K.FSUMul(torch.tensor(v["w"], dtype=torch.float32) / D, dict(hww, static=True), self.sw)
        elif f == "muli":
            u = K.FSUMul(None, dict(hww, static=False), self.sw)
        elif f == "add":
            u = K.FSUAdd({"mode": mode, "scale": None, "dima": 0, "depth": c["depth"], "entry": None}, self.sw)
        elif f == "hsig":
            u = K.FSUHardsigmoid({"mode": mode, "depth": c["depth"]}, self.sw)
        elif f == "relu":
            u = K.FSUReLU({"depth": c["depth"]}, self.sw)
        elif f in ("lin", "linpc"):
            wt = torch.tensor(v["w"], dtype=torch.float32) / D
            bs = torch.tensor(v["b"], dtype=torch.float32) / D if c["hasb"] else None
            cls = K.FSULinear if f == "lin" else K.FSULinearPC
            u = cls(n, len(v["w"]), bias=c["hasb"], weight_ext=wt, bias_ext=bs, hwcfg=dict(hww, scale=None, depth=c["depth"]), swcfg=self.sw)
        else:
            u = lambda b: b
        pe, total = None, None
        for t in range(2 ** w):
            b = enc(torch.full(shape, t, dtype=torch.long))
            o = u(b[0:1], b[1:2]) if f == "muli" else u(b)
            if f == "linpc":
                total = o.to(torch.float64) if total is None else total + o
                continue
            if pe is None:
                pe = ProgError(torch.zeros_like(o, dtype=torch.float32), {"scale": 1, "mode": mode})
            pe.Monitor(o)
            if t in py.get("peek", []):
                pe()                            # reading early must not disturb the run
        if f == "linpc":
            return total
        q = pe()[0]
        return q * 2 ** w if c["mode"] == "unipolar" else (q + 1) / 2 * 2 ** w

    def xshape(self):
        return []

    def outs(self, ts):
        return [ints(ts[0])]


class HardMgu(Unit):
    def build(self):
        from UnarySim.kernel import HardMGUCell, HardMGUCellFXP
        c = self.cfg
        self.nh = len(c["wf"])
        if self.case["kind"] == "hardmgu":
            m = HardMGUCell(c["nin"], self.nh, bias=c["hasb"], hard=c["hard"])
        else:
            m = HardMGUCellFXP(c["nin"], self.nh, bias=c["hasb"], hard=c["hard"], intwidth=c["iw"], fracwidth=c["fw"])
        with torch.no_grad():
            m.weight_f.copy_(torch.tensor(c["wf"]) / 8)
            m.weight_n.copy_(torch.tensor(c["wn"]) / 8)
            if c["hasb"]:
                m.bias_f.copy_(torch.tensor(c["bf"]) / 8)
                m.bias_n.copy_(torch.tensor(c["bb"]) / 8)
        return m

    def inputs(self, x):
        n = self.cfg["nin"]
        a = arrange([[p / 8 for p in v[:n]] for v in x], [self.lanes, n], torch.float32, self.strided)
        h = arrange([[p / 8 for p in v[n:]] for v in x], [self.lanes, self.nh], torch.float32, self.strided)
        return [a] if self.py.get("none") == 1 else [a, None] if self.py.get("none") else [a, h]

    def xshape(self):
        return [self.lanes, self.nh]

    def outs(self, ts):
        v = fixed(ts[0], 2 ** 20) if self.case["kind"] == "hardmgu" else ints(ts[0], 2 ** self.cfg["fw"])
        return [v[i * self.nh:(i + 1) * self.nh] for i in range(self.lanes)]


class ActGrad(HubActUnit):
    """one step: forward and backward of one tensor"""
    def inputs(self, x):
        return [self.operand(x[0]["x"]), ten(x[0]["g"], 3, self.shape, self.it)]

    def call(self, ins):
        with torch.enable_grad():
            x = ins[0].clone().requires_grad_(True)
            self.mod(x).backward(ins[1])
        return x.grad


class CellGrad(HardMgu):
    """one lane: a batch forward and backward; rows of x, h, incoming gradient"""
    typed = []
    shaped = False

    def build(self):
        from UnarySim.kernel import HardMGUCell, HardMGUCellFXP
        c = self.cfg
        self.case["kind"], k = "hardmgufxp" if c["fxp"] else "hardmgu", self.case["kind"]
        try:
            return super().build()
        finally:
            self.case["kind"] = k

    def inputs(self, x):
        c, n = self.cfg, self.cfg["nin"]
        k = n + 2 * self.nh
        rows = [x[0][i:i + k] for i in range(0, len(x[0]), k)]
        part = lambda a, b: arrange([[p / 8 for p in v[a:b]] for v in rows], [len(rows), b - a], torch.float32, self.strided)
        return [part(0, n), part(n, n + self.nh), part(n + self.nh, k)]

    def call(self, ins):
        c, m = self.cfg, self.mod
        with torch.enable_grad():
            x, h = (t.clone().requires_grad_(c["rgx"]) for t in ins[:2])
            ps = [m.weight_f, m.weight_n] + ([m.bias_f, m.bias_n] if c["hasb"] else [])
            for p in ps:
                p.grad = None
            y = m(x) if c["none"] else m(x, h)
            if self.py.get("twice"):          # another forward before the backward of the first
                m(-x.detach() / 2 + .5, h.detach() / 2)
            y.backward(ins[2])
        got = ([x] + ([] if c["none"] else [h]) if c["rgx"] else []) + ps
        return tuple(torch.full([1], float("nan")) if p.grad is None else p.grad.clone() for p in got)

    def outs(self, ts):
        return [[v for t in ts for v in fixed(t, 2 ** 20)]]


class ShapeUnit(Layer):
    """in = {h, k, s, d, p, o, t, real}; arguments of length 1 (scalar), 2 (pair), 4 (per-side padding)"""
    typed = []

    def build(self):
        import UnarySim.kernel.utils as U
        return {"conv": U.conv2d_output_shape, "trans": U.convtransp2d_output_shape,
                "convpad": U.conv2d_get_padding, "transpad": U.convtransp2d_get_padding}[self.cfg["f"]]

    def inputs(self, x):
        return [x[0]]

    @staticmethod
    def arg(a):
        return a[0] if len(a) == 1 else tuple(a) if len(a) == 2 else ((a[0], a[1]), (a[2], a[3]))

    @staticmethod
    def ax(a):
        return (a[0], a[0]) if len(a) == 1 else tuple(a)

    def call(self, ins):
        a, f = ins[0], self.cfg["f"]
        A = lambda k: self.arg(a[k])
        kw = dict(kernel_size=A("k"), stride=A("s"), dilation=A("d"))
        r = []
        H, W = self.ax(a["h"])
        ker = torch.zeros([1, 1, *self.ax(a["k"])])
        img = torch.zeros([1, 1, H, W])
        st, di = self.ax(a["s"]), self.ax(a["d"])

        def conv(p):
            i = torch.nn.functional.pad(img, (p[2], p[3], p[0], p[1]))
            return list(torch.nn.functional.conv2d(i, ker, stride=st, dilation=di).shape[2:])

        def trans(p):
            # torch trims the same amount on both sides: trim per side by hand
            o = torch.nn.functional.conv_transpose2d(img, ker, stride=st, dilation=di, output_padding=self.ax(a["o"]))
            return [o.shape[2] - p[0] - p[1], o.shape[3] - p[2] - p[3]]
        if f == "conv":
            r = list(self.mod(A("h"), pad=A("p"), **kw))
        elif f == "trans":
            r = list(self.mod(A("h"), pad=A("p"), out_pad=A("o"), **kw))
        elif f == "convpad":
            r = [v for p in self.mod(A("h"), A("t"), **kw) for v in p]
        else:
            r = [v for p in self.mod(A("h"), A("t"), out_pad=A("o"), **kw) for v in p]
        if a["real"]:
            p = r[:4] if f.endswith("pad") else list(a["p"]) if len(a["p"]) == 4 else [self.ax(a["p"])[0]] * 2 + [self.ax(a["p"])[1]] * 2
            r += conv(p) if f.startswith("conv") else trans(p)
        self.res = [int(v) if v == int(v) else SENT for v in r]
        return ()

    def outs(self, ts):
        return [self.res]


class ClipperUnit(Layer):
    typed = []

    def build(self):
        from UnarySim.kernel.utils import NN_SC_Weight_Clipper
        c = self.cfg
        sh = self.py["wshape"]
        if c["hasw"] and len(sh) == 4:
            m = torch.nn.Conv2d(sh[1], sh[0], (sh[2], sh[3]), bias=c["hasb"])
        elif c["hasw"]:
            m = torch.nn.Linear(sh[1], sh[0], bias=c["hasb"])
        else:
            m = torch.nn.Module()
            if c["hasb"]:
                m.bias = torch.nn.Parameter(torch.zeros(self.py["nb"]))
        self.m = m
        kw = {} if self.py.get("default") else {"frequency": c["freq"]}
        return NN_SC_Weight_Clipper(mode=c["mode"], bitwidth=c["bw"], **kw)

    def inputs(self, x):
        return [x[0]]

    def call(self, ins):
        c, m = self.cfg, self.m
        S = 2 ** (c["bw"] if c["mode"] == "unipolar" else c["bw"] - 1)
        ps = ([("w", m.weight)] if c["hasw"] else []) + ([("b", m.bias)] if c["hasb"] else [])
        with torch.no_grad():
            for k, p in ps:
                if ins[0][k]:
                    p.data = ten(ins[0][k], c["d"], list(p.shape))
        ids = [id(p) for _, p in ps]
        if self.py.get("apply"):
            m.apply(self.mod)
        else:
            self.mod(m)
        ps = [(k, getattr(m, {"w": "weight", "b": "bias"}[k])) for k, _ in ps]
        assert ids == [id(p) for _, p in ps], "parameters must be clipped in place"
        self.res = [v for _, p in ps for v in ints(p, S)]
        return ()

    def outs(self, ts):
        return [self.res]


class ReportUnit(Layer):
    """printed statistics"""
    typed = []

    def build(self):
        import UnarySim.kernel.utils as U
        from UnarySim.metric import ProgError
        c, p = self.cfg, self.py
        if c["f"] == "prog":
            src = ten(c["src"], c["d"], p["shape"]) * p["scale"]
            self.m = ProgError(src, {"scale": p["scale"], "mode": self.name(c["mode"])})
        return {"outlier": U.tensor_unary_outlier, "prog": U.progerror_report}[c["f"]]

    def inputs(self, x):
        return [x[0]]

    def call(self, ins):
        c, p, a = self.cfg, self.py, ins[0]
        out = io.StringIO()
        kw = {} if c["label"] == p["defname"] else dict(name=c["label"])
        with contextlib.redirect_stdout(out):
            if c["f"] == "outlier":
                self.mod(ten(a, c["d"], p["shape"], self.it, self.strided), **kw)
            else:
                for b in a["bits"]:
                    self.m.Monitor(torch.tensor(b, dtype=self.st).reshape(p["shape"]))
                if c["value"] or p["spell"]:
                    kw["report_value"] = c["value"]
                if c["relative"] or p["spell"]:
                    kw["report_relative"] = c["relative"]
                self.mod(self.m, **kw)
        self.res = [self.line(l) for l in out.getvalue().splitlines()]
        return ()

    def line(self, l):
        num = r"(-?[\d.]+(?:e[-+]?\d+)?|-?nan|-?inf)"
        nums = re.findall(r"[,:]\s*" + num + r"(?=\s*(?:[,;%]|$))", l)
        if self.cfg["f"] == "outlier":
            a, b, o = (float(v) for v in nums)
            assert re.search(r":\s*min:.*;\s*max:.*;\s*outlier:.*%", l), l
            return [l.split(":")[0].strip()] + [fixed(torch.tensor(v, dtype=torch.float64), s)[0] for v, s in ((a, 1e6), (b, 1e6), (o, 1e4))]
        head = l.split(",")
        what = " ".join(head[1].replace("range", "").split())
        names = re.findall(r",\s*(std|mean|rmse)\s*,", l)
        assert names == ["std", "mean", "rmse"][:len(nums) - 2], l
        s = 64 if what == "Relative Error" else 2048
        return [head[0].strip(), what] + [fixed(torch.tensor(float(v), dtype=torch.float64), s)[0] for v in nums]

    def outs(self, ts):
        return [self.res]


class TnormUnit(Layer):
    """truncated normal tensors, and the initial parameters of the cells that use them"""
    typed = []

    def build(self):
        import UnarySim.kernel.utils as U
        import UnarySim.kernel as K
        return getattr(K, self.py["cell"]) if "cell" in self.py else U.truncated_normal

    def inputs(self, x):
        return [x[0]]

    def call(self, ins):
        c, p = self.cfg, self.py
        torch.manual_seed(ins[0])
        if "cell" in p:
            m = self.mod(p["nin"], p["nh"], bias=p["hasb"])
            shapes = {k: tuple(v.shape) for k, v in m.named_parameters()}
            ws, bs = (p["nh"], p["nh"] + p["nin"]), (p["nh"],)
            assert shapes == dict(weight_f=ws, weight_n=ws, **(dict(bias_f=bs, bias_n=bs) if p["hasb"] else {})), "parameters of the cell"
            z = torch.cat([v.detach().double().flatten() for v in m.parameters()]) * math.sqrt(p["nh"])
        else:
            mean, std = p["mean"], p["std"]
            dt = DT[p["itype"]]
            t = self.mod(torch.full(p["shape"], float(ins[0] % 7), dtype=dt), **({} if p["default"] else dict(mean=mean, std=std)))
            assert list(t.shape) == p["shape"] and t.dtype == dt, "shape or type of the initialised tensor"
            z = (t.double() - mean) / std
        self.res = fixed(z, 2 ** 18)
        return ()

    def outs(self, ts):
        return [self.res]


def redraw(run):
    """the initialisation as a process; its reachable results are exactly the vectors in band"""
    import itertools
    n, d = (4, 3) if core.THOROUGH else (3, 3)
    r = core.run_tlc("Redraw", dict(n=n, d=d, rngs=[]))
    if r["rc"] != 0:
        raise core.Machinery("Redraw: " + r["text"][-2000:])
    u = 2 ** 18
    if {tuple(p[1]) for p in r["printed"] if p[0] == "V"} != {tuple(x * u for x in v) for v in itertools.product(range(-2, 3), repeat=n)}:
        raise core.Machinery("Redraw: results are not the vectors in band")
    run.states += r["states"]
    run.transitions += r["generated"]


ADAPT = {"rng": RNGUnit, "bingen": BinGenUnit, "rawscale": RawScaleUnit, "round": RoundUnit, "roundgrad": RoundGradUnit,
         "hubact": HubActUnit, "hublin": Mat, "fxplin": Mat, "tlutlin": Mat, "hubconv": Mat, "fxpconv": Mat, "tlutconv": Mat,
         "grad": GradUnit, "hubmgu": HubMgu, "hardmgu": HardMgu, "hardmgufxp": HardMgu, "shape": ShapeUnit, "clipper": ClipperUnit, "pipe": Pipe, "report": ReportUnit, "tnorm": TnormUnit, "actgrad": ActGrad, "cellgrad": CellGrad,
         "rtl": __import__("rtl").RtlUnit}
