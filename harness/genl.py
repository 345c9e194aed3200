"""Random generation of configurations and calls for the binary-domain units."""
import math
from units import layouts, out_hw

NAMES = ["sobol", "rc", "race", "tc", "race10", "tc10"]
TEMP = ["race", "tc", "race10", "tc10"]
# Sobol dimensions the specification tabulates (spec/NumberSource.tla, JK)
DIMS = 21


def fits(width, d):
    """do the numbers 0..2^width (inclusive) survive in element type d?"""
    return width <= {"int8": 6, "uint8": 7, "int16": 14, "half": 11, "bf16": 8}.get(d, 24)


class GenL:
    # ------------------------------------------------------------- encoders --
    def rng(self, name=None, **o):
        name = name or self.pick(NAMES + ["sobol", "sobol", "sobol", "lfsr", "sys"])
        w = self.pick([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10]) if name != "lfsr" else self.pick([2, 3, 4, 5, 6, 7, 8, 9])
        d = self.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 21, 22, 40, 101]) if name in ("sobol", "rc") else self.pick([1, 2, 5])
        if self.r.random() < .05 and name != "lfsr":
            w = self.pick([11, 12])
        if name in ("sobol", "rc") and w > 8:
            w = 8 if d > DIMS else w
        det = name in ("race", "tc", "race10", "tc10") or (name in ("sobol", "rc") and d <= DIMS)
        rt = self.pick([t for t in ["float", "double", "int8", "uint8", "int16", "int32", "long", "half", "bf16"] if fits(w - (t not in ("bf16", "half")) * 1, t)])
        cfg = dict(name=name, w=w, d=d, r=self.src(name, w, d) if det else -1)
        return self.lcase("rng", cfg, dict(rtype=rt, odt=rt)), [[0]] * self.pick([2, 3])

    def lcase(self, kind, cfg, py, lanes=1):
        p = dict(case=self.r.randrange(3), strided=self.r.randrange(3), shape=[1], retro=True)
        p.update(py)
        return self.case(kind, cfg, lanes, p)

    def tens(self, n=None):
        """a shape and its number of elements"""
        n = n or self.pick([1, 2, 3, 5, 6, 8, 12, 16, 24])
        return self.pick(layouts(n)), n

    def bingen(self, **o):
        mode, w = self.pick(["unipolar", "bipolar"]), self.pick([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
        d = self.pick([w, w + 1, w + 2, 3, 5])
        sh, n = self.tens()
        rt = self.pick([t for t in ["float", "double", "int8", "uint8", "int16", "int32", "long", "half", "bf16"] if fits(w, t)])
        D = 2 ** d
        lo = -D if mode == "bipolar" else 0
        val = lambda: self.r.choice([lo, D, 0, self.r.randint(lo, D), self.r.randint(lo, D), self.r.randint(lo, D)])
        it = self.pick(["float", "float", "double"])
        return self.lcase("bingen", dict(mode=mode, width=w, d=d), dict(shape=sh, rtype=rt, odt=rt, itype=it)), \
            [[[val() for _ in range(n)]] for _ in range(self.pick([2, 4]))]

    def rawscale(self, **o):
        qn, qd = self.pick([(1, 1), (1, 1), (1, 2), (3, 4), (7, 8), (15, 16), (1, 8)])
        d = self.pick([0, 3, 8, 20, -5])
        sh, n = self.tens(self.pick([2, 3, 5, 6, 8, 12, 16, 24, 48]))
        def vals():
            k = self.r.randrange(5)
            m = self.pick([3, 20, 127, 255])
            v = [self.r.randint(-m, m) for _ in range(n)]
            if k == 0:
                v = [abs(x) for x in v]
            if k == 1:
                v = [-abs(x) for x in v]
            if k == 2:
                v[self.r.randrange(n)] = 255 * self.pick([1, -1])
            # a tensor without range has no scale (0/0); keep it out
            s = sorted(v)
            def q(p, den):
                f, i = p * (n - 1) % den, p * (n - 1) // den
                return s[i] * den + (f * (s[i + 1] - s[i]) if f else 0)
            if q(qd - qn, 2 * qd) == 0 and q(qd + qn, 2 * qd) == 0:
                v = [x + 1 for x in v]
                v = v if any(v) else [1] * n
                s = sorted(v)
                if q(qd - qn, 2 * qd) == 0 and q(qd + qn, 2 * qd) == 0:
                    return vals()
            return v
        it = self.pick(["float", "float", "double"])
        return self.lcase("rawscale", dict(qn=qn, qd=qd, d=d), dict(shape=sh, itype=it, odt=it, qint=self.r.randrange(2))), [[vals()] for _ in range(3)]

    def dyv(self, emin, emax, mbits):
        r = self.r
        m = r.choice([0, 1, -1, 3, r.randint(-2 ** mbits + 1, 2 ** mbits - 1), r.randint(-2 ** mbits + 1, 2 ** mbits - 1)])
        e = r.randint(emin, emax)
        while m and m % 2 == 0:
            m, e = m // 2, e + 1
        return [m, e] if m else [0, 0]

    def round(self, **o):
        iw, fw = self.pick([(0, 3), (1, 2), (3, 4), (3, 4), (2, 0), (0, 0), (4, 8), (7, 3), (5, 5), (0, 10), (10, 0)])
        it = self.pick([t for t in ["float", "float", "float", "double", "half", "bf16"] if iw + fw <= {"half": 10, "bf16": 7}.get(t, 99)])
        sh, n = self.tens()
        def vals():
            k = self.r.randrange(4)
            if self.r.random() < .1:
                return []
            if k < 2:                        # around the grid, ties included
                mb = 6 if it == "bf16" else 9
                v = [self.dyv(-fw - 2, -fw - 1, min(mb, iw + fw + 3)) for _ in range(n)]
            elif k == 2:                     # around the clamp
                T = 2 ** (iw + fw) - 1
                v = []
                for _ in range(n):
                    m = 4 * T + self.r.randint(-6, 6) if it not in ("half", "bf16") else T + self.r.randint(-1, 1)
                    e = -fw - 2 if it not in ("half", "bf16") else -fw
                    m *= self.pick([1, -1])
                    while m and m % 2 == 0:
                        m, e = m // 2, e + 1
                    v.append([m, e] if m else [0, 0])
            else:
                lim = dict(half=(-12, 4), bf16=(-60, 60)).get(it, (-80, 80))
                v = [self.dyv(*lim, {"half": 8, "bf16": 6}.get(it, 20)) for _ in range(n)]
            if self.r.random() < .5 and n > 1:
                h = n // 2
                v[h:2 * h] = [[-a[0], a[1]] for a in v[:h]]
            return v
        return self.lcase("round", dict(iw=iw, fw=fw), dict(shape=sh, itype=it, odt=it)), [[vals()] for _ in range(4)]

    def roundgrad(self, **o):
        iw, fw = self.pick([(0, 3), (3, 4), (2, 0), (4, 8)])
        sh, n = self.tens()
        return self.lcase("roundgrad", dict(iw=iw, fw=fw), dict(shape=sh, itype="float", retro=False)), \
            [[[self.dyv(-6, 6, 8) for _ in range(n)]] for _ in range(2)]

    def hubact(self, f=None, **o):
        f = f or self.pick(["hsig", "htanh", "relu"])
        sn, sd = (3, 1) if f == "hsig" and self.r.random() < .6 else self.pick([(1, 1), (2, 1), (1, 2), (4, 1), (3, 1), (6, 1)])
        dflt = (f == "hsig" and sn == 3) or (f == "relu" and sn == sd == 1)
        sh, n = self.tens()
        it = self.pick(["float", "float", "double"])
        d = self.pick([0, 2, 4])
        return self.lcase("hubact", dict(f=f, sn=sn, sd=sd, d=d), dict(shape=sh, itype=it, odt=it, default=dflt and self.r.random() < .5)), \
            [[[self.r.randint(-8 * 2 ** d, 8 * 2 ** d) for _ in range(n)]] for _ in range(3)]

    # --------------------------------------------------------------- layers --
    def quant(self):
        return self.pick([(1, 1), (1, 1), (1, 1), (3, 4), (7, 8), (1, 2)])

    def matvals(self, n, m):
        """n integers up to m with the range shapes that matter to the scaling"""
        r, k = self.r, self.r.randrange(9)
        if k == 0:
            return [0] * n
        v = [r.randint(-m, m) for _ in range(n)]
        if k == 1:
            v = [r.choice([0, 0, 1, -1]) * self.pick([1, m]) for _ in range(n)]
        elif k == 2:                         # one outlier
            v = [r.randint(-max(1, m // 8), max(1, m // 8)) for _ in range(n)]
            v[r.randrange(n)] = m
        elif k == 3:
            v = [abs(x) for x in v]
        elif k == 4:
            p = 2 ** r.randint(0, m.bit_length() - 1)
            v = [r.randint(-p, p) for _ in range(n)]
            v[r.randrange(n)] = p * self.pick([1, -1])
        return v

    def hubmap(self, ni, nw, w):
        return self.rngs.add_map(self.src(ni, w, 1), self.src(nw, w, 1), nw in TEMP, w)

    def mat(self, kind, fam, conv, wide=False):
        r = self.r
        c = dict(batch=self.pick([1, 1, 2, 3]), hasb=r.random() < .5, rmode=self.pick(["round", "floor", "ceil"]))
        py = dict(tuples=r.randrange(2), late=r.random() < .2)
        if conv:
            c["g"] = g = self.widegeo() if wide else self.geo()
            nin, c["batch"] = g["C"] * g["kh"] * g["kw"], self.pick([1, 2])
        else:
            nin = self.pick([270, 300, 330]) if wide else self.pick([1, 2, 3, 4, 5, 7])
        no = self.pick([1, 2, 3])
        (c["qin"], c["qid"]), (c["qwn"], c["qwd"]) = self.quant(), self.quant()
        c["dx"], c["dw"] = self.pick([0, 3, 6, 8, 8, 14, -3]), self.pick([0, 4, 7, 8, 8, 12, -2])
        mx, mw = self.pick([255, 100, 31, 7]), self.pick([255, 90, 17, 8])
        if wide:
            mx, mw, no = 31, 17, self.pick([1, 2])
            c["dx"] = c["dw"] = 5
        if fam == "hub":
            c["width"] = self.pick([2, 3, 3, 4, 4, 5, 5, 6, 8] if r.random() < .3 else [2, 3, 4, 5])
            ni, nw = self.pick(NAMES), self.pick(NAMES)
            if ni in TEMP and nw in TEMP:
                ni = "sobol"
            py.update(rngi=ni, rngw=nw)
            full = 2 ** (c["width"] - 1)
            c.update(hm=self.hubmap(ni, nw, c["width"] - 1), cyc=self.pick([-1, full, 2 * full, max(1, full // 2), max(1, full - 1), 1, full + 1]))
        elif fam == "fxp":
            hi = [2, 3, 4, 5, 8, 8, 9] if not wide else [4, 6, 8]
            c.update(widthi=self.pick(hi), widthw=self.pick(hi))
        else:
            fx = r.random()
            if fx < .5 or wide:
                fi = fw = "fxp"
            else:
                fl = ["bfloat16", "float16", "float32"]
                fi, fw = (self.pick(fl), self.pick(fl)) if fx < .72 else (self.pick(fl), "fxp") if fx < .86 else ("fxp", self.pick(fl))
            c.update(temporal=self.pick(["i", "w"]), widtht=self.pick([1, 2, 3, 4, 4, 5]), formati=fi, formatw=fw,
                     widthi=self.pick([2, 3, 5, 8, 8]), widthw=self.pick([2, 4, 6, 8]), cyc=-1)
            full = 2 ** c["widtht"]
            if r.random() < .6:
                c["cyc"] = self.pick([full, full + 3, max(1, full // 2), max(1, full - 1), 1, max(1, full // 2 + 1)])
            py["longname"] = r.random() < .3
            tf = fi if c["temporal"] == "i" else fw
            if tf == "float32":
                # 24-bit digits: keep every product a power-of-two multiple of one operand
                c["hasb"] = False
                if conv:
                    c["g"] = g = dict(g, C=1, kh=1, kw=1)
                    g["ph"] = g["pw"] = 0
                nin = 1
            if fi != "fxp" or fw != "fxp":
                mx, mw = min(mx, 127), min(mw, 127)
        nx = c["batch"] * (c["g"]["C"] * c["g"]["H"] * c["g"]["W"] if conv else nin)
        if fam == "tlut" and (c["formati"] if c["temporal"] == "i" else c["formatw"]) == "float32":
            p2 = lambda n: [r.choice([1, -1, 2, 4, -8, 0]) for _ in range(n)]
            if c["temporal"] == "i":
                c["wn"] = [p2(nin) for _ in range(no)]
                xs = lambda: self.matvals(nx, 2 ** self.pick([8, 16, 20]) - 1) if c["formatw"] != "fxp" and kind != "grad" else self.matvals(nx, 255)
            else:
                w = self.matvals(no * nin, 255)
                c["wn"] = [w[o * nin:(o + 1) * nin] for o in range(no)]
                xs = lambda: p2(nx)
        else:
            w = self.matvals(no * nin, mw)
            c["wn"] = [w[o * nin:(o + 1) * nin] for o in range(no)]
            xs = lambda: self.matvals(nx, mx)
        c["db"] = max(0, min(24, c["dx"] + c["dw"]))
        c["bn"] = [r.randint(-63, 63) if c["hasb"] else 0 for _ in range(no)]
        if "g" not in c:
            c["g"] = dict(C=1, H=1, W=1, kh=1, kw=1, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1)
        if conv:
            a, b = out_hw(c["g"])
        return self.lcase(kind, c, py), [[xs()] for _ in range(self.pick([2, 3]))]

    def hublin(self, **o):
        return self.mat("hublin", "hub", False, o.get("wide", False))

    def fxplin(self, **o):
        return self.mat("fxplin", "fxp", False, o.get("wide", False))

    def tlutlin(self, **o):
        return self.mat("tlutlin", "tlut", False, o.get("wide", False))

    def hubconv(self, **o):
        return self.mat("hubconv", "hub", True, o.get("wide", False))

    def fxpconv(self, **o):
        return self.mat("fxpconv", "fxp", True, o.get("wide", False))

    def tlutconv(self, **o):
        return self.mat("tlutconv", "tlut", True, o.get("wide", False))

    def grad(self, layer=None, **o):
        layer = layer or self.pick(["hublin", "fxplin", "tlutlin", "hubconv", "fxpconv", "tlutconv"])
        conv = layer.endswith("conv")
        case, stim = self.mat("grad", layer[:-4] if conv else layer[:-3], conv)
        c = case["cfg"]
        c["conv"], c["dg"] = conv, self.pick([0, 3, 6])
        k = self.r.randrange(2, 8) if c["hasb"] else self.r.choice([2, 4, 6, 6])
        k = 7 if self.r.random() < .5 else k
        c["rgx"], c["rgw"], c["rgb"] = bool(k & 2), bool(k & 4), bool(k & 1) and c["hasb"]
        case["py"].update(layer=layer, retro=False, twice=self.r.random() < .4)
        no = len(c["wn"])
        n = c["batch"] * no
        if conv:
            a, b = out_hw(c["g"])
            n *= a * b
        return case, [[dict(x=s[0], g=[self.r.randint(-20, 20) for _ in range(n)])] for s in stim]

    # ---------------------------------------------------------------- cells --
    def hubmgu(self, **o):
        c, _ = self.mgu(src=self.source([2, 2, 3, 3, 4], names=["sobol", "rc"], dims=(1, 2, 3, 4)), T=4)
        cfg = c["cfg"]
        n = self.pick([1, 2, 3])
        nin, nh, D = cfg["nin"], len(cfg["f"]["wn"]), cfg["hden"]
        none = self.r.random() < .25
        v = lambda: self.r.choice([-D, D, 0] + [self.r.randint(-D, D)] * 5)
        k = self.lcase("hubmgu", cfg, dict(rng=c["py"]["rng"], none=none, odt="float"), n)
        call = lambda: [[v() for _ in range(nin)] + [0 if none else v() for _ in range(nh)] for _ in range(n)]
        a = call()
        return k, [a, call(), a] if self.r.random() < .5 else [a, call()]

    def pipecfg(self, f, mode, sx, sw, d=None, depth=12, hasb=False):
        w = sw["width"]
        return dict(f=f, mode=mode, width=w, d=w if d is None else d, rng=sw["rng"], rx=self.src(**sx), rw=self.src(**sw), depth=depth, hasb=hasb,
                    lowd=sw["rng"] in ("sobol", "rc"), vdc=sx["rng"] in ("sobol", "rc") and sx["dimr"] == 1)

    def pipe(self, f=None, **o):
        r = self.r
        f = f or self.pick(["stream", "mul", "mul", "add", "hsig", "relu", "lin", "lin", "linpc", "muli"])
        mode = self.pick(["unipolar", "bipolar"])
        w = self.pick([2, 3, 4, 4, 5, 6, 7] + ([8, 9, 10] if f in ("stream", "add", "hsig", "relu") else [8] if f in ("mul",) else []))
        nin, no = self.pick([1, 2, 3, 5, 8]), self.pick([1, 2, 3])
        if f == "muli":
            nin, w = 2, min(w, 6)
        if w > 6:
            nin, no = min(nin, 3), 1
        sx = self.source([w])
        sw = self.source([w], names=["sobol", "sobol", "sobol", "rc", "race", "tc10"])
        hasb = f in ("lin", "linpc") and r.random() < .6
        cfg = self.pipecfg(f, mode, sx, sw, d=self.pick([w, w, w + 2]), depth=self.pick([3, 5, 8]) if f == "relu" else self.pick([8, 12]), hasb=hasb)
        D = 2 ** cfg["d"]
        lo = -D if mode == "bipolar" else 0
        v = lambda: r.choice([lo, D, 0] + [r.randint(lo, D)] * 6)
        call = lambda: dict(x=[v() for _ in range(nin)], w=[v() for _ in range(nin)] if f == "mul" else [[v() for _ in range(nin)] for _ in range(no)],
                            b=[v() for _ in range(no)])
        ty = "float" if f == "lin" else self.pick(["float", "float", "float", "int8", "int32", "double"])
        py = dict(rng=sw, rx=sx, odt="float", stype=ty, retro=False, raw=self.pick([0, 1, 4, 32]), peek=[r.randrange(2 ** w)])
        return self.lcase("pipe", cfg, py), [[call()] for _ in range(self.pick([1, 2, 3]))]

    def hardmgu(self, fxp=None, hard=None, **o):
        fxp = self.r.random() < .5 if fxp is None else fxp
        r = self.r
        nin, nh, n = self.pick([1, 2, 3]), self.pick([1, 2, 3]), self.pick([1, 2, 3])
        hard = r.random() < .7 if hard is None else hard
        hasb = r.random() < .7
        m = self.pick([4, 8, 8, 16])
        W = lambda: [[r.randint(-m, m) for _ in range(nh + nin)] for _ in range(nh)]
        c = dict(nin=nin, hard=hard, hasb=hasb, wf=W(), wn=W(), bf=[r.randint(-8, 8) for _ in range(nh)], bb=[r.randint(-8, 8) for _ in range(nh)])
        sg = lambda x: 1 / (1 + math.exp(-x))
        if fxp:
            while True:
                c["iw"], c["fw"] = self.pick([(3, 4), (0, 4), (1, 2), (3, 4), (2, 3), (0, 7), (3, 6)])
                if hard:
                    break
                F, top = 2 ** c["fw"], 2 ** (c["iw"] + c["fw"]) - 1
                lim = lambda v: max(-top, min(top, v))
                tie = lambda v: abs(v * F * 2 - round(v * F * 2)) < 1e-4 and round(v * F * 2) % 2 == 1
                sv = [sg(k / F) for k in range(-F, F + 1)]
                tv = [math.tanh(k / F) for k in range(-top, top + 1)]
                if any(tie(v) for v in sv + tv):
                    continue
                c["sig"], c["tanh"] = [lim(round(v * F)) for v in sv], [lim(round(v * F)) for v in tv]
                break
        elif not hard:
            c["sig"] = [round(2 ** 20 * sg(k / 64)) for k in range(-64, 65)]
            c["tanh"] = [round(2 ** 20 * math.tanh(k / 64)) for k in range(-512, 513)]
        none = self.pick([0, 0, 0, 1, 2])
        v = lambda: r.choice([-8, 8, 0] + [r.randint(-8, 8)] * 5)
        k = self.lcase("hardmgufxp" if fxp else "hardmgu", c, dict(none=none, odt="float"), n)
        return k, [[[v() for _ in range(nin)] + [0 if none else v() for _ in range(nh)] for _ in range(n)] for _ in range(4)]

    def actgrad(self, **o):
        c, st = self.hubact()
        c["kind"] = "actgrad"
        c["py"]["retro"] = False
        return c, [[dict(x=s[0], g=[self.r.randint(-16, 16) for _ in s[0]])] for s in st]

    def cellgrad(self, fxp=None, hard=None, **o):
        r = self.r
        fxp = r.random() < .5 if fxp is None else fxp
        hard = r.random() < .7 if hard is None else hard
        nin, nh, n = self.pick([1, 2, 3]), self.pick([1, 2, 3]), self.pick([1, 1, 2, 3])
        m = self.pick([3, 5, 8])
        W = lambda: [[r.randint(-m, m) for _ in range(nh + nin)] for _ in range(nh)]
        B = lambda: [r.randint(-m, m) for _ in range(nh)]
        c = dict(nin=nin, hard=hard, hasb=r.random() < .7, wf=W(), wn=W(), bf=B(), bb=B(), fxp=fxp, none=r.random() < .2, rgx=r.random() < .8)
        c["iw"], c["fw"] = self.pick([(3, 4), (0, 4), (1, 3), (2, 4), (3, 3)]) if fxp else (3, 4)
        if not hard:
            sg = lambda x: 1 / (1 + math.exp(-x))
            t = c["fw"] if fxp else 7
            k, K = (2 ** t, 2 ** (c["iw"] + t)) if fxp else (2 ** t, 2 ** (t + 3))
            c.update(tstep=t, sbase=k + 1, tbase=K + 1, sig=[round(2 ** 20 * sg(i / 2 ** t)) for i in range(-k, k + 1)],
                     tanh=[round(2 ** 20 * math.tanh(i / 2 ** t)) for i in range(-K, K + 1)])
        v = lambda: r.choice([-8, 8, 0] + [r.randint(-8, 8)] * 6)
        row = lambda: [v() for _ in range(nin)] + [0 if c["none"] else v() for _ in range(nh)] + [v() for _ in range(nh)]
        k = self.lcase("cellgrad", c, dict(odt="float", retro=False, twice=r.random() < .3))
        return k, [[[q for _ in range(n) for q in row()]] for _ in range(4)]

    # -------------------------------------------------------------- helpers --
    def shape(self, f=None, **o):
        f = f or self.pick(["conv", "trans", "convpad", "transpad"])
        r = self.r
        two = lambda lo, hi: [r.randint(lo, hi)] if r.random() < .4 else [r.randint(lo, hi), r.randint(lo, hi)]
        out = []
        ax = lambda a, k: a[0] if len(a) == 1 else a[k]
        while len(out) < 24:
            a = dict(h=two(1, 12), k=two(1, 4), s=two(1, 4), d=two(1, 3), o=two(0, 2), p=[0], t=[1])
            if r.random() < .7:
                a["p"] = two(0, 3) if r.random() < .5 else [r.randint(0, 3) for _ in range(4)]
            a["t"] = two(1, 12)
            ps = lambda k: a["p"][2 * k] + a["p"][2 * k + 1] if len(a["p"]) == 4 else 2 * ax(a["p"], k)
            real = 1
            for k in (0, 1):
                span = ax(a["d"], k) * (ax(a["k"], k) - 1) + 1
                if f == "conv" and ax(a["h"], k) + ps(k) < span:
                    real = -1
                if f.startswith("trans") and not (ax(a["o"], k) < max(ax(a["s"], k), ax(a["d"], k))):
                    real = 0
                if f == "trans" and (ax(a["h"], k) - 1) * ax(a["s"], k) - ps(k) + span + ax(a["o"], k) < 1:
                    real = -1
                if f == "convpad":
                    p = (ax(a["t"], k) - 1) * ax(a["s"], k) - ax(a["h"], k) + span
                    if p < 0:
                        real = min(real, 0)
            if real >= 0:
                a["real"] = real
                out.append(a)
        return self.lcase("shape", dict(f=f), dict(retro=False)), [[a] for a in out]

    def clipper(self, **o):
        r = self.r
        mode, bw = self.pick(["unipolar", "bipolar"]), self.pick([1, 2, 3, 4, 6, 8])
        d = self.pick([bw + 2, bw + 1, bw, bw + 3, 4])
        d = max(d, bw)
        freq = self.pick([1, 1, 1, 0, 2, 5])
        k = r.randrange(5)
        hasw, hasb = k != 4, k not in (2, 3)
        sh = self.pick([[3, 4], [1, 5], [2, 2, 2, 3], [4, 1]])
        nw = 1
        for s in sh:
            nw *= s
        nb = sh[0] if hasw else self.pick([2, 4])
        if nb == 1 and hasb:
            hasb = False                      # one value has no range to normalise
        if not hasw and not hasb:
            hasw = True
        def vals(n):
            m = 2 ** d * self.pick([1, 1, 2, 3])
            v = [r.randint(-m, m) for _ in range(n)]
            if len(set(v)) == 1:
                v[0] += 1
            return v
        st = []
        calls = self.pick([3, 4, 5])
        f = freq
        for t in range(calls):
            fresh = t == 0 or r.random() < .4 or f <= 1
            st.append([dict(w=vals(nw) if hasw and fresh else [], b=vals(nb) if hasb and fresh else [])])
            f += 1
        c = dict(mode=mode, bw=bw, d=d, freq=freq, hasw=hasw, hasb=hasb)
        return self.lcase("clipper", c, dict(wshape=sh, nb=nb, default=freq == 1 and r.random() < .5, apply=False, retro=False)), st

    def report(self, f=None, **o):
        r = self.r
        f = f or self.pick(["outlier", "prog", "prog", "prog"])
        name = {"outlier": "tensor", "prog": "progerror"}[f]
        label = self.pick([name, name, "add", "A longer label of this unit", "x_1"])
        if f == "outlier":
            d = r.randint(0, 6)
            sh = self.pick([[1], [7], [3, 5], [2, 2, 3], [2, 1, 2, 4]])
            n = math.prod(sh)
            v = lambda: r.choice([2 ** d, -2 ** d, 2 ** d + 1, -2 ** d - 1, 0] + [r.randint(-3 * 2 ** d, 3 * 2 ** d)] * 5)
            return self.lcase("report", dict(f=f, d=d, label=label), dict(shape=sh, itype=self.pick(["float", "double"]), defname=name, retro=False)), \
                [[[v() for _ in range(n)]] for _ in range(4)]
        mode = self.pick(["unipolar", "bipolar"])
        k = r.randint(2, 6)
        sh = self.pick([[k], [1, k], [k, 1]])
        d = r.randint(0, 4)
        rel = r.random() < .5
        src = [r.randint(-2 ** d if mode == "bipolar" else 0, 2 ** d) for _ in range(k)]
        n, cnt, steps = 0, [0] * k, []
        prob = [self.pick([0, 1, .5, r.random()]) for _ in range(k)]
        for nx in sorted(r.sample([1, 2, 4, 8, 16], r.randint(1, 4))):
            bits = [[int(r.random() < p) for p in prob] for _ in range(nx - n)]
            tot = [c + sum(b[i] for b in bits) for i, c in enumerate(cnt)]
            if rel:                           # x / 0 is not a number to report
                for i in range(k):
                    pp = 2 * tot[i] - nx if mode == "bipolar" else tot[i]
                    if pp == 0 and src[i] != 0:
                        b = bits[-1]
                        tot[i] += 1 - 2 * b[i]
                        b[i] = 1 - b[i]
            n, cnt = nx, tot
            steps.append([dict(bits=bits)])
        c = dict(f=f, k=k, d=d, src=src, mode=mode, label=label, value=r.random() < .5, relative=rel)
        return self.lcase("report", c, dict(shape=sh, scale=self.pick([1, 1, 2, 4]), stype=self.pick(["float", "int8", "double"]),
                                            defname=name, spell=r.random() < .5, retro=False)), steps

    def tnorm(self, **o):
        r = self.r
        call = lambda: [[r.randrange(10 ** 6)] for _ in range(3)]
        if r.random() < .4:
            ni, nh, hasb = self.pick([1, 2, 5, 40]), self.pick([1, 2, 3, 7, 16, 30]), r.random() < .6
            return self.lcase("tnorm", dict(k=2 * nh * (ni + nh) + 2 * nh * hasb),
                              dict(cell=self.pick(["HardMGUCell", "HardMGUCellFXP"]), nin=ni, nh=nh, hasb=hasb, retro=False)), call()
        sh = self.pick([[64], [3, 4], [2, 3, 2, 2], [50, 80], [1], [2000], [6000], [7, 1, 300]])
        dflt = r.random() < .3
        mean, std = (0.0, 0.01) if dflt else (self.pick([0.0, -2.0, 0.5, 16.0]), self.pick([0.01, 1.0, 0.25, 3.0]))
        return self.lcase("tnorm", dict(k=math.prod(sh)), dict(shape=sh, mean=mean, std=std, default=dflt, itype=self.pick(["float", "double"]), retro=False)), call()
