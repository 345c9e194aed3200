"""Small configurations explored exhaustively by TLC (spec/MC.tla), per unit kind."""
from itertools import product
from core import THOROUGH


def vecs(n):
    return [list(v) for v in product([0, 1], repeat=n)]


class Models:
    def __init__(self, g):
        self.g, self.out = g, []

    def add(self, kind, cfg, ins, lp=None, depth=0, emit=1, py=None, single=False):
        self.out.append(dict(kind=kind, cfg=cfg, lp=lp or [], ins=ins, depth=depth, emit=emit, py=py or {}, single=single))

    def src(self, rng, width, dimr=1):
        return dict(rng=rng, width=width, dimr=dimr), self.g.src(rng, width, dimr)

    def bsgen(self):
        for rng in ["sobol", "race", "race10"]:
            for w in [1, 2, 3]:
                s, r = self.src(rng, w, 2)
                for v in {0, 1, 2 ** w - 1, 2 ** w, 2 ** (w - 1)}:
                    self.add("bsgen", dict(r=r, perm=True), [[i] for i in range(2 * 2 ** w)], lp=[v], py=dict(rng=s, itype="long"))

    def bi2uni(self, kind):
        for d in [3, 4, 5, 6] + ([8, 10] if THOROUGH else []):
            self.add(kind, dict(depth=d), vecs(1))

    def sync(self):
        for d in [1, 2, 3, 4] + ([6, 8] if THOROUGH else []):
            self.add("sync", dict(depth=d), vecs(2))

    def signabs(self, kind):
        for d in [1, 2, 3, 4, 5] + ([8] if THOROUGH else []):
            self.add(kind, dict(depth=d), vecs(1))

    def shift(self):
        for n in [1, 2, 3, 4] + ([5, 6, 7] if THOROUGH else []):
            for idx in range(n):
                self.add("shift", dict(entry=n), [[b, m, idx] for b, m in product([0, 1], repeat=2)], py=dict(masked=True))

    def jk(self):
        self.add("jk", {}, vecs(2))

    def addu(self):
        for mode in ["unipolar", "bipolar"]:
            for n in [1, 2, 3] + ([4] if THOROUGH else []):
                for depth in [4, 5] + ([3, 7] if THOROUGH else []):
                    for csc, cent in [(-1, -1), (2, -1), (4, -1), (3, n + 1)]:
                        D = 2
                        if csc == 3:
                            D, csc = 4, 6
                        self.add("add", dict(mode=mode, depth=depth, n=n, D=D, csc=csc, rsc=-1, centry=cent, rentry=-1), vecs(n),
                                 py=dict(dima=0))

    def hsig(self):
        for mode in ["unipolar", "bipolar"]:
            for d in [3, 4, 5]:
                self.add("hsig", dict(mode=mode, depth=d), vecs(1))
        self.add("htanh", {}, vecs(1))

    def muls(self):
        for rng, dim in [("sobol", 1), ("sobol", 3), ("race10", 1)]:
            for w in [1, 2] + ([3] if THOROUGH else []):
                s, r = self.src(rng, w, dim)
                for mode in ["unipolar", "bipolar"]:
                    for v in range(0, 2 ** w + 1):
                        num = v if mode == "unipolar" else 2 * v - 2 ** w
                        self.add("muls", dict(mode=mode, width=w, r=r), vecs(1), lp=[num, 2 ** w], py=dict(rng=s))

    def muli(self):
        for rng, dim in [("sobol", 1), ("sobol", 3), ("race", 1)]:
            for w in [1, 2] + ([3] if THOROUGH else []):
                s, r = self.src(rng, w, dim)
                for mode in ["unipolar", "bipolar"]:
                    self.add("muli", dict(mode=mode, r=r), vecs(2), py=dict(rng=s))

    def div(self):
        for rng, dim in [("sobol", 4), ("sobol", 2), ("race10", 1)]:
            for w in [1, 2]:
                s, r = self.src(rng, w, dim)
                self.add("kern", dict(entry=2 ** w, r=r), vecs(2), py=dict(rng=s))
                for ss in [1, 2]:
                    self.add("div", dict(mode="unipolar", depth_sa=2, depth_ss=ss, entry=2 ** w, r=r), vecs(2), py=dict(rng=s))
        s, r = self.src("sobol", 1, 4)
        self.add("div", dict(mode="bipolar", depth_sa=2, depth_ss=1, entry=2, r=r), vecs(2), py=dict(rng=s))
        if THOROUGH:
            self.add("div", dict(mode="bipolar", depth_sa=3, depth_ss=2, entry=2, r=r), vecs(2), py=dict(rng=s), emit=0)

    def sqrt(self):
        s, r = self.src("sobol", 2, 4)
        for mode in ["unipolar", "bipolar"]:
            for v in ["jk", "div"]:
                self.add("sqrt", dict(mode=mode, variant=v, entry_sr=2, r=r), vecs(1), py=dict(rng=s))
            for e in [2, 4]:
                self.add("sqrt", dict(mode=mode, variant="emit", entry_sr=e, r=r), vecs(1), py=dict(rng=s), depth=0 if THOROUGH else 14)

    def lincfg(self, mode, s, r, wn, b, csc, depth):
        return dict(mode=mode, width=s["width"], rng=s["rng"], r=r, wn=wn, wden=2 ** s["width"], hasb=b is not None,
                    bn=b or [0] * len(wn), depth=depth, D=2, csc=csc, rsc=-1, centry=-1, rentry=-1)

    def lin(self):
        for mode in ["unipolar", "bipolar"]:
            for rng in ["sobol", "race"]:
                for w, wn, b in [(1, [[1, 2]], None), (2, [[1], [3]], [2, 1]), (2, [[3, -1 if mode == "bipolar" else 2]], [1])]:
                    s, r = self.src(rng, w, 1)
                    csc = 2 if rng == "sobol" else -1
                    c = self.lincfg(mode, s, r, wn, b, csc, 4)
                    ins = vecs(len(wn[0]))
                    self.add("linpc", c, ins, py=dict(rng=s))
                    self.add("lin", c, ins, py=dict(rng=s), depth=0 if THOROUGH else 9)

    def conv(self):
        for mode in ["unipolar", "bipolar"]:
            s, r = self.src("sobol", 1, 1)
            for g in [dict(C=1, H=2, W=1, kh=2, kw=1, sh=1, sw=1, ph=1, pw=0, dh=1, dw=1),
                      dict(C=1, H=1, W=3, kh=1, kw=2, sh=1, sw=2, ph=0, pw=1, dh=1, dw=2)]:
                k = g["kh"] * g["kw"]
                c = self.lincfg(mode, s, r, [[1, -1 if mode == "bipolar" else 2][:k]], [1], 2, 4)
                c["g"] = g
                for kind in ["convpc", "conv"]:
                    self.add(kind, c, vecs(g["H"] * g["W"]), py=dict(rng=s), depth=7 if THOROUGH else 4)

    def mgu(self):
        for dim in [1, 3]:
            s, r = self.src("sobol", 2, dim)
            _, ri = self.src("sobol", 2, dim)
            f = self.lincfg("bipolar", s, r, [[3, -2]], [1], 2, 5)
            n = self.lincfg("bipolar", s, r, [[-1, 4]], [-2], 2, 5)
            self.add("mgu", dict(f=f, n=n, depth=5, width=2, nin=1, hden=4, r=r, ri=ri, ismul=2), vecs(2), lp=[2],
                     py=dict(rng=s), depth=6 if THOROUGH else 4)

    def metric(self, kind):
        ms = ["unipolar", "bipolar"]
        if kind == "scc":
            for single in [True, False]:
                self.add("scc", dict(single=single), [[1]] + [[0] + v for v in vecs(1 if single else 2)], depth=9 if THOROUGH else 6, single=True)
            return
        for mode in ms:
            for num in ([0, 3, 4] if mode == "unipolar" else [-4, -1, 3]):
                cfg = dict(mode=mode, sn=1, sd=1)
                if kind == "stab":
                    cfg.update(tn=1, td=4)
                self.add(kind, cfg, [[1], [0, 0], [0, 1]], lp=[num, 4], depth=10 if THOROUGH else 7, single=True)

    # --------------------------------------------------- binary-domain units --
    def layer(self, kind, cfg, ins, depth=1, **py):
        p = dict(case=0, strided=0, retro=True, shape=[1])
        p.update(py)
        self.add(kind, cfg, ins, depth=depth, py=p, single=True)

    def rng(self):
        for name in ["sobol", "rc", "race", "tc", "race10", "tc10"]:
            for w in range(1, 10 if THOROUGH else 8):
                for d in ([1, 2, 3, 5, 8, 13, 21] if THOROUGH else [1, 4, 9]) if name in ("sobol", "rc") else [1]:
                    self.layer("rng", dict(name=name, w=w, d=d, r=self.g.src(name, w, d)), [0], depth=0)

    def bingen(self):
        for mode in ["unipolar", "bipolar"]:
            for w in [1, 2, 3, 4, 6] + ([8] if THOROUGH else []):
                d = w + 2                         # every quarter of a level, ties included
                vals = list(range(-2 ** d if mode == "bipolar" else 0, 2 ** d + 1))
                ins = [vals[i:i + 33] for i in range(0, len(vals), 32)]
                ins = [i for i in ins if len(i) == 33] + ([vals] if len(vals) < 33 else [])
                self.layer("bingen", dict(mode=mode, width=w, d=d), ins, shape=[len(ins[0])])

    def rawscale(self):
        three = [list(v) for v in product(range(-2, 3), repeat=3)]
        for qn, qd in [(1, 1), (1, 2), (3, 4)]:
            ok = []
            for v in three:
                s = sorted(v)
                q = lambda p, den: s[p * 2 // den] * den + ((p * 2 % den) * (s[p * 2 // den + 1] - s[p * 2 // den]) if p * 2 % den else 0)
                if q(qd - qn, 2 * qd) or q(qd + qn, 2 * qd):
                    ok.append(v)
            self.layer("rawscale", dict(qn=qn, qd=qd, d=0), ok, shape=[3])

    def round(self):
        from fractions import Fraction
        for iw, fw in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 4)] + ([(4, 5), (0, 6)] if THOROUGH else []):
            top = 2 ** (iw + fw)
            m = list(range(-4 * top - 8, 4 * top + 9))            # quarters of a grid step, beyond the clamp
            def dy(v):
                e = -fw - 2
                while v and v % 2 == 0:
                    v, e = v // 2, e + 1
                return [v, e] if v else [0, 0]
            n = 24
            ins = [[dy(x) for x in m[i:i + n]] for i in range(0, len(m) - n, n - 1)]
            h = n // 2
            ins += [[dy(x) for x in range(a, a + h)] + [dy(-x) for x in range(a, a + h)] for a in range(0, 4 * top + 8, h)]
            self.layer("round", dict(iw=iw, fw=fw), ins, shape=[n])

    def hubact(self):
        for f, scs in [("hsig", [(3, 1), (1, 1), (6, 1)]), ("htanh", [(1, 1)]), ("relu", [(1, 1), (2, 1), (1, 2)])]:
            for sn, sd in scs:
                v = list(range(-64, 65))
                self.layer("hubact", dict(f=f, sn=sn, sd=sd, d=3), [v[i:i + 43] for i in (0, 43, 86)], shape=[43])

    UNIT = dict(C=1, H=1, W=1, kh=1, kw=1, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1)

    def flatmat(self, ws, **kw):
        c = dict(hasb=False, bn=[0] * len(ws), db=0, wn=[[w] for w in ws], qin=1, qid=1, qwn=1, qwd=1, rmode="round", g=self.UNIT)
        c.update(kw)
        return c

    def hublin(self):
        """every magnitude pair and sign pair, for every source pair and cycle count"""
        from genl import NAMES, TEMP
        for w in [2, 3, 4] + ([5, 6] if THOROUGH else []):
            n = 2 ** (w - 1)
            lv = list(range(-n, n + 1))
            for ni, nw in product(NAMES, NAMES):
                if ni in TEMP and nw in TEMP:
                    continue
                if not THOROUGH and w == 4 and (ni in ("rc", "tc", "tc10") or nw in ("rc", "tc", "tc10")):
                    continue
                cycs = [-1] if w != 3 else [-1] + list(range(1, n + 2))
                for cyc in cycs:
                    c = self.flatmat(lv, batch=len(lv), dx=w - 1, dw=w - 1, width=w, hm=self.g.hubmap(ni, nw, w - 1), cyc=cyc)
                    self.layer("hublin", c, [lv, [v // 2 for v in lv], [0] * len(lv)], rngi=ni, rngw=nw, tuples=0)

    def fxplin(self):
        for wi, ww in product([2, 3, 4], repeat=2):
            for rm in ["round", "floor", "ceil"]:
                lx, lw = list(range(-2 ** wi - 3, 2 ** wi + 4)), list(range(-2 ** ww, 2 ** ww + 1))
                c = self.flatmat(lw, batch=len(lx), dx=wi - 1, dw=ww - 1, widthi=wi, widthw=ww, rmode=rm)
                self.layer("fxplin", c, [lx, [3 * v for v in lx], [max(-2, min(2, v)) for v in lx]], tuples=0)

    def tlutlin(self):
        for t in ["i", "w"]:
            for wt in [1, 2, 3, 4]:
                full = 2 ** wt
                for cyc in sorted({-1, 1, full // 2, full - 1, full} - {0}):
                    for wi, ww in [(5, 4), (4, 5)] + ([(7, 7)] if THOROUGH else []):
                        lx, lw = list(range(-2 ** wi, 2 ** wi + 1)), list(range(-2 ** ww, 2 ** ww + 1, 1 if ww < 6 else 5))
                        c = self.flatmat(lw, batch=len(lx), dx=wi, dw=ww, temporal=t, widtht=wt, formati="fxp", formatw="fxp",
                                         widthi=wi, widthw=ww, cyc=cyc)
                        self.layer("tlutlin", c, [lx], tuples=0)
                    if wt in (2, 4):
                        for fi, fw in [("bfloat16", "bfloat16"), ("fxp", "float16"), ("float16", "fxp"), ("float16", "bfloat16")]:
                            lx = list(range(-37, 38))
                            c = self.flatmat([1, -3, 5, 7], batch=len(lx), dx=6, dw=3, temporal=t, widtht=wt, formati=fi, formatw=fw,
                                             widthi=5, widthw=4, cyc=cyc)
                            self.layer("tlutlin", c, [lx], tuples=0)

    def geos(self):
        """one-channel 3x3 images under every small kernel, stride, padding and dilation"""
        from units import out_hw
        for kh, kw, s, ph, pw, d in product([1, 2], [1, 3], [1, 2], [0, 1], [0, 1], [1, 2]):
            g = dict(C=1, H=3, W=4, kh=kh, kw=kw, sh=s, sw=3 - s, ph=ph, pw=pw, dh=d, dw=3 - d)
            if g["H"] + 2 * ph - g["dh"] * (kh - 1) - 1 >= 0 and g["W"] + 2 * pw - g["dw"] * (kw - 1) - 1 >= 0:
                yield g

    def convs(self):
        x = [7, -3, 0, 5, 1, -8, 6, 2, -4, 3, -7, 4]
        ws = [5, -7, 3, 2, -1, 6]
        for j, g in enumerate(self.geos()):
            k = g["kh"] * g["kw"]
            base = dict(batch=1, dx=3, dw=3, db=4, hasb=True, g=g, qin=1, qid=1, qwn=1, qwd=1, rmode="round",
                        wn=[ws[:k], [-w for w in ws[:k]][::-1]], bn=[3, -5])
            kind = ["hubconv", "fxpconv", "tlutconv"]
            for k in kind if THOROUGH else [kind[j % 3]]:
                c = dict(base)
                if k == "hubconv":
                    c.update(width=4, hm=self.g.hubmap("sobol", ["sobol", "race"][j // 3 % 2], 3), cyc=-1)
                elif k == "fxpconv":
                    c.update(widthi=4, widthw=4)
                else:
                    c.update(temporal="iw"[j // 3 % 2], widtht=2, formati="fxp", formatw="fxp", widthi=4, widthw=4, cyc=[-1, 3][j // 6 % 2])
                self.layer(k, c, [x, x[::-1]], rngi="sobol", rngw=["sobol", "race"][j // 3 % 2], tuples=1)

    def shapes(self):
        """every small axis configuration; both axes differ so that swapped axes show"""
        for f in ["conv", "trans", "convpad", "transpad"]:
            ins = []
            for h, k, s, d, p in product([1, 3, 4, 5], [1, 2, 3], [1, 2, 3], [1, 2], [0, 1]):
                span = d * (k - 1) + 1
                for o in ([0, 1] if f.startswith("trans") else [0]):
                    if o >= max(s, d) and o > 0:
                        continue
                    # the other axis: a plain one with its own numbers
                    a = dict(h=[h, 6], k=[k, 2], s=[s, 1], d=[d, 1], o=[o, 0], p=[p, 1 - p], t=[1])
                    if f == "conv" and h + 2 * p < span or f == "trans" and (h - 1) * s - 2 * p + span + o < 1:
                        continue
                    for t in ([1, 2, h, h + 1, h * s] if f.endswith("pad") else [1]):
                        a = dict(a, t=[t, 5], real=1)
                        if f.endswith("pad"):
                            a["p"] = [0]
                        if f == "convpad" and (t - 1) * s - h + span < 0 or f == "convpad" and 4 - 6 + 2 < 0:
                            a["real"] = 0
                        ins.append(a)
            ins = ins if THOROUGH else ins[::2]
            for i in range(0, len(ins), 24):
                self.layer("shape", dict(f=f), ins[i:i + 24], retro=False)

    def clipper(self):
        for mode in ["unipolar", "bipolar"]:
            for bw in [1, 2]:
                for freq in [0, 1, 2]:
                    d = bw + 1
                    ts = [[0, 1, 2, -1], [-7, 3, 5, 1], [4, 8, -4, -8]]
                    ins = [dict(w=t, b=[t[0], t[1] + 9]) for t in ts] + [dict(w=ts[1], b=[])]
                    c = dict(mode=mode, bw=bw, d=d, freq=freq, hasw=True, hasb=True)
                    # the first call must be given values
                    self.layer("clipper", c, [dict(w=t, b=[t[1], t[0] + 9]) for t in ts] , depth=4, wshape=[2, 2], nb=2, apply=False, retro=False)

    def hardmgu(self):
        vals = [-8, -3, 0, 5, 8]
        rows = [list(v) for v in product(vals, vals)]
        w = [[5, -6]], [[-7, 4]]
        for hard in [True]:
            for b in [True, False]:
                c = dict(nin=1, hard=hard, hasb=b, wf=w[0], wn=w[1], bf=[2], bb=[-3])
                self.add("hardmgu", c, rows, depth=1, py=dict(none=0, odt="float", retro=True))
                for iw, fw in [(3, 4), (0, 4), (1, 2)]:
                    self.add("hardmgufxp", dict(c, iw=iw, fw=fw), rows, depth=1, py=dict(none=0, odt="float", retro=True))

    def grads(self):
        """every operand of a coarse grid through activations and one-input cells, forward and backward"""
        for f, scs in [("hsig", [(3, 1), (1, 1)]), ("htanh", [(1, 1)]), ("relu", [(1, 1), (1, 2)])]:
            for sn, sd in scs:
                v = list(range(-33, 33))
                self.layer("actgrad", dict(f=f, sn=sn, sd=sd, d=3), [dict(x=v[i:i + 22], g=[3, -8] * 11) for i in (0, 22, 44)], shape=[22], retro=False)
        rows = [[a, b, 5] for a, b in product([-8, -3, 0, 6], [-7, 1, 8])]
        for b in [True, False]:
            for fxp in [True, False]:
                c = dict(nin=1, hard=True, hasb=b, wf=[[5, -6]], wn=[[-7, 4]], bf=[2], bb=[-3], fxp=fxp, iw=3, fw=4, none=False, rgx=True)
                self.add("cellgrad", c, rows, depth=1, py=dict(odt="float", retro=False))

    def pipe(self):
        """every operand (pair) of a width, through every chain"""
        for mode in ["unipolar", "bipolar"]:
            for w in [2, 3] + ([4, 5] if THOROUGH else []):
                n = 2 ** w
                vs = list(range(-n, n + 1, 2)) if mode == "bipolar" else list(range(n + 1))
                for f in ["stream", "mul", "add", "hsig", "relu", "muli"]:
                    for dx, dw in [(1, 1), (1, 2), (3, 4)]:
                        sx, sw = dict(rng="sobol", width=w, dimr=dx), dict(rng="sobol", width=w, dimr=dw)
                        c = self.g.pipecfg(f, mode, sx, sw, depth=6)
                        pairs = [(a, b) for a in vs for b in vs]
                        if f == "mul":
                            ins = [dict(x=[a for a, b in pairs], w=[b for a, b in pairs], b=[])]
                        elif f in ("add", "muli"):
                            ins = [dict(x=list(p), w=[], b=[]) for p in pairs]
                        else:
                            ins = [dict(x=vs, w=[], b=[])]
                        self.layer("pipe", c, ins, rng=sw, rx=sx, odt="float", stype="float", retro=False, raw=0, peek=[])
                sx, sw = dict(rng="sobol", width=w, dimr=1), dict(rng="sobol", width=w, dimr=2)
                for f in ["lin", "linpc"]:
                    c = self.g.pipecfg(f, mode, sx, sw, depth=8, hasb=True)
                    few = vs if w == 2 else vs[::2]
                    ins = [dict(x=[a, b], w=[[a, e] for e in few], b=[e for e in few]) for a in few for b in few]
                    self.layer("pipe", c, ins, rng=sw, rx=sx, odt="float", stype="float", retro=False, raw=0, peek=[])

    def reports(self):
        """every history of a two-lane metric between reports; every small tensor of an outlier report"""
        for mode in ["unipolar", "bipolar"]:
            for src in [[-1, 2] if mode == "bipolar" else [1, 2], [0, 0]]:
                rows = [list(b) for b in product([0, 1], repeat=2)]
                c = dict(f="prog", k=2, d=1, src=src, mode=mode, label="m", value=True, relative=False)
                one = [dict(bits=[b]) for b in rows]
                two = [dict(bits=[a, b]) for a in rows for b in rows]
                self.layer("report", c, one, depth=2, shape=[2], scale=1, stype="float", defname="", spell=True, retro=False)
                self.layer("report", c, two, depth=2, shape=[2], scale=1, stype="float", defname="", spell=True, retro=False)
        self.layer("report", dict(f="outlier", d=1, label="o"), [list(v) for v in product(range(-3, 4), repeat=3)],
                   shape=[3], itype="float", defname="", retro=False)

    def hubmgu(self):
        for dim in [1, 3]:
            s, r = self.src("sobol", 2, dim)
            f = self.lincfg("bipolar", s, r, [[3, -2]], [1], 2, 5)
            n = self.lincfg("bipolar", s, r, [[-1, 4]], [-2], 2, 5)
            c = dict(f=f, n=n, depth=5, width=2, nin=1, hden=4, r=r, ri=self.g.src("sobol", 2, dim), ismul=2)
            self.add("hubmgu", c, [list(v) for v in product(range(-4, 5, 1 if THOROUGH else 2), repeat=2)], depth=1, py=dict(rng=s, none=False, odt="float", retro=True))
