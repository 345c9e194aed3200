"""Random and systematic generation of unit configurations and of stimuli."""
import random
from core import SEED, THOROUGH
from units import layouts, out_hw
from genl import GenL

FLOATS = ["float", "double"]
INTS = ["int8", "int16", "int32", "long"]
ANY = FLOATS + INTS
SEQS = ["sobol", "rc", "race", "tc", "race10", "tc10"]
RANDOMISH = ["sobol", "rc"]


def accfit(depth, d, extra=2):
    """can element type d hold an accumulator of `depth` bits (plus one step of input)?"""
    bits = {"int8": 7, "int16": 15, "half": 11, "bf16": 8}.get(d, 24)
    return depth + extra <= bits


class Gen(GenL):
    def __init__(self, pid, rngs):
        self.r = random.Random("%s:%d" % (pid, SEED))
        self.rngs = rngs
        self.n = 0
        self.pid = pid

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def src(self, rng, width, dimr=1):
        return self.rngs.add(rng, width, dimr)

    # ---------------------------------------------------------------- bits --
    def bits(self, T):
        """one lane's bit stream"""
        r, k = self.r, self.r.randrange(10)
        if k == 0:
            return [r.randrange(2)] * T
        if k == 1:
            s = r.randrange(2)
            return [(t + s) % 2 for t in range(T)]
        if k in (2, 3):                      # bursts
            m = self.pick([2, 3, 7, 20, 60, T])
            out, b = [], r.randrange(2)
            while len(out) < T:
                out += [b] * r.randint(1, m)
                b = 1 - b
            return out[:T]
        if k == 4:                           # evenly spread density
            p, q = r.randint(0, 16), 16
            return [((t + 1) * p) // q - (t * p) // q for t in range(T)]
        if k == 5:                           # one phase then the other
            c = r.randint(0, T)
            b = r.randrange(2)
            return [b] * c + [1 - b] * (T - c)
        p = self.pick([.03, .2, .5, .5, .5, .8, .97])
        return [1 if r.random() < p else 0 for _ in range(T)]

    def arity_bits(self, T, n):
        """n streams of one lane, sometimes correlated"""
        k = self.r.randrange(6)
        if n >= 2 and k == 0:
            b = self.bits(T)
            return [b] * n
        if n >= 2 and k == 1:
            b = self.bits(T)
            return [b if j % 2 == 0 else [1 - x for x in b] for j in range(n)]
        if n == 2 and k == 2:
            a, b = self.bits(T), self.bits(T)
            return [[x & y for x, y in zip(a, b)], b]
        if n == 2 and k == 3:
            a, b = self.bits(T), self.bits(T)
            return [b, [x & y for x, y in zip(a, b)]]
        return [self.bits(T) for _ in range(n)]

    def stim(self, T, lanes, n):
        L = [self.arity_bits(T, n) for _ in range(lanes)]
        return [[[L[i][k][t] for k in range(n)] for i in range(lanes)] for t in range(T)]

    # ------------------------------------------------------------- py side --
    def py(self, lanes, **kw):
        p = dict(shape=self.pick(layouts(lanes)), strided=self.r.randrange(3), case=self.r.randrange(3))
        p.update(kw)
        return p

    def case(self, kind, cfg, lanes, py, lp=None):
        self.n += 1
        return dict(id="%s/%s#%d" % (self.pid, kind, self.n), kind=kind, cfg=cfg, lanes=lanes,
                    lp=lp or [[] for _ in range(lanes)], py=py)

    def lanesT(self, T=None, lanes=None, budget=2500):
        lanes = lanes or self.pick([1, 1, 2, 3, 4, 6, 8, 12])
        if T is None:
            T = self.pick([30, 80, 200, 500, 1100])
            while T > 30 and T * lanes > budget:
                T //= 2
        return T, lanes

    # --------------------------------------------------------------- units --
    def bi2uni(self, kind=None, depth=None, **o):
        kind = kind or self.pick(["bi2uni", "uni2bi"])
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        depth = depth or self.pick([3, 3, 4, 4, 5, 6, 7, 8, 10, 12])
        bt = self.pick([d for d in ["float", "double", "int8", "int16", "int32", "long"] if accfit(depth, d)])
        c = self.case(kind, dict(depth=depth), n, self.py(n, **self.types(o, "stype", "itype", btype=bt)))
        return c, self.stim(T, n, 1)

    def types(self, o, *names, **given):
        """element types: from overrides, else mostly float, sometimes anything"""
        d = {}
        for k in names:
            d[k] = "float" if self.r.random() < .35 else self.pick(ANY)
        d.update(given)
        if o.get("one"):                     # units whose inputs must be of the stream type
            d["itype"] = d["stype"]
        d.update({k: v for k, v in o.items() if k in ("stype", "btype", "rtype", "itype", "retro", "shape", "strided", "case")})
        return d

    def sync(self, depth=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        depth = depth or self.pick([1, 1, 2, 2, 3, 4, 5, 6, 8])
        bt = self.pick([d for d in ANY if accfit(depth, d, 1)])
        c = self.case("sync", dict(depth=depth), n, self.py(n, **self.types(dict(o, one=1), "stype", "itype", btype=bt)))
        return c, self.stim(T, n, 2)

    def signabs(self, kind="signabs", depth=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        depth = depth or self.pick([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
        bt = self.pick([d for d in ANY if accfit(depth, d, 1)])
        c = self.case(kind, dict(depth=depth), n, self.py(n, **self.types(o, "stype", "itype", btype=bt)))
        return c, self.stim(T, n, 1)

    def relu(self, **o):
        return self.signabs("relu", **o)

    def shift(self, entry=None, masked=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        entry = entry or self.pick([1, 2, 3, 4, 5, 8, 13, 16, 32, 130, 130, 300])
        if entry > 128:
            T, n = entry + 120, min(n, 3)
        masked = self.r.random() < .7 if masked is None else masked
        c = self.case("shift", dict(entry=entry), n, self.py(n, masked=masked, **self.types(dict(o, one=1), "stype", "itype")))
        mb = [self.bits(T) if masked else [1] * T for _ in range(n)]
        ib = [self.bits(T) for _ in range(n)]
        if entry > 128 and "stype" not in o:   # a count a byte cannot hold, under the narrowest stream type
            k = self.r.randrange(n)
            ib[k], mb[k] = [1] * (T - 5) + [0] * 5, [1] * T
            if self.r.random() < .6:
                c["py"]["stype"] = c["py"]["itype"] = "int8"
        fixed = self.r.random() < .3
        k0 = self.r.randrange(entry)
        idx = [k0 if fixed else self.r.randrange(entry) for _ in range(T)]
        return c, [[[ib[i][t], mb[i][t], idx[t]] for i in range(n)] for t in range(T)]

    def jk(self, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        c = self.case("jk", {}, n, self.py(n, retro=self.r.random() < .5, **self.types(o, "stype", "itype")))
        s = self.stim(T, n, 2)
        if self.r.random() < .3:            # any non-zero value counts as 1
            m = self.pick([2, 3, -1, 7])
            s = [[[v * m for v in l] for l in x] for x in s]
        return c, s

    def add(self, mode=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = mode or self.pick(["unipolar", "bipolar"])
        N = self.pick([1, 2, 2, 3, 3, 4, 5, 8, 9, 17])
        if self.r.random() < .1:              # more operands than a byte can count
            N, n = self.pick([40, 130, 260, 300]), 1
            T = min(T, 80)
        D = self.pick([2, 2, 2, 4, 8])
        depth = self.pick([3, 4, 5, 6, 8, 10, 12]) if N < 40 else self.pick([8, 10, 12, 12])
        sc = lambda: self.pick([1, 1, 2, 3, N, N + 1, 2 * N]) * D if D == 2 or self.r.random() < .3 else 2 * self.r.randint(1, (N * D + D) // 2)
        csc = -1 if self.r.random() < .4 else sc()
        rsc = -1 if self.r.random() < .7 else sc()
        ent = lambda: self.pick([N, N, N + 1, max(1, N - 1), 2])
        centry = -1 if self.r.random() < .5 else ent()
        rentry = -1 if self.r.random() < .7 else ent()
        c = self.case("add", dict(mode=mode, depth=depth, n=N, D=D, csc=csc, rsc=rsc, centry=centry, rentry=rentry), n, {})
        sh = self.pick(layouts(n))
        dima = self.r.randint(-len(sh) - 1, len(sh))
        bt = self.pick(["float", "double"])
        c["py"] = self.py(n, dima=dima, **self.types(o, "stype", "itype", btype=bt))
        c["py"]["shape"] = sh
        if self.r.random() < .25:
            c["py"]["late"] = [self.pick([1, 2, 5]), self.pick([1, 2, 5])]
        return c, self.stim(T, n, N)

    def hsig(self, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = self.pick(["unipolar", "bipolar"])
        depth = self.pick([3, 4, 5, 8, 12])
        c = self.case("hsig", dict(mode=mode, depth=depth), n, self.py(n, **self.types(o, "stype", "itype", btype=self.pick(FLOATS))))
        return c, self.stim(T, n, 1)

    def htanh(self, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        d = self.types(o, "stype")
        d["itype"] = d["stype"]
        c = self.case("htanh", {}, n, self.py(n, **d))
        return c, self.stim(T, n, 1)

    def source(self, widths, names=None, dims=(1, 2, 3, 4, 5, 6, 7, 8)):
        return dict(rng=self.pick(names or ["sobol", "sobol", "sobol", "rc", "race", "tc", "race10", "tc10"]), width=self.pick(widths), dimr=self.pick(dims))

    def muls(self, mode=None, src=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = mode or self.pick(["unipolar", "bipolar"])
        s = src or self.source([1, 2, 3, 3, 4, 4, 5, 6, 8, 10])
        den = 2 ** self.pick([s["width"], s["width"], s["width"] + 2, 3])
        lp = [[self.r.choice([-den if mode == "bipolar" else 0, den, 0] + [self.r.randint(-den if mode == "bipolar" else 0, den)] * 5), den] for _ in range(n)]
        c = self.case("muls", dict(mode=mode, width=s["width"], r=self.src(**s)), n,
                      self.py(n, rng=s, **self.types(o, "stype", "itype", "rtype", btype=self.pick(FLOATS))), lp)
        self.fit_rtype(c, s["width"])
        return c, self.stim(T, n, 1)

    def fit_rtype(self, c, width):
        if not accfit(width, c["py"].get("rtype", "float"), 1):
            c["py"]["rtype"] = "float"

    def muli(self, mode=None, src=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = mode or self.pick(["unipolar", "bipolar"])
        s = src or self.source([1, 2, 2, 3, 3, 4, 5, 6, 8])
        c = self.case("muli", dict(mode=mode, r=self.src(**s)), n,
                      self.py(n, rng=s, **self.types(o, "stype", "itype", "rtype", btype=self.pick(FLOATS))))
        self.fit_rtype(c, s["width"])
        return c, self.stim(T, n, 2)

    def kern(self, entry_w=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        s = self.source([entry_w] if entry_w else [1, 1, 2, 2, 3, 4, 5])
        c = self.case("kern", dict(entry=2 ** s["width"], r=self.src(**s)), n, self.py(n, rng=s, **self.types(o, "stype", "itype")))
        return c, self.stim(T, n, 2)

    def div(self, mode=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = mode or self.pick(["unipolar", "bipolar"])
        s = self.source([1, 1, 2, 2, 3])
        cfg = dict(mode=mode, depth_sa=o.get("depth_sa") or self.pick([2, 3, 4, 6]), depth_ss=o.get("depth_ss") or self.pick([1, 2, 3, 5]), entry=2 ** s["width"], r=self.src(**s))
        bt = o.get("btype") or self.pick(ANY)
        c = self.case("div", cfg, n, self.py(n, rng=s, **self.types(dict(o, one=1), "stype", "itype", btype=bt)))
        return c, self.stim(T, n, 2)

    def sqrt(self, mode=None, variant=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        mode = mode or self.pick(["unipolar", "bipolar"])
        v = variant or self.pick(["emit", "jk", "div"])
        s = self.source([2], dims=(4,) if v == "div" else (1, 2, 4))
        cfg = dict(mode=mode, variant=v, entry_sr=o.get("entry_sr") or self.pick([2, 2, 4, 8, 16]), r=self.src(s["rng"], 2, 4))
        c = self.case("sqrt", cfg, n, self.py(n, rng=s, entry_kn=self.pick([1, 2, 4]), **self.types(o, "stype", "itype", btype=self.pick(FLOATS))))
        return c, self.stim(T, n, 1)

    # -------------------------------------------------------------- layers --
    def lincfg(self, nin, nout, mode, s, layer, maxden=None):
        temporal = s["rng"] in ("race", "tc", "race10", "tc10")
        D = self.pick([2, 2, 4])
        hasb = self.r.random() < .5
        dflt = nin + (1 if hasb else 0)
        den = 2 ** self.pick([s["width"], s["width"] + 1, 2])
        lo = -den if mode == "bipolar" else 0
        val = lambda: self.r.choice([lo, den, 0] + [self.r.randint(lo, den)] * 6)
        csc = -1 if self.r.random() < .4 else self.pick([1, 1, 2, nin, dflt]) * D
        if temporal and mode == "bipolar":
            csc = self.pick([-1, dflt * D]) if hasb else self.pick([-1, nin * D])
        return dict(mode=mode, width=s["width"], rng=s["rng"], r=self.src(**s), wn=[[val() for _ in range(nin)] for _ in range(nout)],
                    wden=den, hasb=hasb, bn=[val() if hasb else 0 for _ in range(nout)], depth=self.pick([5, 6, 8, 12]), D=D,
                    csc=csc, rsc=-1, centry=-1, rentry=-1)

    def runtime(self, c, kind):
        """scale and entry given to the first call; later ones must be ignored"""
        cfg, N = c["cfg"], len(c["cfg"]["wn"][0]) + c["cfg"]["hasb"]
        if kind not in ("lin", "conv"):
            return
        if self.r.random() < .3:
            cfg["rsc"] = self.pick([1, 1, 2, N, N + 1]) * cfg["D"] if self.r.random() < .8 else 2 * self.r.randint(1, N * cfg["D"] // 2 + 1)
        if self.r.random() < .25:
            cfg["rentry"] = self.pick([N, N + 1, max(1, N - 1), 2, 1])
        if self.r.random() < .25:
            c["py"]["late"] = [self.pick([1, 2, 5]), self.pick([1, 2, 5])]

    def lin(self, kind=None, mode=None, src=None, **o):
        kind = kind or self.pick(["lin", "lin", "linpc"])
        T, n = self.lanesT(o.get("T"), o.get("lanes") or self.pick([1, 2, 3, 4]), 800)
        mode = mode or self.pick(["unipolar", "bipolar"])
        s = src or self.source([1, 2, 3, 3, 4, 5, 8])
        nin, nout = self.pick([1, 2, 3, 4, 7, 10]), self.pick([1, 1, 2, 3, 5])
        if "nin" in o:
            nin, nout = o["nin"], 1
        elif "lanes" not in o and self.r.random() < .08:
            nin, nout, n, T = self.pick([40, 140, 270]), self.pick([1, 2]), 1, min(T, 60)
        cfg = self.lincfg(nin, nout, mode, s, kind == "lin")
        c = self.case(kind, cfg, n, self.py(n, rng=s, **self.types(o, itype=self.pick(["float", "float", "double", "long", "int8"]))))
        self.runtime(c, kind)
        return c, self.stim(T, n, len(cfg["wn"][0]))

    def geo(self, big=False):
        while True:
            p = self.pick
            kh, kw = p([1, 2, 3]), p([1, 2, 3])
            if self.r.random() < .5:
                kw = kh
            g = dict(C=p([1, 1, 2, 3]), H=p([2, 3, 4, 5, 6]), W=p([2, 3, 4, 5, 7]), kh=kh, kw=kw, sh=p([1, 1, 2, 3]), sw=p([1, 1, 2, 3]),
                     ph=p([0, 1, 1, 2]), pw=p([0, 1, 1, 2]), dh=p([1, 1, 2]), dw=p([1, 1, 2]))
            if self.r.random() < .5:
                g["sw"], g["pw"], g["dw"] = g["sh"], g["ph"], g["dh"]
            oh = (g["H"] + 2 * g["ph"] - g["dh"] * (kh - 1) - 1)
            ow = (g["W"] + 2 * g["pw"] - g["dw"] * (kw - 1) - 1)
            if oh >= 0 and ow >= 0:
                a, b = out_hw(g)
                if a * b * g["C"] * kh * kw <= (400 if big else 120):
                    return g

    def widegeo(self):
        """more than 256 products under one output"""
        k = self.pick([0, 1])
        return dict(C=self.pick([30, 33]), H=3 + k, W=3, kh=3, kw=3, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1)

    def conv(self, kind=None, mode=None, g=None, src=None, **o):
        kind = kind or self.pick(["conv", "conv", "convpc"])
        mode = mode or self.pick(["unipolar", "bipolar"])
        s = src or self.source([1, 2, 3, 3, 4])
        g = g or self.geo()
        nout = o.get("nout") or self.pick([1, 2, 3])
        cfg = self.lincfg(g["C"] * g["kh"] * g["kw"], nout, mode, s, kind == "conv")
        cfg["g"] = g
        n = o.get("lanes") or self.pick([1, 2])
        a, b = out_hw(g)
        T = o.get("T") or max(6, min(3 * 2 ** s["width"], 4000 // (a * b * g["C"] * g["kh"] * g["kw"] * nout * n) + 6))
        c = self.case(kind, cfg, n, self.py(n, rng=s, tuples=self.r.randrange(2), **self.types(o, itype=self.pick(FLOATS))))
        self.runtime(c, kind)
        return c, self.stim(T, n, g["C"] * g["H"] * g["W"])

    def mgu(self, src=None, **o):
        s = src or self.source([2, 3, 3, 4], names=RANDOMISH)
        nin, nh = self.pick([1, 2, 3]), self.pick([1, 2, 3])
        hasb = self.r.random() < .6
        fs = []
        for _ in range(2):
            f = self.lincfg(nin + nh, nh, "bipolar", s, True)
            f.update(csc=f["D"], depth=0, hasb=hasb)
            fs.append(f)
        depth = self.pick([5, 6, 8, 10])
        for f in fs:
            f["depth"] = depth
            if not hasb:
                f["bn"] = [0] * nh
        ism = self.pick([1, 2, 3, 4])
        hden = 2 ** s["width"]
        T, n = self.lanesT(o.get("T"), o.get("lanes") or self.pick([1, 2, 3]), 400)
        lp = [[self.r.randint(-hden, hden) for _ in range(nh)] for _ in range(n)]
        cfg = dict(f=fs[0], n=fs[1], depth=depth, width=s["width"], nin=nin, hden=hden, r=self.src(**s),
                   ri=self.src(s["rng"], ism, s["dimr"]), ismul=ism)
        c = self.case("mgu", cfg, n, self.py(n, rng=s, **self.types(o, itype=self.pick(["float", "float", "double", "long"]))), lp)
        return c, self.stim(T, n, nin + nh)

    def bsgen(self, src=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        s = src or self.source([1, 2, 3, 4, 5, 8, 10])
        rt = self.pick([d for d in ANY if accfit(s["width"], d, 1)])
        P = 2 ** s["width"]
        lp = [[self.r.choice([0, P, P - 1, 1, self.r.randint(0, P), self.r.randint(0, P)])] for _ in range(n)]
        py = self.py(n, rng=s, **self.types(o, "stype", rtype=rt, itype="long"))
        scalar = self.r.random() < .5
        py["scalar"] = scalar
        if self.r.random() < .3:
            py["itype"] = self.pick(["float", "int32"])
        c = self.case("bsgen", dict(r=self.src(**s), perm=True), n, py, lp)
        k = self.r.randrange(3)
        t0 = self.r.choice([0, 1, P - 1, 3 * P + 1, self.r.randrange(5 * P)])
        idx = [[(t0 + t) if k < 2 else self.r.randrange(8 * P) for t in range(T)] for _ in range(n)]
        if not scalar and k == 1:
            idx = [[i + 7 * j for i in idx[j]] for j in range(n)]
        if scalar:
            idx = [idx[0]] * n
        return c, [[[idx[i][t]] for i in range(n)] for t in range(T)]

    # ------------------------------------------------------------- metrics --
    def metric(self, kind, mode=None, **o):
        T, n = self.lanesT(o.get("T"), o.get("lanes"))
        long = o.get("long") or self.r.random() < .1           # enough cycles to overflow a byte
        T = self.pick([300, 600]) if long and "T" not in o else min(T, 240) if not long else T
        n = 1 if long and "lanes" not in o else n
        ty = dict(itype=self.pick(ANY))
        if "itype" in o:
            ty["itype"] = o["itype"]
        if kind == "scc":
            single = o.get("single", self.r.random() < .4)
            c = self.case("scc", dict(single=single), n, self.py(n, **ty))
            body = self.stim(min(T, 120) if not long else T, n, 1 if single else 2)
        else:
            mode = mode or self.pick(["unipolar", "bipolar"])
            sn, sd = self.pick([(1, 1), (1, 1), (2, 1), (4, 1), (1, 2)])
            den = self.pick([4, 16, 64]) if not long else 4
            lp = [[self.r.randint(-den if mode == "bipolar" else 0, den), den] for _ in range(n)]
            cfg = dict(mode=mode, sn=sn, sd=sd)
            if kind == "stab":
                cfg["tn"], cfg["td"] = self.pick([(1, 16), (1, 8), (1, 4), (0, 1), (1, 64), (1, 1)])
            c = self.case(kind, cfg, n, self.py(n, **ty), lp)
            body = self.stim(T, n, 1)
        out = []
        many = self.r.random() < .6
        for t, x in enumerate(body):
            out.append([[0] + l for l in x])
            if t == len(body) - 1 or (many and self.r.random() < .2):
                out.append([[1] for _ in range(n)])
                if self.r.random() < .2:
                    out.append([[1] for _ in range(n)])
        return c, out

    def progerr(self, **o):
        return self.metric("progerr", **o)

    def stab(self, **o):
        return self.metric("stab", **o)

    def scc(self, **o):
        return self.metric("scc", **o)
