"""The hardware descriptions under hw/: adapter, random executions."""
import os
import sv
import core
from units import Unit

LIB = {}


def lib():
    root = os.path.join(core.REPO, "hw")
    if root not in LIB:
        sv.selftest()
        LIB[root] = sv.Library(root)
    return LIB[root]


lg = lambda n: max(1, (n - 1).bit_length())
R = ["randNum"]
# module: parameters from the configuration, inputs, outputs, default configuration
MODS = {
    "JKFF": (lambda c: {}, ["J", "K"], ["out"], {}),
    "Bi2Uni": (lambda c: dict(DEP=c["dep"]), ["in"], ["out"], dict(dep=3)),
    "Uni2Bi": (lambda c: {}, ["in"], ["out"], {}),
    "SkewedSync": (lambda c: dict(DEP=c["dep"]), ["in0", "in1"], ["out0", "out1"], dict(dep=2)),
    "SkewedSyncInt": (lambda c: dict(DEP=c["dep"], BWIN=c["bw"], BWOUT=c["dep"]), ["in0", "in1"], ["out0", "out1"], dict(dep=2, bw=1)),
    "Sign": (lambda c: dict(DEP=c["dep"]), ["value"], ["sign"], dict(dep=3)),
    "Abs": (lambda c: dict(DEP=c["dep"]), ["value"], ["sign", "abs"], dict(dep=3)),
    "CORDIV_kernel": (lambda c: dict(DEP=c["dep"], DEPLOG=lg(c["dep"])), R + ["dividend", "divisor"], ["quotient"], dict(dep=2)),
    "GDIV_U": (lambda c: dict(DEP=c["dep"]), R + ["dividend", "divisor"], ["quotient"], dict(dep=5)),
    "GDIV_B": (lambda c: dict(DEP=c["dep"]), R + ["dividend", "divisor"], ["quotient"], dict(dep=5)),
    "ISCBDIV_U": (lambda c: dict(DEP_KERNEL=c["dep"], DEPLOG_KERNEL=lg(c["dep"]), DEP_SYNC=c["sync"]), R + ["dividend", "divisor"], ["quotient"],
                  dict(dep=2, sync=2)),
    "ISCBDIV_B": (lambda c: dict(DEP_KERNEL=c["dep"], DEPLOG_KERNEL=lg(c["dep"]), DEP_SYNC=c["sync"], DEP_ABS=c["depa"]),
                  R + ["dividend", "divisor"], ["quotient"], dict(dep=2, sync=2, depa=3)),
    "GSQRT_U": (lambda c: dict(DEP=c["dep"]), R + ["in"], ["out"], dict(dep=5)),
    "GSQRT_B": (lambda c: dict(DEP=c["dep"]), R + ["in"], ["out"], dict(dep=5)),
    "BISQRT_S_JK_U": (lambda c: {}, ["in"], ["out"], {}),
    "BISQRT_S_JK_B": (lambda c: dict(DEP=c["dep"]), ["in"], ["out"], dict(dep=3)),
    "BISQRT_S_IS_U": (lambda c: dict(DEP=c["dep"], DEPLOG=lg(c["dep"])), R + ["in"], ["out"], dict(dep=1)),
    "BISQRT_S_IS_B": (lambda c: dict(DEP=c["dep"], DEPLOG=lg(c["dep"])), R + ["in"], ["out"], dict(dep=1)),
    "BISQRT_O_U": (lambda c: dict(DEP=c["dep"], DEP_SR=c["deps"], DEPLOG_SR=lg(c["deps"])), R + ["in"], ["out"], dict(dep=3, deps=4)),
    "BISQRT_O_B": (lambda c: dict(DEP=c["dep"], DEP_SR=c["deps"], DEPLOG_SR=lg(c["deps"])), R + ["in"], ["out"], dict(dep=3, deps=4)),
}
COUNT = ["GDIV_U", "GDIV_B", "GSQRT_U", "GSQRT_B"]
GROUPS = {"conv": ["JKFF", "Bi2Uni", "Uni2Bi", "SkewedSync", "SkewedSyncInt", "Sign", "Abs"],
          "div": ["CORDIV_kernel", "GDIV_U", "GDIV_B", "ISCBDIV_U", "ISCBDIV_B"],
          "sqrt": ["GSQRT_U", "GSQRT_B", "BISQRT_S_JK_U", "BISQRT_S_JK_B", "BISQRT_S_IS_U", "BISQRT_S_IS_B", "BISQRT_O_U", "BISQRT_O_B"]}


def indexed(m):
    """whether the depth is that of a shift register the random number indexes"""
    return m.startswith(("CORDIV", "ISCBDIV", "BISQRT_S_IS"))


def rands(c):
    """how many values the random number port takes"""
    m = c["m"]
    return 2 ** c["dep"] if m in COUNT else c["deps"] if "deps" in c else c["dep"] if "randNum" in MODS[m][1] else 0


class RtlUnit(Unit):
    typed, shaped = [], False

    def build(self):
        c = self.cfg
        par, self.ins, self.out, dflt = MODS[c["m"]]
        p = {} if self.py["default"] and all(c[k] == v for k, v in dflt.items()) else par(c)
        try:
            d = sv.design(lib(), c["m"], **p)
        except sv.Unsupported as e:
            raise core.Machinery("hw/%s: the simulator does not know %s" % (c["m"], e))
        if sorted(n for n, x in d.ports.items() if x[0] == "input") != sorted(["clk", "rst_n"] + self.ins) or \
           sorted(n for n, x in d.ports.items() if x[0] == "output") != sorted(self.out):
            raise ValueError("ports of %s: %s" % (c["m"], list(d.ports)))
        self.sims = [sv.Sim(d, 7 * i + 1) for i in range(self.lanes)]
        for s in self.sims:
            s.set(clk=0, rst_n=1)
            s.set(rst_n=0)
        return None

    def inputs(self, x):
        return x

    def call(self, xs):
        self.res = []
        for s, x in zip(self.sims, xs):
            s.set(rst_n=x[0], **dict(zip(self.ins, x[1:])))
            self.res.append([s.get(o) for o in self.out])
            s.set(clk=1)
            s.set(clk=0)
        return ()

    def outs(self, ts):
        return self.res


def alphabet(c, reset=True):
    from itertools import product
    dims = []
    for n in MODS[c["m"]][1]:
        dims.append(range(rands(c)) if n == "randNum" else range(2 ** c["bw"]) if n == "in0" and "bw" in c else (0, 1))
    return [[r] + list(v) for r in ((0, 1) if reset else (1,)) for v in product(*dims)]


def configs(m, r):
    """a random configuration of a module"""
    par, ins, outs, dflt = MODS[m]
    if r.random() < .4:
        return dict(m=m, **dflt)
    c = dict(m=m)
    if "dep" in dflt:
        c["dep"] = r.choice([1, 2, 4, 8, 16] if indexed(m) else [2, 3, 4, 5, 8] if m not in ("SkewedSync", "SkewedSyncInt") else [1, 2, 3, 5])
    if "bw" in dflt:
        c["bw"] = r.choice([b for b in (1, 2, 3) if b <= c["dep"]])
    if "sync" in dflt:
        c["sync"] = r.choice([1, 2, 3])
    if "depa" in dflt:
        c["depa"] = r.choice([2, 3, 4, 6])
    if "deps" in dflt:
        c["deps"] = r.choice([2, 4, 8, 16])
    return c


def generate(g, group):
    """a random execution of one module of a group"""
    r = g.r
    m = r.choice(GROUPS[group])
    c = configs(m, r)
    T, n = r.choice([(60, 4), (150, 3), (400, 1)])
    ins = MODS[m][1]
    bits = g.stim(T, n, len(ins))
    k, prst = rands(c), r.choice([0, 0, .01, .1])
    for t in range(T):
        for i in range(n):
            x = bits[t][i]
            for j, nm in enumerate(ins):
                if nm == "randNum":
                    x[j] = r.randrange(k) if i % 2 else (int("{:0{}b}".format(t % k, lg(k))[::-1], 2) % k)
                elif nm == "in0" and "bw" in c:
                    x[j] = x[j] * r.randrange(2 ** c["bw"])
            bits[t][i] = [int(r.random() >= prst)] + x
    return g.case("rtl", c, n, g.py(n, default=r.random() < .5, retro=False)), bits


def models(m, group):
    for mod in GROUPS[group]:
        dflt = MODS[mod][3]
        cs = [dict(m=mod, **dflt)]
        if "dep" in dflt:
            cs += [dict(m=mod, **{**dflt, "dep": d}) for d in ((1, 4) if indexed(mod) else (3, 4)) if d != dflt["dep"]]
        if mod == "SkewedSyncInt":
            cs.append(dict(m=mod, dep=3, bw=2))
        if mod in COUNT:
            cs = [dict(m=mod, dep=d) for d in ((2, 3) if core.THOROUGH else (2,))]
        for c in cs:
            c = dict(c)
            deep = 0
            if mod.startswith("ISCBDIV") and not core.THOROUGH:
                c.update(sync=1, dep=min(c["dep"], 2))
            if mod == "ISCBDIV_B":
                c.update(depa=2, sync=1)
                deep = 9 if core.THOROUGH else 5
            if mod.startswith("BISQRT_O") and not core.THOROUGH:
                c["deps"] = min(c["deps"], 4)
            big = mod in ("ISCBDIV_B", "BISQRT_O_B", "BISQRT_S_IS_B")
            m.add("rtl", c, alphabet(c, not big), depth=deep, py=dict(default=True), emit=1)
