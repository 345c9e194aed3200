"""Executions of unusual size: runs of thousands of cycles, layers with hundreds of products,
counters wider than the stream type.  Narrow arithmetic hides at these sizes only."""
LONG = 2300                                # past 2048, where half precision stops counting
NARROW = dict(stype="int8", itype="int8")


def phases(n, first, T, d):
    """the first 2^d+9 cycles hold `first`, then its complement twice as long, then random bursts"""
    P = 2 ** d + 9
    def at(t):
        a = first if t < P else [1 - b for b in first] if t < 3 * P else first
        return list(a)
    return [at(t) for t in range(T)]


def mixed(stim, lane0):
    return [[l0] + s[1:] for l0, s in zip(lane0, stim)]


def deep(r, method, depth, ins, **o):
    """a saturating counter of `depth` bits under an 8-bit stream type, driven from end to end"""
    T = 4 * 2 ** depth + 40
    c, s = getattr(r.g, method)(depth=depth, T=T, lanes=2, **dict(NARROW, **o))
    c["py"]["btype"] = r.g.pick(["float", "int16", "long"])
    r.run_case(c, mixed(s, phases(1, ins, T, depth)))


def scale(*what):
    def f(r):
        for w in what:
            globals()["big_" + w](r)
    return f


def big_sync(r):
    for d, ins in ((7, [1, 0]), (8, [0, 1]), (8, [1, 0])):
        deep(r, "sync", d, ins)


def big_signabs(r):
    for d in (7, 8):
        for b in (0, 1):
            deep(r, "signabs", d, [b])


def big_relu(r):
    for d in (7, 8):
        for b in (0, 1):
            deep(r, "relu", d, [b])


def big_bi2uni(r):
    for k in ("bi2uni", "uni2bi"):
        for d in (8, 9):
            deep(r, "bi2uni", d, [1], kind=k)
            deep(r, "bi2uni", d, [0], kind=k)


def runs(method, n=2, **o):
    return lambda r: r.many(getattr(r.g, method), n, T=LONG, lanes=1, **o)


big_bsgen = runs("bsgen")
big_muls = runs("muls", 3)
big_muli = runs("muli", 3)
big_hsig = runs("hsig")
big_add = runs("add")
big_kern = runs("kern")
big_progerr = runs("progerr", 3, long=True, itype="float")
big_stab = runs("stab", 3, long=True, itype="float")


def big_scc(r):
    """one of the four pairings is counted far past 2048; the others a few times"""
    for kind in ((0, 0), (0, 1), (1, 0), (1, 1), (0,), (1,)):
        c, s = r.g.scc(single=len(kind) == 1, long=True, T=300, lanes=1, itype="float")
        # what differs is chosen so that the count of the common pairing shows in the result
        odd = [[1, 1]] * 9 + [[0, 0]] * 3 + [[kind[-1], kind[0]]] * 4 if len(set(kind)) == 2 else \
            [[r.g.r.randrange(2) for _ in kind] for _ in range(20)]
        few = dict(zip(r.g.r.sample(range(LONG), len(odd)), odd))
        s = [[[0] + few.get(t, list(kind))] for t in range(LONG)]
        for t in (2200, 2049):
            s.insert(t, [[1]])
        r.run_case(c, s + [[[1]]])


def big_div(r):
    runs("div")(r)
    for d in (8, 9):                       # counters of the absolute values beyond a byte
        for mode in ("bipolar", "unipolar"):
            T = 4 * 2 ** d
            c, s = r.g.div(mode=mode, depth_sa=d, depth_ss=8, T=T, lanes=2, **dict(NARROW, btype=r.g.pick(["float", "int16"])))
            r.run_case(c, mixed(s, phases(2, [0, 1], T, d)))


def big_sqrt(r):
    for v in ("emit", "jk", "div"):
        r.many(r.g.sqrt, 1, T=LONG, lanes=1, variant=v)
    # long insertion queues: a run of zeros, then ones, then zeros
    for mode in ("unipolar", "bipolar"):
        for sr in (32, 64):
            c, s = r.g.sqrt(mode=mode, variant="emit", entry_sr=sr, T=6 * sr, lanes=2)
            b = [0] * (2 * sr) + [1] * sr + [0] * (3 * sr)
            r.run_case(c, mixed(s, [[x] for x in b]))


def dense(r, stim):
    return [[[1 if r.g.r.random() < .96 else 0 for _ in l] for l in x] for x in stim]


def big_lin(r):
    for kind, mode in (("lin", "unipolar"), ("linpc", "bipolar"), ("linpc", "unipolar"), ("lin", "bipolar")):
        c, s = r.g.lin(kind=kind, mode=mode, nin=r.g.pick([280, 301]), T=40, lanes=1)
        c["cfg"]["wn"] = [[abs(w) if mode == "bipolar" else max(w, c["cfg"]["wden"] // 2) for w in ws] for ws in c["cfg"]["wn"]]
        r.run_case(c, dense(r, s))
    r.many(r.g.lin, 1, kind="lin", nin=3, T=LONG, lanes=1)


def big_conv(r):
    for kind, mode in (("conv", "unipolar"), ("convpc", "bipolar")):
        c, s = r.g.conv(kind=kind, mode=mode, g=r.g.widegeo(), nout=1, lanes=1, T=12)
        c["cfg"]["wn"] = [[abs(w) if mode == "bipolar" else max(w, c["cfg"]["wden"] // 2) for w in ws] for ws in c["cfg"]["wn"]]
        r.run_case(c, dense(r, s))


def wides(*methods):
    def f(r):
        for m in methods:
            r.many(getattr(r.g, m), 2, wide=True)
    return f


big_hublin = wides("hublin")
big_fxplin = wides("fxplin")
big_tlutlin = wides("tlutlin")
big_convs = wides("hubconv", "fxpconv", "tlutconv")
