"""Shared machinery: scratch space, importing UnarySim from /repo, running TLC."""
import os, sys, json, time, shutil, subprocess, tempfile, atexit, random, re, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UNARYSIM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

SCRATCH = tempfile.mkdtemp(prefix="usim_verif_")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
sys.dont_write_bytecode = True


def import_unarysim():
    """Import the package from /repo's working tree (never from a cached build)."""
    root = os.path.join(SCRATCH, "path")
    os.makedirs(root, exist_ok=True)
    link = os.path.join(root, "UnarySim")
    if not os.path.islink(link):
        os.symlink(REPO, link)
    sys.path[:] = [root] + [p for p in sys.path if not os.path.exists(os.path.join(p or ".", "UnarySim"))]
    import warnings
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    import torch
    torch.set_num_threads(2)


class Machinery(Exception):
    """The check itself failed (neither 'held' nor 'violated')."""


JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run_tlc(module, doc, timeout=800, cfg=None, workers="auto"):
    """Run TLC on spec/<module>.tla with DOC=doc. Returns dict(printed, states, generated, rc)."""
    wd = tempfile.mkdtemp(prefix="tlc_", dir=SCRATCH)
    dpath = os.path.join(wd, "doc.json")
    with open(dpath, "w") as f:
        json.dump(doc, f, separators=(",", ":"))
    env = dict(os.environ, DOC=dpath)
    env.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-Djava.io.tmpdir=" + wd, "-cp", JARS, "tlc2.TLC",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"),
           "-workers", str(workers), "-metadir", os.path.join(wd, "md"), "-noGenerateSpecTE",
           os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=env, cwd=wd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s after %ds" % (module, timeout))
    out = p.stdout
    printed, rest = [], []
    for line in out.splitlines():
        if line.startswith('"[') and line.endswith(']"'):
            try:
                printed.append(json.loads(json.loads(line)))
                continue
            except ValueError:
                pass
        rest.append(line)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    res = dict(printed=printed, rc=p.returncode, text="\n".join(rest)[-6000:], err=p.stderr[-2000:],
               generated=int(m.group(1)) if m else 0, states=int(m.group(2)) if m else 0,
               wall=time.time() - t0)
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write("[tlc %s] rc=%d %d states %.1fs\n" % (module, p.returncode, res["states"], res["wall"]))
    shutil.rmtree(wd, ignore_errors=True)
    return res


class Rngs:
    """Registry of number sources referenced by cases; handles are 1-based (TLA+)."""
    def __init__(self):
        self.items, self.index = [], {}

    def add(self, rng, width, dimr=1):
        key = (rng.lower(), width, dimr)
        if key not in self.index:
            self.items.append(dict(rng=rng.lower(), width=width, dimr=dimr))
            self.index[key] = len(self.items)
        return self.index[key]

    def add_map(self, ri, rw, wtc, width):
        """product map of a HUB layer over two registered sources of that width"""
        key = ("map", ri, rw, wtc, width)
        if key not in self.index:
            self.items.append(dict(map=dict(ri=ri, rw=rw, wtc=wtc, width=width)))
            self.index[key] = len(self.items)
        return self.index[key]

    def add_seq(self, seq):
        self.items.append(dict(seq=[int(x) for x in seq]))
        return len(self.items)


SENT = -999999


def ints(t, scale=1):
    """Tensor -> flat list of ints (sentinel where the value is not an integer after scaling)."""
    import torch
    d = t.detach().to(torch.float64).reshape(-1) * scale
    r = d.round()
    ok = (d == r) & (r.abs() < 2 ** 30)
    r = torch.where(ok, r, torch.full_like(r, SENT))
    return [int(x) for x in r.tolist()]


def fixed(t, scale):
    """Tensor -> flat list of rounded fixed-point ints (sentinel for NaN/inf/huge)."""
    import torch
    d = t.detach().to(torch.float64).reshape(-1) * scale
    bad = ~torch.isfinite(d) | (d.abs() >= 2 ** 30)
    d = torch.where(bad, torch.full_like(d, SENT), d).round()
    return [int(x) for x in d.tolist()]
