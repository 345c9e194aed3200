"""Entry point of every check:  check.py <property id>  |  check.py --replay FILE"""
import sys, os, json, time, random, threading, traceback, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import *


class Run:
    """One run of one check: collects cases, models and verdicts."""

    def __init__(self, pid):
        from gen import Gen
        self.pid = pid
        self.rngs = Rngs()
        self.g = Gen(pid, self.rngs)
        self.cases, self.stims = [], []
        self.states = self.transitions = self.tour_cov = self.tour_tot = 0
        self.mcs, self.mcres, self.notes = [], None, {}
        self.bad, self.ok = [], 0
        self.kinds = collections.Counter()
        self.lanesteps = 0

    # ------------------------------------------------------------- models ---
    def start_models(self, build):
        from models import Models
        m = Models(self.g)
        build(m)
        self.mcs = m.out
        self.mcerr = None
        if not self.mcs:
            return
        doc = dict(rngs=list(self.rngs.items), mc=[{k: v for k, v in x.items() if k not in ("py", "single")} for x in self.mcs])

        def go():
            try:
                self.mcres = run_tlc("MC", doc)
            except Exception as e:
                self.mcerr = e
        self.th = threading.Thread(target=go)
        self.th.start()

    def finish_models(self):
        if not self.mcs:
            return
        self.th.join()
        if self.mcerr:
            raise self.mcerr
        r = self.mcres
        if r["rc"] != 0:
            raise Machinery("the specification itself fails: " + r["text"][-3000:])
        self.states += r["states"]
        self.transitions += r["generated"]
        import tours
        G = tours.graphs(r["printed"])
        rnd = random.Random("tour:%s:%d" % (self.pid, SEED))
        cap = 20000 if THOROUGH else 3000
        for c, graph in sorted(G.items()):
            m = self.mcs[c - 1]
            init = next(iter(graph))
            walks, cov, tot = tours.tour(graph, init, rnd, maxlen=120 if THOROUGH or len(graph) > 40 else 60,
                                         maxwalks=200 if THOROUGH else 24)
            self.tour_cov += cov
            self.tour_tot += tot
            if m["single"]:
                groups = [[w] for w in (walks if THOROUGH else walks[:24])]
            else:
                groups = [walks]
            for ws in groups:
                T = max(len(w) for w in ws)
                # pad with random behaviour so that every lane is a full-length execution
                full = [w + ([] if m["single"] else [rnd.randrange(len(m["ins"])) + 1 for _ in range(T - len(w))]) for w in ws]
                stim = [[m["ins"][w[t] - 1] for w in full] for t in range(T)]
                n = len(ws)
                py = self.g.py(n)
                py.update(m["py"])
                case = self.g.case(m["kind"], m["cfg"], n, py, [m["lp"]] * n)
                case["id"] += "/tour"
                self.run_case(case, stim)

    # ---------------------------------------------------------- executions ---
    def run_case(self, case, stim):
        import units
        rec = units.record(case, stim)
        self.push(rec, stim)
        return rec

    def push(self, rec, stim=None):
        self.cases.append(rec)
        self.stims.append(stim)
        self.kinds[rec["kind"]] += 1
        self.lanesteps += len(rec["steps"]) * max(1, rec["lanes"])

    def many(self, fn, n, **kw):
        for _ in range(n):
            c, s = fn(**kw)
            self.run_case(c, s)

    def validate(self, ignore=()):
        """Trace validation of everything recorded since the last call."""
        if not self.cases:
            return
        doc = dict(rngs=self.rngs.items, cases=self.cases)
        r = run_tlc("Conform", doc)
        got = {}
        for p in r["printed"]:
            if p[0] in ("BAD", "DONE"):
                got[p[1]] = p
        if len(got) != len(self.cases) or r["rc"] != 0:
            raise Machinery("trace validation incomplete (%d of %d): %s %s" % (len(got), len(self.cases), r["text"][-3000:], r["err"]))
        self.states += r["states"]
        self.transitions += r["generated"] - len(self.cases)
        for i, (c, s) in enumerate(zip(self.cases, self.stims)):
            p = got[i + 1]
            if p[0] == "BAD" and p[2][0] not in ignore:
                self.bad.append((c, s, p[2]))
            else:
                self.ok += 1
        self.sample = self.sample if getattr(self, "sample", None) else [slim(self.cases[0]), slim(self.cases[-1])]
        self.cases, self.stims = [], []

    def violate(self, kind, detail):
        """A violation found outside trace validation (still judged against specification output)."""
        self.bad.append((dict(id=self.pid + "/" + kind, kind=kind, cfg={}, lanes=0, lp=[], steps=[], py={}, **detail), None, [kind]))


PROVED = {"C05": ["SyncInductive", "SyncSafe"], "C06": ["AccInductive", "AddSafe", "ResidueBit"], "C07": ["AccInductive", "AddSafe"],
          "C12": ["CountRange"], "C15": ["ReluSafe"], "C16": ["ResidueBit", "AddSafe"], "C17": ["AddSafe"], "C31": ["SccRange"],
          "C41": ["Bi2UniFollows", "SsiConserves", "SyncSafe", "CountRange", "ResidueBit"], "C42": ["UpDownRange", "SyncSafe"], "C43": ["UpDownRange"]}


def proofs(run):
    """thorough tier: re-check the unbounded theorems about the operators this property's machine is made of"""
    import re, shutil, subprocess
    wd = os.path.join(SCRATCH, "proofs")
    os.makedirs(wd, exist_ok=True)
    for f in ("Core.tla", "Proofs.tla"):
        shutil.copy(os.path.join(VERIF, "spec", f), wd)
    try:
        r = subprocess.run(["tlapm", "Proofs.tla"], cwd=wd, capture_output=True, text=True, timeout=600)
        m = re.search(r"All (\d+) obligations proved", r.stdout + r.stderr)
        run.notes["tlaps"] = dict(theorems=PROVED[run.pid], obligations=int(m.group(1)) if m else 0,
                                  proved=bool(m), tail="" if m else (r.stdout + r.stderr)[-300:])
    except (OSError, subprocess.TimeoutExpired) as e:
        run.notes["tlaps"] = dict(theorems=PROVED[run.pid], proved=False, tail=str(e)[:300])


def slim(c):
    d = {k: c[k] for k in ("id", "kind", "cfg", "lp", "py", "lanes") if k in c}
    d["lp"] = d["lp"][:3]
    d["steps"] = c["steps"][:3]
    s = json.dumps(d)
    return d if len(s) < 3000 else json.loads(json.dumps(s[:1500]))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", [])]


def finish(run, t0):
    pid = run.pid
    known, lines, viol = load_known(), [], []
    for c, s, clause in run.bad:
        hit = None
        for f in known:
            if f["property"] == pid and f["kind"] == c["kind"] and all(c["cfg"].get(k) == v for k, v in f.get("cfg", {}).items()) \
                    and clause[0] == f["clause"]:
                hit = f
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
        else:
            viol.append((c, s, clause))
    for x in sorted(set(lines)):
        print(x)
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for old in os.listdir(rd):
        if old.startswith(pid + "-"):
            os.unlink(os.path.join(rd, old))
    for n, (c, s, clause) in enumerate(viol[:5]):
        path = os.path.join(rd, "%s-%d.json" % (pid, n + 1))
        with open(path, "w") as f:
            json.dump(dict(property=pid, clause=clause, case={k: v for k, v in c.items() if k != "steps"},
                           stim=s, steps=c.get("steps", [])[:400], rngs=run.rngs.items), f)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s cfg=%s py=%s: %s %s" % (c["id"], json.dumps(c["cfg"])[:400], json.dumps(c["py"])[:300], json.dumps(clause)[:500], c.get("err", "")))
    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.ok + len(run.bad),
               traces_rejected=len(run.bad), unit_steps_observed=run.lanesteps, executions_by_unit=dict(run.kinds),
               spec_transitions_toured=run.tour_cov, spec_transitions_reachable=run.tour_tot,
               models=len(run.mcs), samples=getattr(run, "sample", []), **run.notes)
    ev = dict(property=pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level="model_checking", coverage=cov,
              assumptions=["elements of a tensor never interact except as the specification says",
                           "CPU execution of torch", "sources, weights, scales and thresholds are dyadic rationals"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d executions validated, %d rejected; %d spec states, %d/%d transitions toured; %.1fs" % (
        pid, run.ok + len(run.bad), len(viol), run.states, run.tour_cov, run.tour_tot, time.time() - t0))
    return 1 if viol else 0


def replay(path):
    import units
    d = json.load(open(path))
    import_unarysim()
    r = Run(d["property"])
    r.rngs.items = d["rngs"]
    if d["stim"] is None:
        print("this violation has no replayable stimulus; see the file for its description")
        return 2
    if d["case"]["py"].get("omitted"):
        __import__("defaults").replaying(d["case"]["py"]["omitted"])
    r.run_case(d["case"], d["stim"])
    r.validate()
    for c, s, clause in r.bad:
        print("REPRODUCED", json.dumps(clause)[:600])
    return 1 if r.bad else 0


def main():
    t0 = time.time()
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        pid = sys.argv[1]
        import props
        run = Run(pid)
        p = props.PROPS[pid]
        run.start_models(p.models)
        import_unarysim()
        rounds = 0
        while True:
            p.run(run)
            if rounds == 0:
                run.finish_models()
            run.validate(ignore=p.ignore)
            rounds += 1
            if not THOROUGH or run.bad or time.time() - t0 > float(os.environ.get("VERIF_BUDGET", "420")):
                break
        run.notes["rounds"] = rounds
        if THOROUGH and pid in PROVED:
            proofs(run)
        return finish(run, t0)
    except Machinery as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
