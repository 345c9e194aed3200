"""usage: seedcheck.py [ids...]: run the property's check (or --all checks) against each planted change, in scratch copies, 4 at a time."""
import os, sys, json, subprocess, shutil, tempfile, queue, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {b: "%s/%s/%s" % (V, k, b) for k in ("planted", "seeded") if os.path.isdir(V + "/" + k) for b in os.listdir(V + "/" + k)}
ids = sys.argv[1:] or sorted(D)
N = int(os.environ.get("JOBS", "4"))
top = tempfile.mkdtemp(prefix="seedchk_")
q = queue.Queue()
for i in range(N):
    subprocess.run(["cp", "-a", os.environ.get("BASE", "/repo"), "%s/r%d" % (top, i)], check=True)
    os.makedirs("%s/v%d" % (top, i))
    for d in ("spec", "harness", "run", "known_findings.json"):
        subprocess.run(["cp", "-a", "%s/%s" % (V, d), "%s/v%d/" % (top, i)], check=True)
    q.put(i)


def one(b):
    i = q.get()
    r = "%s/r%d" % (top, i)
    try:
        m = json.load(open(D[b] + "/meta.json"))
        a = subprocess.run(["git", "-C", r, "apply", D[b] + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return b, m["property"], "APPLY " + a.stderr[:200], 0
        t = time.time()
        x = subprocess.run(["./run", m["property"]], cwd="%s/v%d" % (top, i), env=dict(os.environ, UNARYSIM_REPO=r), capture_output=True, text=True)
        ln = [l for l in x.stdout.splitlines() if not l.startswith("VIOLATION")]
        caught = x.returncode == 1 and "VIOLATION property=" + m["property"] in x.stdout
        return b, m["property"], "caught" if caught else "MISSED rc=%d" % x.returncode, round(time.time() - t), ln[-1] if ln else x.stderr[-300:], (ln[0][:160] if caught else "")
    finally:
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."])
        q.put(i)


try:
    with cf.ThreadPoolExecutor(N) as ex:
        for res in ex.map(one, ids):
            print(*res, flush=True)
finally:
    shutil.rmtree(top, ignore_errors=True)
