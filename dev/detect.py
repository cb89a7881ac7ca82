"""Developer tool: run the checks against each planted bug (in scratch copies). detect.py [-a] [ID...]   -a: every check, not only the bug's property"""
import json, os, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
args = sys.argv[1:]; allc = "-a" in args; args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir(V + "/seeded"))
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
q = queue.Queue(); [q.put(i) for i in ids]
def worker(w):
    R = f"/tmp/w/det{w}"; os.makedirs(R, exist_ok=True)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        subprocess.check_call(f"rm -rf {R}/repo && git clone -q /repo {R}/repo && cp /repo/Cargo.lock {R}/repo/ ; git -C {R}/repo apply {V}/seeded/{i}/patch.diff", shell=True)
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        res = {}
        for c in (claimed if allc else [m["property"]]):
            p = subprocess.run([V + "/check", c], env=dict(os.environ, FV_REPO=R + "/repo", FV_CACHE=R + "/cache", FV_EVIDENCE=R + "/evidence"), capture_output=True, text=True)
            lines = [l for l in p.stdout.splitlines() if "VIOLATION" not in l]
            if p.returncode: res[c] = (p.returncode, (lines + p.stderr.splitlines())[0][:230] if lines or p.stderr else "")
        print(("CAUGHT" if res.get(m["property"], (0,))[0] == 1 else "MISSED"), i, m["property"], *[f"\n     {k} rc={v[0]} {v[1]}" for k, v in res.items()], flush=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get("J", "4")))]
[t.start() for t in ts]; [t.join() for t in ts]
