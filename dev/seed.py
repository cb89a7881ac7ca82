"""Developer tool for /verif/seeded: new ID PROP NEEDS WHAT < edits.json ; check ID...
Uses a scratch copy of /repo at /tmp/w/seed/repo with its own copies of build.sh and test.sh."""
import json, os, re, subprocess, sys
S = "/tmp/w/seed"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prep():
    if not os.path.isdir(S + "/vp"):
        os.makedirs(S + "/vp"); sh(f"cp -a /repo {S}/repo")
        for f in os.listdir("/opt/vp"):
            t = open("/opt/vp/" + f).read()
            t = t.replace("/opt/vp", S + "/vp").replace("/repo", S + "/repo")
            open(f"{S}/vp/{f}", "w").write(t)
    sh(f"git -C {S}/repo fetch -q /repo HEAD && git -C {S}/repo checkout -q -f FETCH_HEAD && git -C {S}/repo clean -qfd")
def tests():
    r = sh(f"bash {S}/vp/build.sh && bash {S}/vp/test.sh {S}/out.json")
    if not os.path.exists(S + "/out.json"): return ["NO OUTPUT " + r.stdout[-1500:]]
    o = json.load(open(S + "/out.json")); os.remove(S + "/out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    st = base.get("stable") or base.get("stable_pass") or base.get("tests") or base
    passed = set(o.get("passed", []))
    return sorted(set(st) - passed)
def demo(i):
    r = sh(f"rm -rf {S}/demo && cp -r {V}/seeded/{i} {S}/demo && rm -f {S}/demo/patch.diff {S}/demo/meta.json && timeout 300 bash {S}/demo/demo.sh", cwd=S + "/repo")
    return r.returncode, r.stdout[-600:]
def check(i, full=True):
    prep()
    a = demo(i)
    r = sh(f"git -C {S}/repo apply {V}/seeded/{i}/patch.diff")
    if r.returncode: return f"{i}: patch does not apply {r.stdout}"
    fl = tests() if full else []
    b = demo(i)
    sh(f"git -C {S}/repo checkout -q -f .")
    ok = a[0] == 0 and b[0] != 0 and not fl
    return f"{i}: {'GOOD' if ok else 'BAD'} clean={a[0]} patched={b[0]} failed={fl[:5]}" + ("" if ok else "\n--clean\n" + a[1] + "\n--patched\n" + b[1])
if __name__ == "__main__":
    if sys.argv[1] == "check":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): print(check(i), flush=True)
