"""Developer tool: writes /verif/seeded/<id>/ from the definitions below.
Usage: mkseeds.py [ID...]   (patches are made in a scratch copy at /tmp/w/mk)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A="funcmap/src/impls_alloc.rs"; C="funcmap/src/impls_core.rs"; ST="funcmap/src/impls_std.rs"; R="funcmap/src/array.rs"; L="funcmap/src/lib.rs"
D="funcmap_derive/src/"
RUN = '''#!/bin/bash
# builds and runs main.rs against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "%(edition)s"
[dependencies]
%(dep)s
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=%(tc)s cargo %(cmd)s --offline --quiet
'''
# main.rs must compile; bad.rs must not
FAIL = '''#!/bin/bash
# main.rs must compile and bad.rs (which differs by the offending construct) must not%(withmsg)s
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "%(edition)s"
[dependencies]
%(dep)s
[workspace]
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"; export CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=%(tc)s
cp "$here/main.rs" src/main.rs; cargo check --offline --quiet || { echo "main.rs does not compile"; exit 1; }
cp "$here/bad.rs" src/main.rs; if cargo check --offline --quiet 2> err.txt; then echo "bad.rs compiles"; exit 1; fi
%(grep)s
exit 0
'''
DEP='funcmap = { path = "$repo/funcmap" }'
SEEDS = {}
def seed(id, prop, needs, breaks, edits, main, bad=None, msg=None, edition="2021", dep=DEP, cmd="run", tc="1.87.0", demo=None):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, bad=bad, msg=msg, edition=edition, dep=dep, cmd=cmd, tc=tc, demo=demo)
def body(header, method, new):
    return ("body", header, method, new)

from seeds import *  # noqa: the definitions call seed()

def set_body(src, header, method, new):
    i = src.index(header); j = src.index("fn " + method, i); k = src.index("{", j)
    d, p = 0, k
    while True:
        d += src[p] == "{"; d -= src[p] == "}"
        if d == 0: break
        p += 1
    return src[:j] + src[j:k] + "{\n" + new + "\n        }" + src[p+1:]

def build(id):
    s = SEEDS[id]; S = "/tmp/w/mk"
    if not os.path.isdir(S): subprocess.check_call(["git", "clone", "-q", "/repo", S])
    subprocess.check_call(f"git -C {S} fetch -q /repo HEAD && git -C {S} checkout -q -f FETCH_HEAD && git -C {S} clean -qfdx", shell=True)
    for e in s["edits"]:
        p = f"{S}/{e[0]}"; t = open(p).read()
        if e[1] == "body": n = set_body(t, e[2], e[3], e[4])
        else:
            assert e[1] in t, (id, e[1]); n = t.replace(e[1], e[2], e[3] if len(e) > 3 else 1)
        open(p, "w").write(n)
    subprocess.call(f"cd {S} && cargo fmt -p funcmap -p funcmap_derive 2>/dev/null; git checkout -q -- funcmap_tests", shell=True)
    diff = subprocess.check_output(["git", "-C", S, "diff"], text=True)
    assert diff.strip()
    d = f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if s["main"]: open(d + "/main.rs", "w").write(s["main"])
    if s["bad"]: open(d + "/bad.rs", "w").write(s["bad"])
    g = f"grep -qF -- '{s['msg']}' err.txt || {{ echo 'not the expected error'; cat err.txt; exit 1; }}" if s["msg"] else ""
    open(d + "/demo.sh", "w").write(s["demo"] or (FAIL if s["bad"] else RUN) % dict(s, grep=g, withmsg=", with the expected message" if s["msg"] else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    for i in sys.argv[1:] or SEEDS: build(i); print("built", i)
