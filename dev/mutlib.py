"""Developer tool: apply a source change to a scratch copy of /repo and run the engine on it."""
import json, os, re, shutil, subprocess, sys, collections
SCR = os.environ.get("SCR", "/tmp/w/mut")
DRV = os.environ.get("DRV", "/verif/.cache/driver/debug/fmdriver")

def fresh(idx):
    d = f"{SCR}/{idx}"
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", "/repo/", d + "/repo/"])
    return d

def set_body(src, header, method, body):
    i = src.index(header)
    j = src.index("fn " + method, i)
    # body starts at the first '{' at the end of a where clause
    k = src.index("{", j)
    depth, p = 0, k
    while True:
        if src[p] == "{": depth += 1
        if src[p] == "}":
            depth -= 1
            if depth == 0: break
        p += 1
    return src[:j] + re.sub(r"\(mut self|\(self", lambda m: "(mut self", re.sub(r", f: F", ", mut f: F", src[j:k])) + "{" + body + "}" + src[p+1:]

def run(d, feats=()):
    out = f"{d}/o.jsonl"
    if os.path.exists(out): os.remove(out)
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    t = f"{d}/td"
    subprocess.call(f"rm -rf {t}/debug/.fingerprint/funcmap-* {t}/debug/.fingerprint/funcmap_derive-*", shell=True)
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", RUSTFLAGS="--cap-lints warn", CARGO_INCREMENTAL="0", FMV_OUT=out, FMV_CRATES="funcmap,funcmap_derive", RUSTC_WRAPPER=DRV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--manifest-path", d + "/repo/Cargo.toml", "-p", "funcmap", "--target-dir", t, *feats], env=env, capture_output=True, text=True)
    recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    if os.environ.get("FV_LOOPS"): print(p.stderr[-20000:])
    return p.returncode, p.stderr, recs
