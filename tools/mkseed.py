#!/usr/bin/env python3
"""Writes seeded/<id>/ from a patch and a demo: mkseed.py ID PROP PATCH DEMO.rs NEEDS BREAKS
and confirms it (patch applies to /repo HEAD in a scratch clone, builds, stable tests pass, demo 0 / nonzero)."""
import sys, os, json, shutil, subprocess, tempfile
sid, prop, patch, demo, needs, breaks = sys.argv[1:7]
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
for a, b in ((patch, "patch.diff"), (demo, "demo.rs"), ("/verif/tools/seed_demo.sh", "demo.sh")):
    if os.path.abspath(a) != f"{d}/{b}": shutil.copy(a, f"{d}/{b}")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
w = "/tmp/sd/conf"
if not os.path.exists(w):
    subprocess.run(["cp", "-a", "/repo", w], check=True)
def sh(c, **k): return subprocess.run(c, shell=True, cwd=w, capture_output=True, text=True, **k)
sh("git checkout -q -- . && git fetch -q /repo && git checkout -qf FETCH_HEAD")
a = sh(f"bash {d}/demo.sh")
print("clean demo", a.returncode, a.stdout[-300:])
p = sh(f"git apply {d}/patch.diff"); assert p.returncode == 0, p.stderr
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true")
t = sh("cargo test --workspace --no-fail-fast --locked --offline", env=env)
print("tests", t.returncode)
b = sh(f"bash {d}/demo.sh")
print("patched demo", b.returncode, b.stdout[-300:])
sh("git checkout -q -- .")
ok = a.returncode == 0 and t.returncode == 0 and b.returncode not in (0, 2)
print(sid, "OK" if ok else "REJECTED")
if not ok: shutil.rmtree(d)
