#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py: PROP, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO (Rust source).
With --test also builds, tests and demonstrates each in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, glob, runpy, difflib
V = "/verif"; S = V + "/tools/seeds"
def make(i):
    m = runpy.run_path(f"{S}/{i}.py"); d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    edits = m.get("FILES") or {m["FILE"]: m["EDITS"]}; patch = ""
    for f, es in edits.items():
        a = open("/repo/" + f).read(); b = a
        for o, n in es:
            assert b.count(o) == 1, (i, f, b.count(o), o)
            b = b.replace(o, n)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/meta.json", "w").write(json.dumps(dict(property=m["PROP"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), indent=1) + "\n")
    open(d + "/demo.rs", "w").write(m["DEMO"])
    for f in m.get("KIT", []):
        os.makedirs(os.path.dirname(f"{d}/kit/{f}"), exist_ok=True); shutil.copy(f"{V}/{f}", f"{d}/kit/{f}")
    for f in ("demo.py", "demo.sh"): shutil.copy(f"{S}/{f}", d)
    os.chmod(d + "/demo.sh", 0o755)
def test(i):
    subprocess.run(["python3", "-c", "import shutil; shutil.rmtree('/tmp/v/seedrepo', ignore_errors=True)"])
    subprocess.run(["cp", "-a", "/repo", "/tmp/v/seedrepo"], check=True)
    d = f"{V}/seeded/{i}"; sh = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/v/seedrepo", capture_output=True, text=True)
    r0 = sh()
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd="/tmp/v/seedrepo", check=True)
    r1 = sh()
    print(i, "unchanged", r0.returncode, "patched", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode == 1 else "BAD", flush=True)
    print("   ", (r1.stderr or r1.stdout).strip().splitlines()[-3:] if (r1.stderr or r1.stdout).strip() else "")
    if r0.returncode: print(r0.stderr[-1500:])
    if "--own" in sys.argv: return
    # the repository's own tests, with the patch applied to /repo and taken back at once
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try: subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/v/seedtest.json"], capture_output=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    a = json.load(open("/tmp/v/seedtest.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    print("   ", "tests:", verdict(a, b), flush=True)
def verdict(a, b):
    st = set(b.get("stable") or b.get("stable_tests") or b.get("passed") or [])
    ok = set(a.get("passed") or [k for k, v in a.get("tests", {}).items() if v == "passed"])
    return sorted(st - ok)[:4] or "all %d stable tests pass" % len(st)
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")] or sorted(os.path.basename(p)[:-3] for p in glob.glob(S + "/*.py") if not p.endswith("demo.py"))
    for i in a:
        make(i)
        if "--test" in sys.argv: test(i)
