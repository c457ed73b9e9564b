#!/usr/bin/env python3
"""Builds demo.rs (beside this file) against the sources of the repository in the current directory, and runs it.
Everything it writes lies in a temporary directory. Exit 0: the demonstration passed."""
import os, subprocess, sys, tempfile, re
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
text = open(os.path.join(here, "demo.rs")).read()
deps = "\n".join(l[3:] for l in text.splitlines() if l.startswith("//% ")).replace("@REPO@", repo)
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = 0\nopt-level = 1\n[dependencies]\n%s\n' % deps)
    open(d + "/src/main.rs", "w").write(text.replace("@REPO@", repo))
    for f, to in re.findall(r"^//= (\S+) (\S+)$", text, re.M):      # copy with the standard library redirected
        open(d + "/src/" + to, "w").write(re.sub(r"(?<![\w:])(?:::)?std\s*::", "crate::vpstd::", open(repo + "/" + f).read()))
    for f in re.findall(r"^//! kit (\w+)$", text, re.M):                   # sources cut out of files of which only a part compiles here
        sys.path.insert(0, here + "/kit"); sys.dont_write_bytecode = True
        from vp import gens
        for to, t in getattr(gens, f)(repo).items():
            os.makedirs(os.path.dirname(d + "/" + to), exist_ok=True); open(d + "/" + to, "w").write(t.replace("@REPO@", repo))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/t")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"): env.pop(k, None)
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if b.returncode: sys.exit(3)
    sys.exit(1 if subprocess.run([d + "/t/debug/demo"], cwd=d, timeout=200).returncode else 0)
