"""Kani: contract functions over the real code, proved for all argument values."""
import os, re, time
from . import gens
from .rustsrc import Lost

def part_kani(ctx, part):
    from . import core
    name = part["name"]; t0 = time.time()
    try:
        files, mods = gens.CRATES[name](core.REPO)
    except (Lost, IndexError, StopIteration, KeyError, FileNotFoundError) as e:
        return core.Result(part, "lost", detail=f"extraction: {type(e).__name__}: {e}")
    d = os.path.join(ctx.tmp, "kani_" + name)
    lib = "#![allow(unused, dead_code)]\n" + mods + "pub mod obl {\n" + gens.obl(name, core.BASE) + "\n}\n"
    core.crate(d, "vp_" + name, part.get("deps", "").replace("@REPO@", core.REPO), lib, {k: v.replace("@REPO@", core.REPO) for k, v in files.items()}, lib=True)
    want = harnesses(gens.obl(name, core.BASE))
    base = ["cargo", "kani", "-Z", "function-contracts"]
    cmd = base + ["-j", "6", "--output-format=terse"] + part.get("args", [])
    rc, out, err, secs = core.sh(cmd, min(ctx.left(), part.get("timeout", 600)), cwd=d, env={"CARGO_TARGET_DIR": os.path.join(d, "target"), "RUSTFLAGS": "-Awarnings"})
    r = core.Result(part, "ok", seconds=secs, info=dict(backend="Kani 0.68 / CBMC (bit-precise SAT), full range of every argument", harnesses=want,
        functions=part.get("functions", []) , rules=part.get("rules", []), cmd=" ".join(cmd[:6]), trusted=["Kani's compilation of MIR to CBMC; speedy's and serde's code is executed symbolically, not trusted" if name == "ids" else "Kani's compilation of MIR to CBMC"]))
    if rc is None: r.status = "lost"; r.detail = "kani timed out"; return r
    per = results(out)
    if not per: r.status = "lost"; r.detail = "kani gave no result: " + err[-1500:]; return r
    fns = {}
    for h, (ok, text) in per.items():
        m = re.search(r"\*\* (\d+) of (\d+) failed", text)
        n = int(m.group(2)) if m else 0
        r.obligations += n
        if ok: r.discharged += n
        else: r.discharged += n - (int(m.group(1)) if m else 0); fns[h] = text
    r.info["solver_ms"] = int(1000 * sum(float(x) for x in re.findall(r"Verification Time: ([\d.]+)s", out)))
    missing = [h for h in want if h not in per]
    if missing: r.status = "lost"; r.detail = "no result for " + ", ".join(missing); return r
    real = {}
    for h, text in fns.items():
        chk = re.findall(r"Failed Checks: (.*)", text)
        if not chk or all("unwinding assertion" in c or "not currently supported" in c or "unsupported" in c.lower() for c in chk):
            r.status = "lost"; r.detail += "%s: %s; " % (h, "; ".join(chk)[:300] or "no verdict")
        else: real[h] = text
    if real:
        r.status = "fail"
        r.failed = [dict(function=h, message="; ".join(re.findall(r"Failed Checks: (.*)", t))[:300], at=" ".join(re.findall(r'File: .*', t))[:200], output=t[:2500]) for h, t in real.items()]
        # the verifier's counterexample, replayed against the compiled code
        r.input = []
        for h in list(real)[:3]:
            vals = playback(core, ctx, d, base, h, part)
            if vals is None: continue
            con = next((p for p in part.get("concrete", [])), None)
            if con is None: continue
            rr = core.part_concrete(ctx, dict(con, dir_suffix="_cex"), replay=h + ":" + vals)
            if rr.status == "fail" and rr.input: r.input += rr.input
        if not r.input: r.input = None
    return r

def harnesses(src):
    i = src.index("obligations! {\n")
    return re.findall(r"^    (?:#\[[^\]]*\]\s*)*([a-z]\w*)\(", src[src.rindex("\nobligations! {"):], re.M)

def results(out):
    """Terse parallel output: a header line per thread, followed by that harness' block."""
    cur, res, th = None, {}, {}
    block = []
    name = None
    for ln in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (?:.*::)?(\w+)\.\.\.", ln)
        if m:
            th[m.group(1) or "0"] = m.group(2); 
            if m.group(1) is None: name = m.group(2); block = []
            continue
        m = re.match(r"Thread (\d+):\s*$", ln)
        if m: name = th.get(m.group(1)); block = []; continue
        block.append(ln)
        m = re.match(r"VERIFICATION:- (\w+)", ln)
        if m and name: res[name] = (m.group(1) == "SUCCESSFUL", "\n".join(block)); name = None; block = []
    return res

def playback(core, ctx, d, base, h, part):
    cmd = base + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", "harness::" + h] + part.get("args", [])
    rc, out, err, s = core.sh(cmd, min(ctx.left(), 200), cwd=d, env={"CARGO_TARGET_DIR": os.path.join(d, "target"), "RUSTFLAGS": "-Awarnings"})
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out or "", re.S)
    if not m: return None
    return ";".join("".join("%02x" % int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1)))
