"""Runs the checks: verifier parts, concrete parts, verdict, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from . import rustsrc, verusgen
from .rustsrc import Lost

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NOTE = lambda s: print("NOTE: " + s, flush=True)

class Result:
    """status: ok | fail | lost"""
    def __init__(s, part, status, **k):
        s.part = part; s.status = status; s.obligations = 0; s.discharged = 0
        s.failed = []; s.detail = ""; s.info = {}; s.seconds = 0.0; s.input = None; s.evaluations = 0
        s.samples = []; s.distinct = 0
        s.__dict__.update(k)

def sh(cmd, timeout, cwd=None, env=None, mem_gb=None):
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"; e.pop("RUSTFLAGS", None); e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        out, err = p.communicate()
        return None, out, err, time.time() - t

# --------------------------------------------------------------------------- Verus
OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                        r"possible arithmetic|possible division|decreases not satisfied|possible bit shift|"
                        r"unreachable|assert_by|loop invariant|index out of bounds|could not prove termination|possible overflow|"
                        r"recommendation not met|assertion not satisfied|requires not satisfied|ensures not satisfied|"
                        r"loop ensures|underflow|constructed value may fail")
def fn_index(text):
    """line -> name of the enclosing fn, for the generated file"""
    idx, cur, impl = [], None, None
    for ln in text.split("\n"):
        m = re.match(r"\s*impl\b.*?([A-Za-z_0-9]+)(<[^{]*>)?\s*\{\s*$", ln)
        if m: impl = m.group(1)
        elif re.match(r"\}", ln): impl = None
        m = re.search(r"\bfn\s+([A-Za-z_0-9]+)", ln)
        if m and not ln.strip().startswith("//"):
            cur = (impl + "::" if impl and ln[:1] in " \t" else "") + m.group(1)
        idx.append(cur)
    return idx

def part_verus(ctx, part):
    name = part["contract"]
    t0 = time.time()
    try:
        text, info = verusgen.generate(name, BASE, REPO)
    except (Lost, IndexError, StopIteration, KeyError, FileNotFoundError) as e:
        return Result(part, "lost", detail=f"extraction: {type(e).__name__}: {e}", seconds=time.time() - t0)
    d = os.path.join(ctx.tmp, "verus_" + name); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".rs")
    # each function in a solver of its own, so that no verdict depends on the others
    text = re.sub(r"(?m)^([ \t]*)((?:pub )?(?:broadcast )?(?:proof )?fn )", r"\1#[verifier::spinoff_prover] \2", text)
    open(f, "w").write(text)
    cmd = ["verus", f, "--output-json", "--time", "--multiple-errors", "2", "--rlimit", str(part.get("rlimit", 60))] + part.get("args", [])
    idx = fn_index(text)
    def attempt(more=()):
        rc, out, err, secs = sh(cmd + list(more), ctx.left(), cwd=d)
        if rc is None: return Result(part, "lost", detail="verus timed out", seconds=secs)
        try: js = json.loads(out)
        except ValueError: return Result(part, "lost", detail="verus gave no JSON: " + (err or out)[-1500:], seconds=secs)
        failed, lost, late = [], [], []
        for m in re.split(r"\n(?=error|warning|note)", "\n" + err):
            m = m.strip()
            if not m.startswith("error") or m.startswith("error: aborting"): continue
            head = m.split("\n")[0]
            locs = re.findall(r"-->\s*\S+?:(\d+):\d+", m)
            lines = [int(x) for x in locs] + [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", m, re.M)]
            fn = idx[lines[0] - 1] if lines else None
            if OBLIGATION.search(head):
                # for a failed precondition the primary location is the call site; for a postcondition the function itself
                src = text.split("\n")[lines[0] - 1].strip() if lines else ""
                ml = m.split("\n")
                clause = [re.sub(r"^\s*\d+\s*\|", "", ml[k - 1]).strip() for k in range(1, len(ml)) if "failed this" in ml[k]]
                failed.append(dict(function=fn, message=head, at=src, clause=" ".join(clause), output=m[:2500]))
            elif "rlimit" in head: late.append(dict(function=fn, message=head))
            else: lost.append(head + (" in %s" % fn if fn else "") + " :: " + m[:600])
        vr = js.get("verification-results", {})
        return dict(js=js, vr=vr, rc=rc, err=err, secs=secs, failed=failed, lost=lost, late=late)
    a = attempt()
    if isinstance(a, Result): return a
    t1, tries = a["secs"], 1
    # a proof the solver finds with any seed is a proof: an obligation has failed only if no attempt discharges it
    while (a["failed"] or a["late"]) and not a["lost"] and not a["vr"].get("encountered-vir-error") and tries < 4 and ctx.left() > 200:
        c = attempt(["--smt-option", "smt.random_seed=%d" % tries]); tries += 1
        if isinstance(c, Result) or c["lost"]: break
        t1 += c["secs"]
        bad = {x["function"] for x in a["failed"] + a["late"]}; again = {x["function"] for x in c["failed"] + c["late"]}
        if not bad - again and len(bad) > 0 and tries > 2: break
        n0 = len(bad)
        a["failed"] = [x for x in a["failed"] if x["function"] in again]; a["late"] = [x for x in a["late"] if x["function"] in again]
        # what ran out of resources here but failed there has failed
        a["failed"] += [x for x in c["failed"] if x["function"] in {y["function"] for y in a["late"]}]
        a["late"] = [x for x in a["late"] if x["function"] not in {y["function"] for y in a["failed"]}]
        n1 = len({x["function"] for x in a["failed"] + a["late"]})
        if n1 == 0: a["vr"] = dict(a["vr"], verified=a["vr"].get("verified", 0) + a["vr"].get("errors", 0), errors=0); a["rc"] = 0
    js, vr, rc, err, secs, failed = a["js"], a["vr"], a["rc"], a["err"], t1, a["failed"]
    lost = a["lost"] + ([] if failed else [x["message"] + " in %s" % x["function"] for x in a["late"]])
    v, e = vr.get("verified", 0), vr.get("errors", 0)
    smt = js.get("times-ms", {}).get("smt", {})
    r = Result(part, "ok", obligations=v + e, discharged=v, seconds=secs, failed=failed,
               info=dict(functions=info["functions"], rules=info["rules"],
                         solver_ms=smt.get("total") or js.get("times-ms", {}).get("total-verify"),
                         backend="Verus %s / Z3" % js.get("times-ms", {}).get("verus-build", {}).get("version", ""),
                         cmd=" ".join(["verus", "<generated " + name + ".rs>"] + cmd[2:]),
                         attempts=tries, trusted=trusted_scan(text), text=text))
    if lost or vr.get("encountered-vir-error") or (rc != 0 and not failed):
        r.status = "lost"; r.detail = "; ".join(lost) or ("verus exit %s: %s" % (rc, err[-800:]))
    elif failed: r.status = "fail"
    elif v == 0: r.status = "lost"; r.detail = "no obligations generated"
    if r.status == "ok" and part.get("probe", True):
        # vacuity guard: a false assertion behind every precondition must be refuted
        n, ptext = verusgen.probes(name, BASE, REPO)
        pf = os.path.join(d, "probe.rs"); open(pf, "w").write(text.replace("} // verus!", ptext + "\n} // verus!"))
        rc, out, err, s2 = sh(["verus", pf, "--output-json", "--verify-module", "vp_probe", "--multiple-errors", "0"], ctx.left(), cwd=d)
        try: got = json.loads(out)["verification-results"]
        except Exception: got = {}
        r.info["vacuity_probes"] = n; r.info["vacuity_refuted"] = got.get("errors", 0)
        if got.get("verified", 1) != 0 or got.get("errors", 0) != n:
            r.status = "lost"; r.detail = "a precondition may be contradictory: %d of %d probes refuted %s" % (got.get("errors", 0), n, err[-600:])
        r.seconds += s2
    return r

def trusted_scan(text):
    t = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", text): t.append("assumed contract: " + m.group(1))
    for m in re.finditer(r"external_body\s*\]\s*(?:pub\s+)?(?:fn|struct)\s+(\w+)", text): t.append("external_body: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text): t.append("UNPROVED " + m.group(1))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", text): t.append("axiom: " + m.group(1))
    return sorted(set(t))

# --------------------------------------------------------------------------- concrete
def crate(dirname, name, deps, main, extra=None, lib=False, profile=""):
    os.makedirs(os.path.join(dirname, "src"), exist_ok=True)
    open(os.path.join(dirname, "Cargo.toml"), "w").write(
        f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n{deps}\n'
        '[profile.release]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\ndebug = 0\ncodegen-units = 8\n' + profile)
    open(os.path.join(dirname, "src", "lib.rs" if lib else "main.rs"), "w").write(main)
    lock = "/opt/vp/ws/Cargo.lock"
    for k, v in (extra or {}).items():
        p = os.path.join(dirname, k); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(v)

def part_concrete(ctx, part, replay=None):
    """Builds replay/NAME/main.rs around the real source and runs it.
    Protocol: last lines `FAIL\\t<input>\\t<what>` (any number), `COUNT n distinct`, `SAMPLE text`."""
    name = part["program"]
    d = os.path.join(ctx.tmp, "run_" + name + part.get("dir_suffix", ""))
    extra = {}
    try:
        if part.get("obl"):
            from . import gens
            extra, mods = gens.CRATES[part["obl"]](REPO)
            src = open(os.path.join(BASE, "replay", "obl.rs")).read().replace("@MODS@", mods).replace("@OBL@", gens.obl(part["obl"], BASE))
            src = src.replace("@QUICK@", str(part.get("runs", (20000, 400000))[0])).replace("@THOROUGH@", str(part.get("runs", (20000, 400000))[1]))
        else: src = open(os.path.join(BASE, "replay", name + ".rs")).read()
        if part.get("gen"): src, extra = part["gen"](src, REPO)
    except (Lost, IndexError, StopIteration, KeyError, FileNotFoundError) as e:
        return Result(part, "lost", detail=f"extraction: {type(e).__name__}: {e}")
    src = src.replace("@REPO@", REPO).replace("@WATCH@", open(os.path.join(BASE, "replay", "watch.rs")).read())
    if not os.path.exists(os.path.join(d, "done")):
        crate(d, "vp_" + name, part.get("deps", "").replace("@REPO@", REPO), src, {k: v.replace("@REPO@", REPO) for k, v in extra.items()}, profile=part.get("profile", ""))
        rc, out, err, s0 = sh(["cargo", "build", "--release", "--offline", "-q"], min(ctx.left(), 400), cwd=d,
                              env={"CARGO_TARGET_DIR": os.path.join(d, "target"), "RUSTFLAGS": part.get("rustflags", "-Awarnings"), **part.get("env", {})})
        if rc != 0: return Result(part, "lost", detail="concrete harness does not build: " + err[-1500:], seconds=s0)
        open(os.path.join(d, "done"), "w")
    else: s0 = 0
    exe = os.path.join(d, "target/release/vp_" + name)
    lim = min(ctx.left(), part.get("timeout", {}).get(ctx.tier, 300 if ctx.tier == "quick" else 650))
    args = ["replay", ctx.prop, replay] if replay is not None else ["search", ctx.prop, ctx.tier, str(ctx.seed)]
    rc, out, err, s1 = sh([exe] + args, lim, cwd=d, env=part.get("env", {}))
    r = Result(part, "ok", seconds=s0 + s1, detail="")
    fails = []
    for ln in out.split("\n"):
        f = ln.split("\t")
        if f[0] == "FAIL" and len(f) >= 3: fails.append((f[1], f[2]))
        elif f[0] == "COUNT": r.evaluations += int(f[1]); r.distinct += int(f[2]) if len(f) > 2 else int(f[1])
        elif f[0] == "SAMPLE": r.samples.append("\t".join(f[1:]))
        elif f[0] == "INFO": r.info[f[1]] = f[2]
    if fails: r.status = "fail"; r.input = fails
    elif rc is None:
        if part.get("hang_is_failure"):
            r.status = "fail"; r.input = [("last case started: " + (r.info.get("case") or "?"), "does not terminate")]
        else: r.status = "lost"; r.detail = "concrete run timed out"
    elif rc != 0:
        r.status = "fail" if part.get("crash_is_failure") else "lost"
        last = [l for l in out.split("\n") if l.startswith("CASE\t")]
        r.input = [((last[-1].split("\t", 1)[1] if last else "search"), "the process died: exit %s %s" % (rc, err[-500:]))]
        r.detail = "concrete run died: %s %s" % (rc, err[-1500:])
    return r

# --------------------------------------------------------------------------- verdict
class Ctx:
    def __init__(s, prop, tier, seed, tmp, budget):
        s.prop = prop; s.tier = tier; s.seed = seed; s.tmp = tmp; s.t0 = time.time(); s.budget = budget
    def left(s): return max(5.0, s.budget - (time.time() - s.t0))

def known(prop):
    out = []
    p = os.path.join(BASE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def run_check(prop, spec, tier, seed):
    from . import kani
    budget = 820
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    ctx = Ctx(prop, tier, seed, tmp, budget)
    try:
        return _run(ctx, spec, {"verus": part_verus, "concrete": part_concrete, "kani": kani.part_kani})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def _run(ctx, spec, runners):
    prop = ctx.prop
    parts = [p for p in spec["parts"] if ctx.tier in p.get("tiers", ("quick", "thorough"))]
    results = [None] * len(parts)
    def go(i):
        try: results[i] = runners[parts[i]["kind"]](ctx, parts[i])
        except Exception as e:
            import traceback
            results[i] = Result(parts[i], "lost", detail="internal: " + traceback.format_exc()[-1500:])
    th = [threading.Thread(target=go, args=(i,)) for i in range(len(parts))]
    for t in th: t.start()
    for t in th: t.join()
    ver = [r for r in results if r.part["kind"] != "concrete"]
    con = [r for r in results if r.part["kind"] == "concrete"]
    violation = None; kn = []
    # 1. a concrete failing input
    for r in con + ver:
        if r.status == "fail" and r.input:
            new = []
            for inp, what in r.input:
                hit = next((k for k in known(prop) if k[0] == inp.replace(" ", "_")), None)
                if hit: kn.append(hit)
                else: new.append((inp, what))
            if new and not violation:
                violation = dict(kind="failing input", program=r.part.get("program") or r.part.get("name"), input=new[0][0],
                                 observed=new[0][1], more=new[1:5])
    # 2. an obligation that no longer holds
    obl = []
    for r in ver:
        if r.status == "fail":
            scope = r.part.get("scope"); skip = r.part.get("skip")
            for f in r.failed:
                fn = f.get("function") or "?"
                if skip and f.get("clause") and re.search(skip, f["clause"]): continue
                if scope is None or any(re.fullmatch(x, fn) or re.fullmatch(x, fn.split("::")[-1]) for x in scope): obl.append(dict(f, part=r.part.get("contract") or r.part.get("name")))
    if obl and violation: violation["failed_obligations"] = obl[:6]
    if obl and not violation:
        violation = dict(kind="failed obligation", failed_obligations=obl[:10])
    for inp, what in sorted(set(kn)): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    lost = [r for r in results if r.status == "lost"]
    for r in lost: NOTE("%s: part %s gave no verdict (%s)" % (prop, r.part.get("contract") or r.part.get("name") or r.part.get("program"), r.detail[:700].replace("\n", " | ")))
    if any(r.status == "lost" for r in ver):
        NOTE(f"{prop}: some contracts could not be re-checked on this source; this run is a bounded check where that is so")
    write_evidence(ctx, spec, results, violation, lost)
    if violation:
        os.makedirs(os.path.join(BASE, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(BASE, "replays", f"{prop}-{h}.json")
        violation.update(property=prop, rerun=f"/verif/check {prop} --replay {path}" if violation["kind"] == "failing input" else f"/verif/check {prop}")
        json.dump(violation, open(path, "w"), indent=1)
        if violation["kind"] == "failing input": print("failing input: %s -- %s" % (violation["input"], violation["observed"]))
        for o in violation.get("failed_obligations", []): print("failed obligation: %s: %s -- %s" % (o["function"], o["message"], o["at"][:160]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if violation["kind"] == "failing input" else " no-failing-input-found"), flush=True)
        return 1
    print("OK property=%s: %d obligations discharged, %d concrete evaluations" % (prop, sum(r.discharged for r in ver), sum(r.evaluations for r in con)), flush=True)
    return 0

def write_evidence(ctx, spec, results, violation, lost):
    ver = [r for r in results if r.part["kind"] != "concrete"]; con = [r for r in results if r.part["kind"] == "concrete"]
    level = spec["level"]
    cov = {}
    per = []
    for r in results:
        per.append({k: v for k, v in dict(part=r.part.get("contract") or r.part.get("name") or r.part.get("program"), kind=r.part["kind"],
            status=r.status, label=r.part.get("label"), obligations=r.obligations, discharged=r.discharged, evaluations=r.evaluations,
            seconds=round(r.seconds, 1), solver_ms=r.info.get("solver_ms"), backend=r.info.get("backend"),
            functions_under_contract=r.info.get("functions"), extraction_drops=r.info.get("rules"),
            vacuity_probes=r.info.get("vacuity_probes"), vacuity_refuted=r.info.get("vacuity_refuted"), bounds=r.part.get("bounds"),
            harnesses=r.info.get("harnesses"), detail=r.detail[:600] or None).items() if v is not None and v != ""})
    trusted = sorted(set(sum([r.info.get("trusted", []) for r in ver], []) + spec.get("trusted", [])))
    ob = sum(r.obligations for r in ver); di = sum(r.discharged for r in ver)
    cmds = [r.info["cmd"] for r in ver if r.info.get("cmd")]
    cov = dict(obligations=ob, discharged=di, checker_cmd="; ".join(cmds) or "none", trusted_base=trusted or ["none beyond the verifier"], parts=per)
    ev = sum(r.evaluations for r in con)
    if con:
        cov.update(evaluations=ev, distinct_nontrivial=sum(r.distinct for r in con),
                   rule=spec.get("rule", "executable contract over generated inputs; see parts"),
                   samples=sum([r.samples for r in con], [])[:6] or ["none"])
    cov["explanation"] = spec.get("explanation", "see DESIGN.md")
    if lost and level == "proof": cov["not_proved_this_run"] = [dict(part=r.part.get("contract") or r.part.get("name") or r.part.get("program"), why=r.detail[:300]) for r in lost]
    e = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 1),
             assumptions=spec.get("assumptions", []), violations=1 if violation else 0)
    os.makedirs(os.path.join(BASE, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(BASE, "evidence", ctx.prop + ".json"), "w"), indent=1)
