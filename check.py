#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

Exit 0: holds on everything explored. Exit 1 + VIOLATION line: broken (the
solver's counterexample was replayed on the natively compiled real code).
Anything else: the check could not decide (build error, time-out, vacuous
harness, counterexample that does not reproduce).
"""
import json, os, re, subprocess, sys, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
KANI = os.path.join(HERE, "kani")
SYMB = os.path.join(HERE, "symval")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.json")
HOME = os.environ.get("HOME") or "/root"
STABLE = "stable-x86_64-unknown-linux-gnu"
CBMC_BIN = os.path.join(HOME, ".kani", "kani-0.68.0", "bin")

from props import PROPS  # noqa: E402


def env(target, stable=True):
    e = dict(os.environ)
    e["HOME"] = HOME
    e["PATH"] = os.path.join(HOME, ".cargo", "bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    for k in list(e):
        if k.startswith("CARGO_") or k.startswith("RUST"):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(BUILD, target))
    if stable:
        e["RUSTUP_TOOLCHAIN"] = STABLE
    return e


def run(cmd, cwd, e, timeout):
    """Runs in its own process group, so that a time-out ends the solvers too."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


class Inconclusive(Exception):
    pass


class Unsupported(Inconclusive):
    """The code now uses an operation one engine's number type does not have.
    Where a property has two engines, the other one still decides it."""


# ---------------------------------------------------------------- engine K

def kani_cmd(filters, extra, jobs):
    c = ["cargo", "kani", "--output-format", "terse", "--no-assertion-reach-checks",
         "-Z", "unstable-options", "-Z", "stubbing"]
    if jobs:
        c += ["-j", str(jobs)]
    for f in filters:
        c += ["--harness", f]
    return c + extra


def goto_functions(path):
    """Names of the repository's functions in a harness's goto program."""
    try:
        out = subprocess.run([os.path.join(CBMC_BIN, "goto-instrument"), "--list-goto-functions", path],
                             capture_output=True, text=True, timeout=60).stdout
    except Exception:
        return set()
    names = set()
    for line in out.splitlines():
        n = line.split("/*", 1)[0].strip()
        if re.match(r"<?&?(qlab_\w+|calendar)::", n):
            names.add(n)
    return names


def run_kani(prop, spec, tier, deadline, log):
    e = env("kani", stable=False)
    filters = [f"{prop.lower()}_"] + ([f"{prop.lower()}t_"] if tier == "thorough" else [])
    js = os.path.join(BUILD, f"{prop}.kani.json")
    os.makedirs(BUILD, exist_ok=True)
    results, functions, solver_s, cbmc_stats = {}, set(), 0.0, {}

    def one_round(flt, extra):
        nonlocal solver_s
        if os.path.exists(js):
            os.remove(js)
        left = deadline - time.time()
        cmd = kani_cmd(flt, ["--export-json", js, "--harness-timeout", f"{int(max(30, left - 45))}s"] + extra, spec.get("jobs", 8))
        rc, out = run(cmd, KANI, e, left)
        log.append(" ".join(cmd)); log.append(out[-20000:])
        if rc is None:
            raise Inconclusive("time-out while running kani")
        if not os.path.exists(js):
            raise Inconclusive("kani produced no result:\n" + out[-3000:])
        d = json.load(open(js))
        for c in d.get("cbmc", []):
            st = c.get("cbmc_stats") or {}
            solver_s += st.get("runtime_decision_procedure_s") or st.get("runtime_solver_s") or 0
            cbmc_stats[c["harness_id"]] = st
        for h in d["harness_metadata"]:
            g = h.get("goto_file")
            if g and os.path.exists(g):
                functions.update(goto_functions(g))
        res = {}
        for r in d["verification_results"]["results"]:
            res[r["harness_id"]] = r
        meta = {h["pretty_name"] for h in d["harness_metadata"]}
        return res, meta

    res, meta = one_round(filters, [])
    if not meta:
        raise Inconclusive("no harness")
    missing = meta - set(res)
    found = []
    failing = []
    for name in sorted(meta):
        r = res.get(name)
        if r is None:
            continue
        checks = r.get("checks") or []
        bad = [c for c in checks if c["status"].lower() in ("failure", "failed")]
        undet = [c for c in checks if c["status"].lower() in ("undetermined",)]
        cov = [c for c in checks if c.get("category") == "cover"]
        # A witness named FINDING shows that a recorded finding is still there.
        for c in [c for c in cov if c["description"].startswith("FINDING ")]:
            cov.remove(c)
            if c["status"].lower() == "satisfied":
                found.append(c["description"].split()[1])
        bad = [c for c in bad if c.get("category") != "cover"]
        results[name] = dict(name=name, checks=len(checks), duration_s=r.get("duration_ms", 0) / 1000,
                             status=r["status"], covers=len(cov),
                             covered=sum(c["status"].lower() == "satisfied" for c in cov),
                             ssa_steps=(cbmc_stats.get(name) or {}).get("size_program_expression", 0),
                             vccs=(cbmc_stats.get(name) or {}).get("vccs_remaining", 0),
                             solver_s=(cbmc_stats.get(name) or {}).get("runtime_decision_procedure_s", 0))
        if r["status"] == "Success":
            if any(c["status"].lower() != "satisfied" for c in cov):
                raise Inconclusive(f"harness {name} is vacuous: {[c['description'] for c in cov]}")
        elif bad:
            unwind_only = all("unwinding" in c.get("description", "").lower() or c.get("category") == "unwind" for c in bad)
            failing.append((name, bad, unwind_only))
        else:
            missing.add(name)
    # A loop longer than the bound: not a verdict. Try again with a larger bound.
    for name, bad, unwind_only in list(failing):
        if unwind_only:
            for u in spec.get("unwinds", [14, 40, 150, 400]):
                log.append(f"{name}: unwinding bound too small, retrying with {u}")
                r2, _ = one_round([name], ["--exact", "--unwind", str(u)])
                r = r2.get(name)
                if r is None or r["status"] == "Success":
                    break
                b2 = [c for c in r.get("checks") or [] if c["status"].lower() in ("failure", "failed") and c.get("category") != "cover"]
                if b2 and not all("unwinding" in c.get("description", "").lower() for c in b2):
                    break
            failing = [f for f in failing if f[0] != name]
            if r is None:
                missing.add(name); continue
            bad2 = [c for c in r.get("checks") or [] if c["status"].lower() in ("failure", "failed") and c.get("category") != "cover"]
            if r["status"] == "Success":
                results[name].update(status="Success", note="larger unwinding bound")
            elif bad2 and not all("unwinding" in c.get("description", "").lower() for c in bad2):
                failing.append((name, bad2, False))
            else:
                missing.add(name)

    # Known findings: a harness that encodes a recorded finding.
    violation = None
    notes = []
    for name, bad, _ in failing:
        descr = "; ".join(sorted({c["description"] for c in bad}))[:300]
        rep = replay_kani(prop, name, descr, deadline, log)
        if rep:
            violation = rep
            break
        notes.append(f"{name}: counterexample did not reproduce natively ({descr})")
    if violation is None and notes and not missing and all(
            "unsupported" in c["description"] for f in failing for c in f[1]):
        raise Unsupported("undecided: " + "; ".join(notes))
    if violation is None and (notes or missing):
        raise Inconclusive("undecided: " + "; ".join(notes + [f"{m}: no verdict (time-out or crash)" for m in sorted(missing)]))
    ok = [r for r in results.values() if r["status"] == "Success"]
    return dict(engine="kani (CBMC bounded model checking of the compiled MIR)",
                states=sum(r["ssa_steps"] for r in results.values()), transitions=sum(r["vccs"] for r in results.values()), harnesses=sorted(results.values(), key=lambda r: r["name"]),
                queries=sum(r["checks"] for r in results.values()), discharged=sum(r["checks"] for r in ok),
                solver_s=round(solver_s, 2), functions=sorted(functions), witnesses=sum(r["covered"] for r in results.values())), violation, sorted(set(found))


def replay_kani(prop, name, descr, deadline, log):
    e = env("kani", stable=False)
    cmd = kani_cmd([name], ["--exact", "-Z", "concrete-playback", "--concrete-playback=print"], 0)
    left = deadline - time.time()
    rc, out = run(cmd, KANI, e, left)
    log.append(" ".join(cmd)); log.append(out[-20000:])
    cases = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = [re.sub(r"\s", "", v) for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", block, re.M)]
        cases.append(["".join("%02x" % int(b) for b in v.split(",") if b) for v in vals])
    if not cases:
        return None
    short = name.split("::")[-1]
    ne = env("native")
    left = deadline - time.time()
    rc, bout = run(["cargo", "build", "--offline", "--bin", "replay"], KANI, ne, left)
    if rc != 0:
        log.append(bout[-4000:])
        raise Inconclusive("native replay build failed")
    for vals in cases:
        arg = ",".join(vals)
        exe = os.path.join(BUILD, "native", "debug", "replay")
        rc, rout = run([exe, short, arg], HERE, ne, 120)
        if rc == 3:
            rel = None
            if deadline - time.time() > 90:
                b, _ = run(["cargo", "build", "--offline", "--release", "--bin", "replay"], KANI, ne, deadline - time.time())
                if b == 0:
                    r2, _ = run([os.path.join(BUILD, "native", "release", "replay"), short, arg], HERE, ne, 120)
                    rel = (r2 == 3)
            path = os.path.join(EVID, f"{prop}.replay.json")
            json.dump(dict(property=prop, harness=name, failed=descr, values=vals, reproduced_dev=True, reproduced_release=rel,
                           command=f"cd {KANI} && CARGO_TARGET_DIR={BUILD}/native cargo run --offline --bin replay -- {short} {arg}",
                           output=rout[-3000:]), open(path, "w"), indent=1)
            return dict(path=path, what=f"{name}: {descr}", output=rout[-1500:])
    return None


# ---------------------------------------------------------------- engine S

def run_symval(prop, spec, tier, deadline, log):
    e = env("symval")
    rc, out = run(["cargo", "build", "--offline", "--release"], SYMB, e, deadline - time.time())
    log.append(out[-5000:])
    if rc != 0:
        raise Inconclusive("symval build failed:\n" + out[-3000:])
    exe = os.path.join(BUILD, "symval", "release", "symval")
    res = os.path.join(BUILD, f"{prop}.symval.json")
    if os.path.exists(res):
        os.remove(res)
    rc, out = run([exe, prop, tier, KNOWN, res], HERE, e, deadline - time.time())
    log.append(out[-20000:])
    if rc is None:
        raise Inconclusive("time-out in symval")
    if rc == 2 and "INCONCLUSIVE unsupported" in out and "did not reproduce" not in out:
        raise Unsupported("symval: " + out[out.index("INCONCLUSIVE"):][:1000])
    if rc not in (0, 1) or not os.path.exists(res):
        raise Inconclusive(f"symval ended with {rc}:\n" + out[-3000:])
    d = json.load(open(res))
    violation = None
    if d.get("violation"):
        path = os.path.join(EVID, f"{prop}.replay.json")
        json.dump(dict(property=prop, **d["violation"], command=f"{exe} {prop} {tier} {KNOWN} OUT.json"), open(path, "w"), indent=1)
        violation = dict(path=path, what=d["violation"].get("what", ""), output=json.dumps(d["violation"])[:1500])
    return d["coverage"], violation, d.get("known", [])


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 840 if tier == "quick" else 6 * 3600))
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    log, parts, violation, known, skipped = [], [], None, [], []
    status = 0
    err = None
    try:
        for eng in spec["engines"]:
            try:
                if eng == "kani":
                    cov, v, k = run_kani(prop, spec, tier, deadline, log)
                else:
                    cov, v, k = run_symval(prop, spec, tier, deadline, log)
            except Unsupported as ex:
                skipped.append(f"{eng}: {ex}")
                if len(skipped) == len(spec["engines"]):
                    raise Inconclusive("; ".join(skipped))
                continue
            listed = {f["id"]: f["what"] for f in json.load(open(KNOWN))["findings"] if f["property"] == prop}
            for i in k:
                if i not in listed:
                    raise Inconclusive(f"finding {i} is not listed in {KNOWN}")
                known.append(f"{i}: {listed[i]}")
            parts.append(cov)
            if v:
                violation = v
                break
    except Inconclusive as ex:
        status, err = 2, str(ex)
    if violation:
        status = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(p.get("states", 0) for p in parts),
            "transitions": sum(p.get("transitions", 0) for p in parts),
            "queries": sum(p.get("queries", 0) for p in parts),
            "discharged": sum(p.get("discharged", 0) for p in parts),
            "traces_validated_against_impl": sum(p.get("replayed", 0) for p in parts) + (1 if violation else 0),
            "samples": [s for p in parts for s in p.get("samples", [h["name"] + ": " + h["status"] for h in p.get("harnesses", [])])][:40],
            "explanation": "Bounded symbolic execution. states = symbolic program states (SSA steps, or term nodes and paths for the symbolic number type) "
                           "encoded for the solver; transitions = verification conditions left for the solver after simplification; queries = assertions, "
                           "panics, overflows, unwinding bounds and reachability witnesses posed; discharged = those answered as required",
            "not_encoded": skipped, "bounds": spec["bounds"], "outside": spec.get("outside", ""), "engines": parts,
            "solver_s": round(sum(p.get("solver_s", 0) for p in parts), 2),
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if err:
        ev["coverage"]["error"] = err[:2000]
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(BUILD, f"{prop}.log"), "w") as f:
        f.write("\n".join(log))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if violation:
        print(violation["what"]); print(violation["output"])
        print(f"VIOLATION property={prop} replay={violation['path']}")
    elif err:
        print("ERROR " + err)
    else:
        n = sum(p.get("queries", 0) for p in parts)
        print(f"{prop} holds within its bounds: {n} queries, solver {ev['coverage']['solver_s']} s, wall {ev['wall_s']} s")
    sys.exit(status)


main()
