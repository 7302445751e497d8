#!/usr/bin/env python3
"""Decides one property: weaves the contracts of its units with the functions of /repo's current
source, has Verus discharge every obligation, and runs the bounded stand-in for what is outside the
verifier's reach.

  check.py C01 [--tier quick|thorough]      decide property C01
  check.py --setup                          build the tools
  check.py --record [UNIT..]                (maintenance) record the shape of the functions under contract
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "tools"))
from registry import PROPS, UNITS, BUDGET

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def die(msg):
    print("check error: " + msg); sys.exit(2)

ENV = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")

def build_weave():
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "tools/weave"), env=ENV)
    if r.returncode: die("weave does not build:\n" + r.stderr[-3000:])

def build_harness():
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness"), env=ENV)
    if r.returncode: die("the harness does not build:\n" + r.stderr[-3000:])

def h(s): return hashlib.sha256(s.encode()).hexdigest()[:16]

def weave(unit, assume=(), probe=False, tag=""):
    out = os.path.join(BUILD, f"{unit}{tag}.rs"); rep = os.path.join(BUILD, f"{unit}{tag}.json")
    cmd = [os.path.join(V, "tools/weave/target/release/weave"), os.path.join(V, f"specs/{unit}.vu"), "--repo", REPO, "--out", out, "--report", rep,
           "--baseline", os.path.join(V, f"specs/{unit}.base")]
    if assume: cmd += ["--assume", ",".join(assume)]
    if probe: cmd += ["--probe", "1"]
    r = sh(cmd)
    if r.returncode: return None, None, r.stderr
    return out, json.load(open(rep)), ""

def verus(path, extra=()):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--num-threads", "8"] + list(extra)
    if "--multiple-errors" not in cmd: cmd += ["--multiple-errors", "4"]
    try: r = sh(cmd, cwd=BUILD, timeout=600)
    except subprocess.TimeoutExpired: return dict(ok=None, err="timeout", cmd=" ".join(cmd), wall=600, fns={}, verified=0, errors=0, solver=0, compiled=False)
    try: j = json.loads(r.stdout)
    except Exception: j = {}
    res = j.get("verification-results", {})
    fns = {}
    solver = 0
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            name = f["function"].split("::", 1)[1] if "::" in f["function"] else f["function"]
            a = fns.setdefault(name, dict(ok=True, ms=0, mode=f.get("mode:", "")))
            a["ok"] = a["ok"] and f.get("success", False); a["ms"] += f["time-micros"] / 1000.0
            solver += f["time-micros"] / 1e6
    compiled = "verified" in res and not res.get("encountered-vir-error") and (res.get("verified", 0) + res.get("errors", 0) > 0)
    return dict(ok=res.get("success", False), err=r.stderr, cmd=" ".join(cmd), wall=time.time() - t0, fns=fns,
                verified=res.get("verified", 0), errors=res.get("errors", 0), solver=solver, compiled=compiled)

def err_blocks(err):
    """[(message, [lines], text)] of the error blocks of a diagnostic stream"""
    out = []
    cur = None
    for l in err.splitlines():
        if re.match(r"^(error|warning|note)(\[|:)", l):
            if cur: out.append(cur)
            cur = [l, [], [l]]
        elif cur is not None:
            cur[2].append(l)
            m = re.match(r"^\s*-->\s.*?:(\d+):\d+", l)
            if m: cur[1].append(int(m.group(1)))
            m = re.match(r"^\s*(\d+)\s*[|]", l)
            if m: cur[1].append(int(m.group(1)))
    if cur: out.append(cur)
    return [(m, ls, "\n".join(t)) for m, ls, t in out if m.startswith("error")]

def locate(rep, lines):
    for ln in lines:
        for f in rep["functions"]:
            if f["out"][0] - 3 <= ln <= f["out"][1] + 1: return f
    return None

def baseline(unit):
    b = {}
    p = os.path.join(V, f"specs/{unit}.base")
    if os.path.exists(p):
        for l in open(p):
            v = l.rstrip("\n").split("\t")
            if len(v) >= 3: b[v[0]] = v[2]
    return b

def shape(f): return h(f["structure"] + "|" + f["callees"])

def run_probe(unit, assume):
    po, prep, _ = weave(unit, assume, probe=True, tag="_probe")
    return prep, verus(po, ["--multiple-errors", "1"])

def run_unit(unit, probe, pool):
    """Verifies one unit.  Returns a dict: status per function and the bookkeeping for the evidence."""
    assume = []; notes = []; soft = set()
    r = rep = None
    early = pool.submit(run_probe, unit, []) if probe else None
    for attempt in range(10):
        out, rep, msg = weave(unit, assume)
        if out is None: return dict(unit=unit, broken=msg.strip()[:500], functions=[], notes=[msg.strip()[:500]])
        bad = {p.split(":")[0] for p in rep["problems"] if ":" in p}
        missing = [p for p in rep["problems"] if "not found in" in p and ":" not in p]
        for p in rep["problems"]:
            # an anchor of the annotations is gone: the function may still verify without it; if it does not, that decides nothing
            if p not in notes: notes.append(p)
        soft |= bad
        r = verus(out)
        if r["compiled"]: break
        # the woven text is not accepted: give up the functions the errors point at
        cand = []
        for m, ls, t in err_blocks(r["err"]):
            f = locate(rep, ls)
            if f and f["name"] not in assume and f["name"] not in cand: cand.append(f["name"]); notes.append(f"{f['name']}: not accepted by the verifier's front end: {m[:160]}")
        cand = [c for c in cand if not next(f for f in rep["functions"] if f["name"] == c)["assumed"]]
        if not cand:
            return dict(unit=unit, broken="not accepted: " + r["err"][-1500:], functions=rep["functions"], notes=notes + missing, rep=rep)
        assume += cand
    else:
        return dict(unit=unit, broken="gave up", functions=rep["functions"], notes=notes, rep=rep)
    notes += [m for m in missing if m not in notes]
    base = baseline(unit)
    failed = {}; blocks = err_blocks(r["err"])
    def collect(r):
        bad = {}
        rl = set()
        for m, ls, t in err_blocks(r["err"]):
            if m.startswith("error: aborting"): continue
            f = locate(rep, ls)
            n = f["name"] if f else "(lemma)"
            bad.setdefault(n, []).append(t)
            if "rlimit" in t or "resource limit" in t.lower(): rl.add(n)
        return bad, rl
    runs = [r]
    if not r["ok"]:
        failed, rl = collect(r)
        for extra in (["--smt-option", "smt.random_seed=7", "--rlimit", "60"], ["--smt-option", "smt.random_seed=23", "--rlimit", "60"]):
            r2 = verus(out, extra); runs.append(r2)
            if r2["ok"] is None: break
            f2, rl2 = collect(r2)
            failed = {k: v for k, v in failed.items() if k in f2 and k not in (rl & rl2)} | {k: ["resource limit"] for k in (rl & rl2)}
            if not failed: break
            rl = rl & rl2
    else: rl = set()
    fns = []; imported = sorted({f"{f['name']} (unit {f['imported']})" for f in rep["functions"] if f.get("imported")})
    for f in rep["functions"]:
        drift = f["name"] in base and base[f["name"]] != shape(f)
        if f.get("imported"): continue
        user_assumed = f["assumed"] and f["name"] not in assume
        if f["name"] in assume: st = "undecided"
        elif user_assumed: st = "assumed"
        elif f["name"] in failed: st = "undecided" if (drift or f["name"] in rl or f["name"] in soft) else "failed"
        else: st = "verified"
        ms = sum(v["ms"] for k, v in r["fns"].items() if k == f["name"] or k.endswith("::" + f["name"]))
        fns.append(dict(f, status=st, drift=drift, ms=ms, errors=failed.get(f["name"], [])))
    lemma = failed.get("(lemma)", [])
    if probe:
        prep, pr = early.result()
        if assume: prep, pr = run_probe(unit, assume)
        bad = {}
        for m, ls, t in err_blocks(pr["err"]):
            f = locate(prep, ls)
            if f: bad[f["name"]] = True
        vac = [f["name"] for f in fns if f["status"] == "verified" and f["name"] not in bad and f["structure"] != "const"]
    else: vac = None
    return dict(unit=unit, broken=None, functions=fns, notes=notes, rep=rep, verified=r["verified"], errors=len(failed),
                solver=sum(x["solver"] for x in runs), wall=sum(x["wall"] for x in runs), cmd=r["cmd"], lemma=lemma, vacuous=vac, fnsmt=r["fns"], assume=assume, out=out, imported=imported)

def trusted(unit):
    """mechanical scan for everything the verifier is told without proof"""
    t = open(os.path.join(BUILD, unit + ".rs")).read()
    res = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?((?:proof )?fn\s+\w+|struct\s+\w+)", t): res.append("external body: " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]", t): res.append("assumed contract of the standard library: " + m.group(1).strip())
    for m in re.finditer(r"\baxiom fn\s+(\w+)|\b(admit|assume)\s*\(", t): res.append("axiom: " + (m.group(1) or m.group(2)))
    for m in re.finditer(r"uninterp spec fn\s+(\w+)", t): res.append("uninterpreted: " + m.group(1))
    return sorted(set(res))

def harness(prop, tier, seed, budget):
    out = os.path.join(BUILD, f"{prop}.harness.json")
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(V, "harness/target/debug/vh"), "run", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out]
    r = sh(cmd, timeout=880)
    if r.returncode or not os.path.exists(out): die(f"the harness failed: {r.stderr[-2000:]}")
    d = json.load(open(out)); d["cmd"] = " ".join(cmd)
    return d

def known():
    k = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) input=(.*?) :: (.*)", l.strip())
            if m: k.append((m.group(1), m.group(2), m.group(3)))
    return k

def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if "--setup" in args:
        build_weave(); build_harness(); print("built"); return
    if "--record" in args:
        build_weave()
        for u in [a for a in args if not a.startswith("-")] or UNITS:
            out, rep, msg = weave(u)
            if out is None: die(msg)
            for p in rep["problems"]: print("PROBLEM", u, p)
            with open(os.path.join(V, f"specs/{u}.base"), "w") as f:
                for x in [x for x in rep["functions"] if not x.get("imported")]: f.write(f"{x['name']}\t{x['binders']}\t{shape(x)}\n")
            print("recorded", u, len(rep["functions"]))
        return
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build_weave(); build_harness()
    P = PROPS[prop]
    budget = BUDGET[tier]
    pool = ThreadPoolExecutor(max_workers=32)
    hfut = pool.submit(harness, prop, tier, seed, budget)
    futs = [pool.submit(run_unit, u, True, pool) for u in P["units"]]
    results = [f.result() for f in futs]
    ev_dir = os.path.join(V, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    rdir = os.path.join(V, "build/replay"); os.makedirs(rdir, exist_ok=True)

    # --- the verifier's answer
    mine, failed, undecided, assumed, trust, notes = [], [], [], [], [], []
    obligations = discharged = 0; solver = 0.0; cmds = []; lemmas = 0
    for r in results:
        notes += r["notes"]
        if r["broken"]:
            undecided.append((r["unit"], "the unit is not accepted by the verifier: " + r["broken"][:300])); continue
        trust += [f"{r['unit']}: {x}" for x in trusted(r["unit"])]
        solver += r["solver"]; cmds.append(r["cmd"])
        names = set()
        for f in r["functions"]:
            if f["props"] and prop not in f["props"]: continue
            names.add(f["name"])
            rec = dict(function=f["name"], source=f"{f['source']}:{f['lines'][0]}", status=f["status"], solver_ms=round(f["ms"], 1), shape_changed=f["drift"])
            mine.append(rec)
            if f["status"] == "assumed": assumed.append(f["name"]); continue
            obligations += 1
            if f["status"] == "verified": discharged += 1
            elif f["status"] == "failed": failed.append((r, f))
            else: undecided.append((f["name"], "; ".join(n for n in r["notes"] if n.startswith(f["name"]))[:300] or ("not provable in its changed form" if f["drift"] else "resource limit")))
        # lemmas and spec functions (termination) of the unit
        fn_all = {f["name"] for f in r["functions"]}
        lem = [k for k, v in r["fnsmt"].items() if v["mode"] in ("proof", "spec") ]
        lemmas += len(lem); obligations += len(lem); discharged += sum(1 for k in lem if r["fnsmt"][k]["ok"])
        if r["lemma"]: undecided.append((r["unit"], "a lemma is not discharged: " + r["lemma"][0][:300]))
        if r["vacuous"]:
            bad = [v for v in r["vacuous"] if v in names]
            if bad: die(f"vacuous contracts in {r['unit']}: {bad}")
    if P["units"] and not undecided and discharged == 0: die("no obligation was generated")

    # --- the bounded stand-in
    hr = hfut.result()
    if failed and not hr["violations"]:
        h2 = harness(prop, "thorough", seed + 1000, 150)
        if h2["violations"]: hr = h2
    kn = [k for k in known() if k[0] == prop]
    viol = [v for v in hr["violations"] if not any(re.search(k[1], v["input"]) for k in kn)]
    for k in kn: print(f"KNOWN-FINDING: property={prop} {k[2]}")

    replay = os.path.join(rdir, f"{prop}.txt")
    if os.path.exists(replay): os.remove(replay)
    code = 0
    if viol or failed:
        with open(replay, "w") as f:
            f.write(f"property {prop}\n")
            for r, x in failed:
                f.write(f"\nfailed obligation in {x['source']}:{x['lines'][0]} ({x['name']}), woven text {r['out']}\nverifier: {r['cmd']}\n")
                for t in x["errors"]: f.write(t + "\n")
            for v in viol: f.write(f"\nfailing input, run against the real code:\n  {v['input']}\nwhat it shows: {v['detail']}\nagain with: {hr['cmd']}\n")
        code = 1
        for r, x in failed: print(f"obligation failed: {x['source']} {x['name']}: " + (x["errors"][0].splitlines()[0] if x["errors"] else ""))
        for v in viol: print(f"failing input: {v['input'][:300]} -- {v['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={replay}" + ("" if viol else " no-failing-input-found"))

    cov = dict(obligations=obligations, discharged=discharged, checker_cmd="; ".join(cmds) or "none", trusted_base=sorted(set(trust)),
               functions_under_contract=mine, lemmas_and_spec_functions=lemmas, back_end="Verus / Z3", solver_time_s=round(solver, 2),
               assumed_functions=assumed, contracts_proved_in_another_unit={r["unit"]: r["imported"] for r in results if r.get("imported")}, undecided=[dict(what=a, why=b) for a, b in undecided], extraction_notes=notes,
               extraction_rules={k: v for r in results if r.get("rep") for k, v in r["rep"]["rules"].items()},
               vacuity_probe="an assertion of false at the start of every function under contract was rejected" if P["units"] else "none",
               bounded=dict(label="bounded stand-in, not counted as proved", what=P["bounded"], command=hr["cmd"], parts=hr["parts"], notes=hr["notes"]),
               evaluations=hr["evaluations"], distinct_nontrivial=hr["distinct"], rule="cases of the bounded stand-in: " + P["bounded"] + "; distinct by the text of the case", samples=hr["samples"][:8],
               unverified=P.get("unverified", []))
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol) + (0 if viol else len(failed)))
    json.dump(ev, open(os.path.join(ev_dir, f"{prop}.json"), "w"), indent=1, ensure_ascii=False)
    print(f"{prop}: {discharged}/{obligations} obligations discharged ({len([m for m in mine if m['status'] == 'verified'])} functions, {lemmas} lemmas and spec functions), {len(undecided)} undecided; bounded: {hr['evaluations']} cases, {len(viol)} violations; {time.time() - t0:.1f} s")
    for a, b in undecided: print(f"  undecided: {a}: {b[:200]}")
    sys.exit(code)

if __name__ == "__main__": main()
