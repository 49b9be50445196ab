#!/usr/bin/env python3
"""run.py PROPERTY VERIF_DIR: decides the property's harnesses with Kani (CBMC), replays every
counterexample natively, writes the evidence file.  Exit 0 held, 1 violation, 2 no answer."""
import json, os, re, subprocess, sys, time

PID, V = sys.argv[1], sys.argv[2]
HERE = os.path.join(V, "kani")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
# harnesses only run in the thorough tier
SLOW = {"c19_extend_remove_repeat"}
SOLVERS = {"z3", "cadical"}
# for each property: what one harness covers
BOUNDS = {
    "C19": "polylines of at most 3 vertexes (every f64 bit pattern, both flags) as the start state, one or two operations on it, every position up to 8; comparisons with tolerances over coordinates and tolerances out of a few values",
    "C20": "every finite f64 (or f32 where stated in the harness name) for the comparison functions; vectors and vertexes over a few coordinates and tolerances",
    "C21": "polylines of at most 3 vertexes (every f64 bit pattern, any flag byte), lists of at most 2 polylines, every u32 position, null or valid handles; offsets and booleans only for null handles, unknown operations and polylines without an area; a panic in the library counts as a failure; memory that is never freed counts as a failure",
    "C22": "polylines of at most 2 vertexes and every field value, written to and read back from a list of tokens with announced lengths; results with an empty list of slices read back whole",
}
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=warn", CARGO_TARGET_DIR=os.path.join(V, ".build", "kani"))
env.pop("RUSTUP_TOOLCHAIN", None)
leak = ["--cbmc-args", "--memory-leak-check"] if PID == "C21" else []


def names():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "src"))):
        s = open(os.path.join(HERE, "src", f)).read()
        for m in re.finditer(r"fn (%s_\w+) \[\d+\]" % PID.lower(), s):
            if TIER == "thorough" or m.group(1) not in SLOW:
                out.append(f[:-3] + "::" + m.group(1))
    return out


def kani(args, limit):
    # a session of its own, so that a timeout ends the solvers too
    p = subprocess.Popen(["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing"] + args, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
    return out


def replay_bins():
    """native builds of the harness: debug, release, and with the address sanitizer"""
    base = os.path.join(V, ".build", "kani-native")
    plans = [
        ("debug", {"RUSTUP_TOOLCHAIN": "1.85.0", "RUSTFLAGS": "--cap-lints=warn"}, []),
        ("release", {"RUSTUP_TOOLCHAIN": "1.85.0", "RUSTFLAGS": "--cap-lints=warn"}, ["--release"]),
        ("asan", {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "--cap-lints=warn -Zsanitizer=address"}, ["--target", "x86_64-unknown-linux-gnu"]),
    ]
    bins = []
    for n, e, a in plans:
        t = os.path.join(base, n)
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "replay"] + a, cwd=HERE, env=dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t, **e), capture_output=True, text=True)
        b = os.path.join(t, *(["x86_64-unknown-linux-gnu"] if n == "asan" else []), "release" if n == "release" else "debug", "replay")
        if r.returncode == 0 and os.path.exists(b):
            bins.append((n, b))
        else:
            print("note: no %s replay build: %s" % (n, r.stderr[-400:]))
    return bins


def replay(bins, harness, vals):
    h = harness.split("::")[-1]
    for n, b in bins:
        try:
            r = subprocess.run([b, h, ",".join(vals) or "00"], capture_output=True, text=True, errors="replace", timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired:
            return n, "does not end"
        if r.returncode not in (0, 3, 4):
            m = re.search(r"^FAILED (.*)$", r.stdout, re.M)
            p = re.search(r"panicked at ([^\n]*)", r.stderr)
            a = re.search(r"ERROR: AddressSanitizer: (\S+)", r.stderr)
            return n, m.group(1) if m else "panic" if p else a.group(1) if a else "ends with code %d" % r.returncode
    return None


def counterexamples(h):
    out = kani(["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", h, "--harness-timeout", "300s"] + leak, 320)
    found = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = ["".join("%02x" % int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([^\]]*)\]", m.group(1))]
        if vals not in found:
            found.append(vals)
    return found


hs = names()
js = os.path.join(V, ".build", "kani-%s.json" % PID)
os.makedirs(os.path.join(V, ".build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
if os.path.exists(js):
    os.remove(js)
limit = 3000 if TIER == "thorough" else 560
args = ["-j", "8", "--output-format", "terse", "--harness-timeout", "%ds" % (1500 if TIER == "thorough" else 300), "--export-json", js, "--exact"]
for h in hs:
    args += ["--harness", h]
log = kani(args + leak, limit)
open(os.path.join(V, ".build", "kani-%s.log" % PID), "w").write(log)
if not os.path.exists(js):
    print(log[-3000:])
    print("ERROR %s: no verification result" % PID)
    sys.exit(2)
d = json.load(open(js))
stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
held, undecided, bad, notes = [], [], [], []
checks = ok = covers = 0
functions, solver, symex, vccs = {}, 0.0, 0.0, 0
for h in hs:
    r = res.get(h)
    if r is None or not r.get("checks"):
        undecided.append({"harness": h, "why": "time or memory limit"})
        continue
    failed, open_, vac, unwound = [], [], [], False
    for c in r["checks"]:
        st, cat, what = c["status"], c["category"], c["description"]
        if cat == "NaN" or what.startswith("NaN on"):
            continue  # computing a NaN is allowed
        if cat == "cover":
            covers += 1
            if st != "Satisfied":
                vac.append(what)
            continue
        checks += 1
        if st == "Failure":
            if "unwinding assertion" in what or cat == "unwind":
                unwound = True
            else:
                failed.append(what)
        elif st in ("Success", "Unreachable"):
            ok += 1
            f = c.get("function")
            if f and "/repo/" in (c.get("location", {}).get("file") or ""):
                functions[f] = functions.get(f, 0) + 1
        else:
            open_.append(what)
    s = stats.get(h, {})
    solver += s.get("runtime_decision_procedure_s") or 0
    symex += s.get("runtime_symex_s") or 0
    vccs += s.get("vccs_generated") or 0
    if failed:
        bad.append((h, failed))
    elif unwound or open_ or vac:
        undecided.append({"harness": h, "why": "unwinding bound" if unwound else ("not reached: %s" % vac[0] if vac else open_[0])})
    else:
        held.append({"harness": h, "checks": len(r["checks"]), "seconds": r["duration_ms"] / 1000, "solver_s": s.get("runtime_decision_procedure_s"), "vccs": s.get("vccs_generated")})
known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k.get("property") == PID and k.get("status") == "finding" and "harness" in k]


def is_known(v):
    return next((k for k in known if k["harness"] == v["harness"] and k["what"] == v["what"]), None)


violations = []
validated = 0
if bad:
    bins = replay_bins()
    for h, failed in bad:
        if any(not is_known(v) for v in violations):
            undecided.append({"harness": h, "why": "failed, not replayed: one violation is enough", "failed": failed[:5]})
            continue
        if time.time() - T0 > (840 if TIER == "quick" else 3400) - 60:
            undecided.append({"harness": h, "why": "failed, no time to replay"})
            continue
        hit = None
        for vals in counterexamples(h):
            x = replay(bins, h, vals)
            if x:
                hit = {"harness": h, "values": vals, "build": x[0], "what": x[1], "failed": failed[:5]}
                break
        if hit:
            validated += 1
            violations.append(hit)
        else:
            undecided.append({"harness": h, "why": "failed, not reproduced natively", "failed": failed[:5]})
fresh = []
for v in violations:
    k = is_known(v)
    if k:
        print("KNOWN-FINDING: property=%s %s" % (PID, k["describe"]))
    else:
        fresh.append(v)
rp = os.path.join(V, "evidence", PID + ".replay.json")
if fresh:
    json.dump(fresh, open(rp, "w"), indent=1)
elif os.path.exists(rp):
    os.remove(rp)
ev_path = os.path.join(V, "evidence", PID + ".json")
cov = {
    "states": checks,
    "transitions": vccs,
    "traces_validated_against_impl": validated,
    "samples": (held[:60] or undecided[:5] or [{"none": True}]),
    "explanation": "states: assertions and safety checks decided over every value of the harness's inputs; transitions: verification conditions generated by symbolic execution of the compiled code; traces_validated_against_impl: counterexamples replayed natively (none when everything holds)",
    "harnesses": len(hs), "harnesses_held": len(held), "harnesses_undecided": undecided,
    "checks_discharged": ok, "cover_points_reached": covers,
    "functions_encoded": sorted(functions), "solver_s": round(solver, 2), "symbolic_execution_s": round(symex, 2),
    "tools": {k: str(d["tools"].get(k)) for k in ("kani", "rustc", "cbmc")},
    "bounds": BOUNDS[PID], "violations": fresh,
}
old = None
if os.environ.get("MERGE") and os.path.exists(ev_path):
    # the other half of this property's check wrote its evidence before
    old = json.load(open(ev_path))
    c = old["coverage"]
    cov = dict(c, kani=cov, states=c.get("states", 0) + cov["states"], transitions=c.get("transitions", 0) + cov["transitions"], traces_validated_against_impl=c.get("traces_validated_against_impl", 0) + validated, samples=c.get("samples", []) + cov["samples"][:20])
ev = {"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - T0 + (old or {}).get("wall_s", 0), 2)}
json.dump(ev, open(ev_path, "w"), indent=1)
print("%s: %d harnesses, %d held, %d undecided, %d violated; %d checks, solver %.1f s, wall %.1f s" % (PID, len(hs), len(held), len(undecided), len(violations), checks, solver, time.time() - T0))
for u in undecided:
    print("undecided: %s: %s %s" % (u["harness"], u["why"], u.get("failed", "")))
for v in fresh:
    print("%s fails natively (%s build): %s" % (v["harness"], v["build"], v["what"]))
if fresh:
    print("VIOLATION property=%s replay=%s" % (PID, rp))
    sys.exit(1)
if not held or len(undecided) * 5 > len(hs) * 4:
    sys.exit(2)
