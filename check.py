#!/usr/bin/env python3
"""Decides one property of libyaml-safer on /repo's current sources.

usage: check.py PROPERTY [quick|thorough]

1. deductive: vx splices the contracts into the real sources, Verus discharges
   every obligation.  An obligation of this property that fails is a violation.
2. bounded: the real crate is run on generated cases against the executable
   form of the property; a failing case is a violation with its input.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CON = os.path.join(VERIF, "contracts")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
CONFIG = json.load(open(os.path.join(VERIF, "config.json")))
LEVEL = CONFIG["levels"].get(PROP, "exploration")
SECS = {"quick": 12, "thorough": 240}[TIER]
DEEP = {"quick": 90, "thorough": 300}[TIER]
RLIMIT = {"quick": "30", "thorough": "100"}[TIER]


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"
    return p.returncode, o, r


def build(name, profile=()):
    code, o, e = run(["cargo", "build", "--offline", "-q", *profile], cwd=os.path.join(VERIF, name), env={"CARGO_TARGET_DIR": os.path.join(BUILD, name)})
    if code != 0:
        log(f"check: building {name} failed\n{o}\n{e}")
        sys.exit(2)


# ---------------------------------------------------------------- deductive

def read_map(path):
    m = {"fn": {}, "shape": {}, "rewrite": [], "lost": [], "other": [], "fields": {}}
    for l in open(path):
        w = l.split()
        if w[0] == "fn":
            m["fn"][w[1]] = dict(x.split("=", 1) for x in w[2:])
        elif w[0] == "shape":
            d = dict(x.split("=", 1) for x in w[2:])
            m["shape"][w[1]] = (d["loops"], set(c for c in d["calls"].split(",") if c))
        elif w[0] == "fields":
            m["fields"][w[1]] = w[2] if len(w) > 2 else ""
        elif w[0] == "rewrite":
            m["rewrite"].append(" ".join(w[1:]))
        elif w[0].startswith("lost"):
            m["lost"].append((w[0], w[1], " ".join(w[2:])))
        else:
            m["other"].append(l.strip())
    return m


class Deductive:
    """The result of the contract run: what was proved, what failed, what could
    not be decided."""

    def __init__(self):
        self.failed = []        # (function, kind, tags, text)
        self.undecided = {}     # function -> reason
        self.results = {}       # function -> (success, ms, mode)
        self.tags = {}          # function -> tags of its clauses
        self.clauses = 0
        self.map = None
        self.broken = None
        self.cmd = ""
        self.solver_ms = 0
        self.vacuous = []
        self.probed = 0
        self.assumed = []


def locate(lines, n):
    """The function that line n (1-based) of a generated file belongs to."""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.findall(r"/\*@fn ([^*]*?)\s*\*/", lines[i])
        if m:
            return m[-1]
    return None


def clause(lines, n):
    if 0 < n <= len(lines):
        m = re.search(r"//@([^|\s]+)\|([^|]*)\|(\S+)", lines[n - 1])
        if m:
            return m.group(1), m.group(2), m.group(3)
    return None


def verus(out, extra=(), timeout=600):
    cmd = ["verus", "--crate-type=lib", "--edition=2021", "lib.rs", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", RLIMIT, *extra]
    code, o, e = run(cmd, cwd=out, timeout=timeout)
    if code is None:
        return None, [], "timeout", " ".join(cmd)
    js = None
    i = o.find("{")
    if i >= 0:
        try:
            js, _ = json.JSONDecoder().raw_decode(o[i:])
        except ValueError:
            js = None
    diags = []
    for l in e.splitlines() + o.splitlines():
        if l.startswith('{"$message_type"'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level", "").startswith("error"):
                diags.append(d)
    return js, diags, e, " ".join(cmd)


def breakdown(js):
    r = {}
    for m in (js or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"]
            n = n[5:] if n.startswith("lib::") else n
            r[n] = (f["success"], f.get("time-micros", f.get("time", 0) * 1000), f.get("mode:", ""))
    return r


OWN = re.compile(r"arithmetic|overflow|underflow|bounds|unwrap|unreachable|divis|shift|precondition not satisfied|assertion failed|decreases")


def deductive(vx, work):
    d = Deductive()
    base = read_map(os.path.join(CON, "baseline.map"))
    external = [l.strip() for l in open(os.path.join(CON, "external.txt")) if l.strip() and not l.startswith("#")]
    extra = {}
    src = os.path.join(REPO, "src")
    out = os.path.join(work, "w")
    for attempt in range(8):
        shutil.rmtree(out, ignore_errors=True)
        cmd = [vx, src, CON, out]
        for f in external + sorted(extra):
            cmd += ["--external", f]
        code, o, e = run(cmd)
        if code != 0:
            d.broken = f"vx: {e.strip()[-600:]}"
            return d
        m = read_map(os.path.join(out, "map.txt"))
        d.map = m
        new = False
        for kind, f, what in m["lost"]:
            if f in m["fn"] and f not in extra and f not in external:
                extra[f] = f"{kind}: {what}"
                new = True
        for f, (loops, calls) in m["shape"].items():
            if f in base["shape"] and base["shape"][f][0] != loops and m["fn"][f]["contract"] == "yes" and f not in extra and f not in external:
                if "loop-contracts" in m["fn"][f] and (m["fn"][f]["loop-contracts"] != "0" or loops != "-"):
                    extra[f] = f"its loops are {loops}, were {base['shape'][f][0]}"
                    new = True
        if new:
            continue
        files = {n: open(os.path.join(out, n), errors="replace").read().splitlines() for n in os.listdir(out) if n.endswith(".rs")}
        js, diags, err, d.cmd = verus(out)
        if js is None and err == "timeout":
            d.broken = "the verifier did not end in time"
            return d
        vr = (js or {}).get("verification-results", {})
        res = breakdown(js)
        verified_any = bool(res) and not vr.get("encountered-vir-error", False)
        new_fns = set(m["fn"]) - set(base["fn"])
        new_names = {f.rsplit("::", 1)[-1] for f in new_fns}
        compile_errors = []
        failures = []
        for g in diags:
            msg = g["message"]
            spans = [(s["file_name"].rsplit("/", 1)[-1], s["line_start"], s["is_primary"], s.get("label") or "") for s in g["spans"]]
            for c in g.get("children", []):
                spans += [(s["file_name"].rsplit("/", 1)[-1], s["line_start"], False, s.get("label") or "") for s in c["spans"]]
            spans = sorted((s for s in spans if s[0] in files), key=lambda s: not s[2])
            if msg.startswith("aborting due to"):
                continue
            is_vc = verified_any and re.search(r"not satisfied|assertion failed|possible arithmetic|overflow|underflow|possible division|possible bit shift|invariant|decreases|cannot show|unreachable|possible", msg) and g.get("code") is None
            if is_vc or (verified_any and "Resource limit" in msg) or (verified_any and "rlimit" in msg):
                f, tags, hits = None, set(), []
                for fn_, ln, prim, label in spans:
                    c = clause(files[fn_], ln)
                    if c:
                        hits.append(c)
                # The body is where the failing point lies: the span whose function has failed.
                for fn_, ln, prim, label in spans:
                    w = locate(files[fn_], ln)
                    if w and res.get(w, (True,))[0] is False:
                        f = w
                        break
                if f is None:
                    for fn_, ln, prim, label in spans:
                        f = f or locate(files[fn_], ln)
                for c in hits:
                    if c[2] != "*":
                        tags |= set(c[2].split(","))
                failures.append((f, msg, tags, g.get("rendered") or msg))
            else:
                fs = [locate(files[s[0]], s[1]) for s in sorted(spans, key=lambda s: not s[2])]
                fs = [f for f in fs if f]
                compile_errors.append((fs[0] if fs else None, msg))
        if compile_errors and not verified_any:
            grew = False
            for f, msg in compile_errors:
                if f and f not in extra and f not in external:
                    extra[f] = "outside the verifier's language: " + msg[:200]
                    grew = True
            if not grew:
                d.broken = "the annotated sources do not compile: " + "; ".join(x[1][:200] for x in compile_errors[:4])
                return d
            continue
        if not verified_any:
            d.broken = "no result from the verifier: " + (err or "")[-400:]
            return d
        # Undecided functions: run again without them.
        grew = False
        for f, msg, tags, text in failures:
            why = None
            if f is None:
                continue
            if "esource limit" in msg or "rlimit" in msg:
                why = "the verifier ran out of its resource limit"
            elif f in new_fns:
                why = "new function without a contract"
            elif f in m["shape"] and f in base["shape"]:
                if m["shape"][f][1] & new_names:
                    why = "calls a new function without a contract: " + ", ".join(sorted(m["shape"][f][1] & new_names))
                elif m["shape"][f][0] != base["shape"][f][0]:
                    why = f"its loops are {m['shape'][f][0]}, were {base['shape'][f][0]}"
            if why and f not in extra and f not in external:
                extra[f] = why
                grew = True
        if grew:
            continue
        d.results = res
        d.failed = [x for x in failures if x[0] is not None]
        for f, (ok, _, mode) in res.items():
            if not ok and not any(x[0] == f for x in failures):
                d.failed.append((f, "the verifier reports no detail", set(), ""))
        unplaced = [x for x in failures if x[0] is None]
        if unplaced:
            d.broken = "failed obligations outside every function: " + "; ".join(x[1] for x in unplaced[:3])
        break
    else:
        d.broken = "no stable set of verifiable functions"
    d.undecided = dict(extra)
    # A contract that lists the fields of a type says nothing about new ones.
    for f, types in CONFIG["field_lists"].get(PROP, {}).items():
        for t in types:
            if m["fields"].get(t) != base["fields"].get(t) and f in m["fn"]:
                d.undecided[f] = f"the fields of {t} have changed"
    for f in external:
        d.undecided.setdefault(f, None)
    d.solver_ms = sum(t for _, t, _ in d.results.values()) / 1000.0
    # tags
    for n in os.listdir(out):
        if not n.endswith(".rs"):
            continue
        for l in open(os.path.join(out, n), errors="replace"):
            c = re.search(r"//@([^|\s]+)\|([^|]*)\|(\S+)", l)
            if c:
                d.clauses += 1
                if c.group(3) != "*":
                    d.tags.setdefault(c.group(1), []).extend(c.group(3).split(","))
            if re.search(r"external_body|assume_specification|\badmit\(|\bassume\(|external_type_specification|external_fn_specification|broadcast proof fn axiom|uninterp", l) and not l.strip().startswith("//"):
                d.assumed.append(f"{n}: {l.strip()[:110]}")
    # vacuity: with `assert(false)` at its start every function under contract must fail.
    if not d.broken:
        probe = os.path.join(work, "p")
        cmd = [vx, src, CON, probe, "--probe"]
        for f in external + sorted(extra):
            cmd += ["--external", f]
        code, o, e = run(cmd)
        js, diags, err, _ = verus(probe, ["--multiple-errors", "0"])
        res = breakdown(js)
        if code == 0 and res:
            for f, x in d.map["fn"].items():
                if x["contract"] == "yes" and x["external"] == "false" and f in res:
                    d.probed += 1
                    if res[f][0] and f not in CONFIG.get("unreachable", []):
                        d.vacuous.append(f)
    return d


def props_of(d, f, msg, tags):
    p = set(tags)
    if not p:
        p |= set(d.tags.get(f, []))
        if OWN.search(msg) or not p:
            p.add("C01")
    return p


# ------------------------------------------------------------------ bounded

def search(exe, secs, seed, out):
    stats = out + ".stats"
    for p in (out, stats):
        if os.path.exists(p):
            os.unlink(p)
    code, o, e = run([exe, "search", PROP, "--seed", str(seed), "--secs", str(secs), "--out", out, "--stats", stats], timeout=secs + 120)
    if code == 1 and os.path.exists(out):
        # A violation counts when it happens again.
        c2, o2, _ = run([exe, "replay", out], timeout=90)
        if c2 == 1:
            return out, o2, {}
        log(f"check: not reproduced: {o.strip()[-300:]}")
        return None, None, {"evaluations": 1, "distinct_nontrivial": 1, "samples": ["(not reproduced)"]}
    st = json.load(open(stats)) if os.path.exists(stats) else None
    if code != 0 or st is None:
        # The process died (stack overflow, abort): once more, then it counts.
        code2, o2, e2 = run([exe, "search", PROP, "--seed", str(seed), "--secs", str(secs), "--out", out, "--stats", stats], timeout=secs + 120)
        if code2 == 0 and os.path.exists(stats):
            return None, None, json.load(open(stats))
        with open(out, "w") as f:
            f.write(f"property: {PROP}\nseed: {seed}\nthe run of the generated cases ended with status {code}, then {code2}\n{e[-2000:]}\n{e2[-2000:]}\n")
        return out, f"the process that runs the generated cases ended with status {code2}", {}
    return None, None, st


def known():
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        if l.startswith(f"KNOWN-FINDING: property={PROP} "):
            r.append(l.strip())
    return r


def main():
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vx-{PROP}-")
    try:
        return decide(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work):
    build("vx", ("--release",))
    box = {}

    def job():
        try:
            box["d"] = deductive(os.path.join(BUILD, "vx", "release", "vx"), work)
        except Exception as e:  # undecided, never an alarm
            d = Deductive()
            d.broken = f"internal: {type(e).__name__}: {e}"
            box["d"] = d

    t = threading.Thread(target=job)
    t.start()
    build("replay", ("--release",))
    exe = os.path.join(BUILD, "replay", "release", "replay")
    rdir = os.path.join(BUILD, "violations")
    os.makedirs(rdir, exist_ok=True)
    vfile = os.path.join(rdir, f"{PROP}.txt")
    found, message, stats = search(exe, SECS, SEED, vfile)
    t.join()
    d = box["d"]
    mine = [x for x in d.failed if PROP in props_of(d, x[0], x[1], x[2])]
    violation = None
    if found:
        violation = f"VIOLATION property={PROP} replay={found}"
        log(message.strip()[:3000])
        if mine:
            with open(found, "a") as f:
                for fn_, msg, tags, text in mine:
                    f.write(f"failed obligation: {fn_}: {msg}\n{text}\n")
    elif mine:
        log(f"failed obligations of {PROP}: " + "; ".join(sorted({f'{x[0]}: {x[1]}' for x in mine})))
        more = 0
        k = SEED + 1000
        end = time.time() + DEEP
        found, message, st2 = search(exe, DEEP, k, vfile)
        if found:
            log(message.strip()[:3000])
            violation = f"VIOLATION property={PROP} replay={found}"
            with open(found, "a") as f:
                for fn_, msg, tags, text in mine:
                    f.write(f"failed obligation: {fn_}: {msg}\n{text}\n")
        else:
            stats = {**stats, "evaluations": stats.get("evaluations", 0) + st2.get("evaluations", 0), "distinct_nontrivial": stats.get("distinct_nontrivial", 0) + st2.get("distinct_nontrivial", 0)}
            with open(vfile, "w") as f:
                f.write(f"property: {PROP}\nno failing input was found; obligations that the verifier no longer discharges:\n")
                for fn_, msg, tags, text in mine:
                    f.write(f"\nfailed obligation: {fn_}: {msg}\n{text}\n")
                f.write(f"\nverifier: {d.cmd}\n")
            violation = f"VIOLATION property={PROP} replay={vfile} no-failing-input-found"
    evidence(d, mine, stats, violation)
    for k in known():
        log(k)
    if d.broken:
        log(f"{PROP}: contracts undecided on this tree ({d.broken}); bounded result only")
    for f, why in d.undecided.items():
        if why and (PROP in d.tags.get(f, []) or PROP == "C01"):
            log(f"{PROP}: {f} undecided on this tree ({why}); bounded result only")
    if violation:
        log(violation)
        return 1
    log(f"{PROP}: held; obligations {EV['obligations']} discharged {EV['discharged']}; bounded cases {stats.get('evaluations')} ({stats.get('distinct_nontrivial')} distinct and non-trivial)")
    return 0


EV = {}


def closure(d, roots):
    """The functions reachable from `roots` by name of callee."""
    by = {}
    for f in d.map["fn"]:
        by.setdefault(f.rsplit("::", 1)[-1], []).append(f)
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for c in d.map["shape"].get(f, ("", set()))[1]:
            todo += by.get(c, [])
    return seen


def evidence(d, mine, stats, violation):
    under, units, ok, ms, tagged, bounded = [], 0, 0, 0.0, 0, []
    if d.map and d.results:
        if PROP == "C01":
            roots = [f for f in d.map["fn"]]
        else:
            roots = [f for f, t in d.tags.items() if PROP in t]
        reach = closure(d, roots)
        badf = {x[0] for x in mine}
        for f, (s, t, mode) in d.results.items():
            if f in reach or (mode == "proof" and f.startswith("spec::")):
                units += 1
                ms += t / 1000.0
                ok += 1 if f not in badf else 0
                if f in reach and mode == "exec":
                    under.append(f)
        tagged = sum(t.count(PROP) for t in d.tags.values())
        scope = CONFIG["scope"].get(PROP, [])
        bounded = sorted(f for f in d.undecided if f in d.map["fn"] and (f in reach or any(f.startswith(s) for s in scope)))
    EV.update(obligations=units, discharged=ok)
    cov = {
        "obligations": units,
        "discharged": ok,
        "obligation_unit": "one verifier query per function or lemma: all its preconditions at calls, postconditions, invariants, arithmetic and bounds; functions this property's clauses are on and what they call, and the lemmas",
        "contract_clauses_of_this_property": tagged,
        "functions_proved": sorted(under),
        "functions_bounded_only": bounded,
        "undecided_this_run": {f: w for f, w in d.undecided.items() if w},
        "contracts_undecided_because": d.broken,
        "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": round(ms, 1),
        "checker_cmd": d.cmd,
        "vacuity": {"functions_probed_with_assert_false": d.probed, "vacuous": d.vacuous},
        "trusted_base": CONFIG["trusted"] + [f"rewrite {r}" for r in sorted(set(d.map["rewrite"]))] if d.map else CONFIG["trusted"],
        "assumption_scan": sorted(set(d.assumed)),
        "evaluations": stats.get("evaluations", 0),
        "distinct_nontrivial": stats.get("distinct_nontrivial", 0),
        "rule": CONFIG["rule"],
        "samples": stats.get("samples", []),
        "bounded_note": CONFIG["bounded"],
    }
    ev = {
        "property": PROP,
        "tier": TIER,
        "seed": SEED,
        "level": LEVEL,
        "coverage": cov,
        "assumptions": CONFIG["assumptions"] + CONFIG["notes"].get(PROP, []),
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{PROP}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
