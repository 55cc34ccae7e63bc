#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current tree:
 1. expands the crate, extracts its functions under their contracts
    (/verif/extract, /verif/contracts) and lets Verus discharge every obligation;
 2. runs the concrete harness (/verif/harness) on the real crate, to back the
    trusted base and to look for a failing input when an obligation fails.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TYPETAG_REPO", "/repo")
BUILD = os.path.join(V, ".build")
T0 = time.time()
BUDGET = 840.0


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="", NO_COLOR="1")
    e.pop("CARGO_BUILD_TARGET", None)
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=600, **kw):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        # cargo's and verus' own children, too
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return 124, o.decode("utf8", "replace"), "not done after %d s\n" % timeout


def left():
    return BUDGET - (time.time() - T0)


# ------------------------------------------------------------------ proof

ATTR = ["attr::TraitArgs::parse", "attr::ImplArgs::parse", "attr::type_name", "attr::has_supertrait"]

def serde_dir():
    c = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/serde_core-*/src")))
    want = None
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        m = re.search(r'name = "serde_core"\nversion = "([^"]+)"', open(lock).read())
        want = m and m[1]
    for d in c:
        if want and f"serde_core-{want}/" in d:
            return d
    return c[-1]


def build_extractor():
    rc, o, e = run(["cargo", "build", "-q", "--offline"], cwd=os.path.join(V, "extract"),
                   CARGO_TARGET_DIR=os.path.join(BUILD, "extract"))
    if rc:
        raise SystemExit("extractor does not build:\n" + e)
    return os.path.join(BUILD, "extract", "debug", "extract")


class Proof:
    def __init__(self):
        self.state = "none"          # ok | unread | nobuild
        self.functions = {}
        self.errors = []             # (function id or None, kind, text)
        self.left_out = set()
        self.unsettled = []
        self.text = ""
        self.verified = 0
        self.smt_ms = 0
        self.verus_ms = 0
        self.version = ""
        self.missing = []
        self.blank = []              # trait implementations whose behaviour no contract states
        self.map = {}
        self.probe_ok = None
        self.fixture = None          # why the generated code could not be read
        self.fixture_nobuild = None


REFUTED = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
           "possible arithmetic", "possible division", "recommendation not met", "unreachable", "could not prove", "decreases not satisfied",
           "loop ensures not satisfied", "unable to prove", "not satisfied")


def verus(out, extra=()):
    cmd = ["verus", out, "--num-threads", "8", "--multiple-errors", "2", "--output-json", "--time-expanded", *extra]
    rc, o, e = run(cmd, cwd=os.path.dirname(out), timeout=max(60, left()))
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = {}
    return rc, j, e


def parse_errors(text, name):
    """[(message, line)] for every error block."""
    out = []
    for b in re.split(r"\n(?=error|warning|note: )", "\n" + text):
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n", 1)[0]
        lines = [int(x) for x in re.findall(r"(?:-->|:::) \S*%s:(\d+)" % re.escape(name), b)]
        # lines quoted in the block as well
        lines += [int(x) for x in re.findall(r"^\s*(\d+) [|]", b, re.M)]
        if "aborting due to" in head or (not lines and "could not compile" in head):
            continue
        out.append((head, lines, b))
    return out


def prove(workdir, spec, probe=False):
    """gen: with the code the attributes generate for /verif/fixture, too;
    attr: with the parser of the attributes' arguments."""
    gen, attr, append = spec.get("gen", False), spec.get("attr", False), spec.get("append")
    Q, lost = None, []
    for g, a in dict.fromkeys([(gen, attr), (gen, False), (False, attr), (False, False)]):
        Q = prove_with(workdir, probe, g, a, append)
        if Q.state != "unread":
            break
        lost.append(Q.text)
    if Q.state == "ok" and lost:
        Q.unsettled += lost
        if gen and not g or attr and not a:
            Q.fixture = Q.fixture or lost[0][-3000:] or "?"
    return Q


def prove_with(workdir, probe, gen, attr, append=None):
    P = Proof()
    os.makedirs(workdir, exist_ok=True)
    ex = build_extractor()
    exp = os.path.join(workdir, "expanded.rs")
    rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "-p", "typetag", "--", "-Zunpretty=expanded"], cwd=REPO,
                   RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "expand"))
    if rc or not o.strip():
        P.state, P.text = "nobuild", e
        return P
    open(exp, "w").write(o)
    more = []
    if gen:
        fx = os.path.join(workdir, "fixture.rs")
        rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=os.path.join(V, "fixture"), timeout=240,
                       RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "expand"))
        if rc or not o.strip():
            P.fixture = P.fixture_nobuild = e[-6000:] or "?"
        else:
            open(fx, "w").write(o)
            more = ["--fixture", fx, "--gen-contracts", os.path.join(V, "gen", "gen.vc")]
    rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "-p", "serde_core", "--", "-Zunpretty=expanded"], cwd=REPO,
                   RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "expand"))
    if not rc and o.strip():
        sx = os.path.join(workdir, "serde.rs")
        open(sx, "w").write(o)
        more += ["--serde-expanded", sx]
    out = os.path.join(workdir, "typetag.rs")
    mp = os.path.join(workdir, "map.json")
    if append:
        more += ["--append", append]
    if attr:
        more += ["--attr", os.path.join(REPO, "impl", "src")]
    known = json.load(open(os.path.join(V, "contracts", "functions.json"))) + ATTR
    more += ["--base", ";".join(known)]
    leave, trace = [], []
    for attempt in range(8):
        cmd = [ex, "--expanded", exp, "--serde", serde_dir(), "--contracts", os.path.join(V, "contracts"), "--out", out, "--map", mp, *more]
        if leave:
            cmd += ["--leave", ";".join(leave)]
        if probe:
            cmd.append("--probe")
        rc, o, e = run(cmd)
        if rc:
            P.state, P.text = "unread", "extractor: " + e[-3000:]
            return P
        P.map = json.load(open(mp))
        P.functions = {f["id"]: f for f in P.map["functions"]}
        P.blank, P.text_at = P.map["missing_spec"], out
        rc, j, e = verus(out)
        res = j.get("verification-results", {})
        if res and not res.get("encountered-vir-error") and "verified" in res and not (rc and not res.get("errors") and not res.get("success")):
            break
        # the verifier does not read something: leave those functions out
        new = set()
        for head, lines, b in parse_errors(e, "typetag.rs"):
            f = owner(P, lines)
            if f:
                new.add(f)
        trace.append(e[-4000:])
        new -= set(leave)
        if not new:
            P.state, P.text = "unread", "\n".join(trace)[-8000:]
            return P
        leave += sorted(new)
    else:
        P.state, P.text = "unread", "\n".join(trace)[-8000:]
        return P
    P.left_out = set(leave)
    P.unsettled += trace
    if not probe and res.get("errors"):
        # once more, with more room, so that a slow proof is not taken for a failed one
        rc2, j2, e2 = verus(out, ["--rlimit", "40"])
        if j2.get("verification-results", {}).get("errors", 10**9) <= res["errors"]:
            rc, j, e, res = rc2, j2, e2, j2["verification-results"]
    P.state = "ok"
    P.verified = res["verified"]
    P.text = e
    t = j.get("times-ms", {})
    P.smt_ms = t.get("smt", {}).get("total", 0)
    P.verus_ms = t.get("total", 0)
    P.version = j.get("verus", {}).get("version", "")
    for head, lines, b in parse_errors(e, "typetag.rs"):
        f = owner(P, lines)
        kind = "refuted" if any(k in head for k in REFUTED) else "gave up"
        P.errors.append((f, kind, b))
    base = json.load(open(os.path.join(V, "contracts", "functions.json")))
    if "--fixture" in more:
        base = base + json.load(open(os.path.join(V, "gen", "functions.json")))
    if attr:
        base = base + ATTR
    P.missing = [i for i in base if i not in P.functions]
    return P


def owner(P, lines):
    for l in lines:
        for f in P.functions.values():
            if f["start"] <= l <= f["end"]:
                return f["id"]
    return None


def lean(P):
    """Functions whose own proof cannot be decided by the contracts as written:
    an unknown loop or closure, or a call to a function without contract."""
    bare = {}
    for f in P.functions.values():
        if f["contract"] == "none" and " as " not in f["id"] and not f["trusted"]:
            bare[f["id"].split("::")[-1]] = f["id"]
    und = {}
    base = set(json.load(open(os.path.join(V, "contracts", "functions.json"))) + ATTR)
    # a type that implements a trait under contract, but whose behaviour no contract
    # states: nothing that handles it is decided
    blank = {}
    if P.blank:
        text = open(P.text_at).read().split("\n")
        for k in P.blank:
            ty, tr = k.split(" as ")[0], k.split(" as ")[-1]
            blank[k] = (ty + " as ", re.compile(r"\b%s\b" % re.escape(ty.split("::")[-1])), f"nothing states what {ty} does as {tr}")
    for f in P.functions.values():
        why = [n for n in f["notes"] if "has no" in n]
        for own, named, what in blank.values():
            if f["id"].startswith(own) or any(named.search(l) for l in text[f["start"] - 1:f["end"]]):
                why.append(what)
        if f["contract"] == "none" and f["id"] not in base and not f["id"].startswith("fx_"):
            why.append("a new function, without contract")
        c = [bare[c] for c in f["calls"] if c in bare]
        if c:
            why.append("calls functions without contract: " + ", ".join(c))
        if why:
            und[f["id"]] = "; ".join(why)
    return und


# ------------------------------------------------------------------ harness

def build_harness():
    return run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness"), timeout=240,
               RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "harness"))


def harness(prop, tier, seed, timeout):
    exe = os.path.join(BUILD, "harness", "debug", "harness")
    rc, o, e = run([exe, prop, tier, str(seed)], timeout=timeout)
    try:
        return json.loads(o)
    except ValueError:
        last = os.path.join(BUILD, "last-%s" % prop)
        if rc != 124:  # the process died: once more, noting each case before it runs
            run([exe, prop, tier, str(seed)], timeout=timeout, VERIF_TRACE=last)
            if os.path.exists(last):
                e = open(last, errors="replace").read() + "\n    the process dies on it: " + e[-800:]
                os.remove(last)
        return {"crash": f"harness ended with {rc}", "stderr": e[-2000:], "evaluations": 0, "distinct": 0, "samples": [],
                "known": [], "violations": [] if rc == 124 else [f"harness ended with status {rc}: {e[-1500:]}"]}


def build_macros():
    """The attribute macros as an ordinary program (tools/mkmacro.py)."""
    d = os.path.join(BUILD, "macro")
    rc, o, e = run([sys.executable, os.path.join(V, "tools", "mkmacro.py"), os.path.join(REPO, "impl"), d])
    if rc == 0:
        rc, o, e = run(["cargo", "build", "--offline", "-q"], cwd=d, timeout=400, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "macrot"))
    return rc, e


def macros(tier, seed, timeout):
    rc, o, e = run([os.path.join(BUILD, "macrot", "debug", "macrocheck"), tier, str(seed)], timeout=timeout)
    try:
        return json.loads(o)
    except ValueError:
        return {"evaluations": 0, "distinct": 0, "samples": [], "known": [], "violations": [], "note": f"macrocheck ended with {rc}: {e[-1500:]}"}


# ------------------------------------------------------------------ verdict

def cone(P, spec):
    ids, empty = [], []
    for pat in spec["functions"]:
        r = re.compile(pat + r"\Z")
        m = [i for i in P.functions if r.match(i)]
        if not m:
            empty.append(pat)
        ids += [i for i in m if i not in ids]
    return ids, empty


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    cones = json.load(open(os.path.join(V, "contracts", "cones.json")))
    spec = cones["properties"][prop]
    work = os.path.join(BUILD, "work-" + prop)
    H = {}

    def side():
        rc, o, e = build_harness()
        if rc:
            H["nobuild"] = e
            return
        H["first"] = harness(prop, tier, seed, 700 if tier == "thorough" else 300)

    def side_macros():
        rc, e = build_macros()
        H["macros"] = macros(tier, seed, 600) if rc == 0 else {"evaluations": 0, "distinct": 0, "samples": [], "known": [], "violations": [], "note": "does not build: " + e[-1500:]}

    ths = [threading.Thread(target=side)] + ([threading.Thread(target=side_macros)] if spec.get("macros") else [])
    for th in ths:
        th.start()
    P = prove(work, spec)
    for th in ths:
        th.join()
    if P.state == "nobuild":
        print("the crate does not build:\n" + P.text[-2000:])
        sys.exit(2)

    known_file = os.path.join(V, "known_findings.txt")
    known = {}
    for l in open(known_file):
        m = re.match(r"known: id=(\S+) property=(\S+) (.*)", l)
        if m:
            known.setdefault(m[2], {})[m[1]] = m[3].strip()

    viol = None                      # (text, concrete?)
    undecided = []
    failed = []
    discharged = 0
    ids = []
    first = H.get("first")
    found = (first or {}).get("violations", []) + H.get("macros", {}).get("violations", [])

    if P.state == "ok":
        ids, empty = cone(P, spec)
        und = lean(P)
        for e_ in empty:
            undecided.append((e_, "no function matches"))
        for i in P.missing:
            if any(re.match(p + r"\Z", i) for p in spec["functions"]):
                undecided.append((i, "function is gone"))
        if P.fixture:
            undecided.append(("(generated code)", P.fixture))
        bad = {}
        for f, kind, b in P.errors:
            bad.setdefault(f, []).append((kind, b))
        if None in bad:
            for kind, b in bad[None]:
                undecided.append(("(lemma)", b))
        for i in ids:
            f = P.functions[i]
            if i in P.left_out:
                undecided.append((i, "the verifier does not read it"))
            elif f["trusted"]:
                if i not in spec.get("trusted", []):
                    undecided.append((i, "trusted"))
            elif i in bad:
                if i in und:
                    undecided.append((i, und[i]))
                elif all(k == "gave up" for k, _ in bad[i]):
                    undecided.append((i, bad[i][0][1]))
                else:
                    failed.append((i, "\n".join(b for _, b in bad[i])))
            else:
                discharged += 1
    else:
        undecided.append(("(all)", P.text[-1500:]))

    extra_runs = []
    if not found and first and (failed or undecided):
        # look harder for a failing input
        for s in range(1, 40):
            room = left() - 60
            if room < 30 or (time.time() - T0) > (420 if tier == "quick" else 700):
                break
            r = harness(prop, "thorough" if s == 1 else "quick", seed * 1000 + s, min(room, 240))
            extra_runs.append(r)
            found = r.get("violations", [])
            if not found and spec.get("macros") and not H["macros"].get("note"):
                r = macros("thorough" if s == 1 else "quick", seed * 1000 + s, min(left() - 60, 240))
                extra_runs.append(r)
                found = r.get("violations", [])
            if found:
                break

    rep = os.path.join(ev, "replay-%s.txt" % prop)
    if os.path.exists(rep):
        os.remove(rep)
    lines = []
    if found:
        viol = True
        lines.append(f"property {prop}: failing input on the real code (harness/ run against {REPO}):\n")
        lines += [v + "\n" for v in found]
        lines.append(f"reproduce: VERIF_SEED={seed} python3 {V}/check.py {prop} {tier}\n")
        for i, t in failed:
            lines.append(f"failed obligation in {i}:\n{t}\n")
        for i, t in undecided:
            lines.append(f"obligation not discharged (could not be decided) in {i}: {str(t)[:1500]}\n")
    elif failed:
        viol = False
        lines.append(f"property {prop}: obligations the verifier does not discharge; no failing input was found\n")
        for i, t in failed:
            lines.append(f"failed obligation in {i}:\n{t}\n")
    elif "nobuild" in H or (P.fixture_nobuild and prop == "C17"):
        if prop == "C17" or undecided:
            viol = True if prop == "C17" else None
            H.setdefault("nobuild", P.fixture_nobuild)
            lines.append(f"property {prop}: the crate builds, but code that uses its attributes as documented no longer compiles:\n")
            lines.append(H["nobuild"][-6000:])
    if lines:
        open(rep, "w").write("\n".join(lines))

    # a crash of the harness with nothing else wrong is an error of the check
    if viol is None and first and first.get("crash") and not found:
        print("harness gave no answer: " + first["crash"])
        if undecided:
            sys.exit(2)

    proof_holds = P.state == "ok" and not failed and not undecided
    vac = None
    if tier == "thorough" and proof_holds:
        Q = prove(work + "-probe", spec, probe=True)
        hit = {f for f, _, _ in Q.errors}
        vac = [i for i in ids if i not in hit and not Q.functions[i]["trusted"]]
        if vac:
            print("contradictory assumptions in: " + ", ".join(vac))
            sys.exit(2)

    runs = ([first] if first else []) + ([H["macros"]] if "macros" in H else []) + extra_runs
    evals = sum(r.get("evaluations", 0) for r in runs)
    dist = sum(r.get("distinct", 0) for r in runs)
    cov = {
        "obligations": len(ids),
        "discharged": discharged,
        "checker_cmd": "verus .build/work-%s/typetag.rs --num-threads 8 (after extract --expanded ... --contracts contracts)" % prop,
        "trusted_base": cones["trusted_base"] + spec.get("trusted_base", []),
        "functions_under_contract": ids,
        "obligation_unit": "one function body against its contract (all pre/postconditions, loop invariants, overflow checks); Verus 'verified' counts the whole file",
        "verus_units_verified_in_file": P.verified,
        "back_end": "Verus %s, Z3" % P.version,
        "solver_ms": P.smt_ms,
        "verifier_ms": P.verus_ms,
        "trusted_functions": [i for i in ids if P.functions[i]["trusted"]] if P.state == "ok" else [],
        "undecided": [f"{a}: {str(b)[:300]}" for a, b in undecided],
        "failed": [a for a, _ in failed],
        "extraction_notes": P.map.get("notes", []),
        "evaluations": evals,
        "distinct_nontrivial": dist,
        "rule": "bounded cross-check of the same property on the real crate (never counted as proved): " + spec.get("rule", "cases enumerated and drawn as described in DESIGN.md; distinct by their written form"),
        "bounded_check_notes": [r["note"] for r in runs if r.get("note")],
        "samples": [s for r in runs for s in r.get("samples", [])][:5],
    }
    if spec.get("theorems"):
        cov["theorems_over_the_contracts"] = spec["theorems"]
    if vac is not None:
        cov["vacuity_probe"] = "assert(false) refused at the start of each of %d bodies" % len(ids)
    if "nobuild" in H:
        cov["harness"] = "does not compile against this tree"
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "proof" if proof_holds or failed else "exploration",
        "coverage": cov,
        "assumptions": cones["assumptions"] + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": (len(found) or len(failed) or 1) if viol is not None else 0,
    }
    if evidence["level"] == "exploration":
        cov["explanation"] = "not proved on this tree: " + "; ".join(cov["undecided"])[:2000]
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if viol is not None:
        print(f"VIOLATION property={prop} replay={rep}" + ("" if viol else " no-failing-input-found"))
        sys.exit(1)
    seen = {k for r in runs for k in r.get("known", [])}
    for k, what in known.get(prop, {}).items():
        if not first or k in seen or k.startswith("P"):
            print(f"KNOWN-FINDING: property={prop} {what}")
    if proof_holds:
        print(f"{prop}: {discharged} functions discharged by Verus ({P.verified} units in the file), {evals} concrete cases agree")
    else:
        print(f"{prop}: not decided by proof on this tree ({'; '.join(a for a, _ in undecided)[:300]}); bounded check of {evals} cases passes")
    sys.exit(0)


if __name__ == "__main__":
    main()
