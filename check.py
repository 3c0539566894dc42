#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. the functions under contract are extracted from /repo (tools/extract) into one Verus file,
2. Verus discharges every obligation of that file, function by function,
3. the replay crate, built against /repo, looks for a concrete failing input: briefly when every
   obligation of the property was discharged, at length when one was not, and as the bounded
   stand-in for the functions that are outside the verifier's reach.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
TEMPLATES = [l.strip() for l in open(f"{V}/contracts/ORDER") if l.strip()]
T0 = time.time()
BUDGET = float(os.environ.get("VX_BUDGET", "0"))

# properties whose remaining part is decided only by the bounded stand-in, and what that part is
CONF = json.load(open(f"{V}/contracts/properties.json"))


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True, errors="replace", **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def broken(msg):
    print(f"CHECK-ERROR: {msg}", file=sys.stderr)
    sys.exit(2)


def build(dirname, *flags):
    with open(f"{V}/.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        rc, o, e = sh(["cargo", "build", "--offline", "-q", *flags], cwd=f"{V}/{dirname}", env=env, timeout=600)
    return rc, e


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


# ------------------------------------------------------------------ proof
PROOF = re.compile(r"postcondition|precondition|assertion failed|assertion not satisfied|invariant|overflow|underflow|decreases|termination|"
                   r"loop ensures|division by zero|unreachable|constructed value|not satisfied|may fail", re.I)
SMT_MS = 100000  # no single query may hold up a run
RLIMIT = re.compile(r"resource limit|rlimit|canceled|timed out", re.I)


# known findings: a contract describes what the tree does; the flag is turned off when that is repaired
FLAGS = {"kf_order": ["<ComparisonExpr as TestFilter>::test_filter"],
         "kf_nested_eq": ["value_equal_to"],
         "kf_singular_negative": ["SingularQuery::eval_query"]}


def expand(work):
    """the macro-expanded source of /repo's registry and of the fixture's functions; -> None or what went wrong"""
    for pkg, out in (("serde_json_path", "exp.rs"), ("fixture", "fix.rs")):
        with open(f"{V}/.lock", "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_BOOTSTRAP="1")
            env.pop("RUSTFLAGS", None)
            rc, o, e = sh(["cargo", "rustc", "--offline", "-q", "-p", pkg, "--lib", "--", "-Zunpretty=expanded"],
                          cwd=f"{V}/tools/fixture", env=env, timeout=600)
        if rc != 0 or not o.strip():
            return f"{pkg} does not expand: " + e[-1000:]
        open(f"{work}/{out}", "w").write(o)
    EXPANDED[:] = [f"{work}/exp.rs", f"{work}/fix.rs"]
    return None


EXPANDED = []


def extract(work, assume, off):
    os.makedirs(f"{work}/contracts", exist_ok=True)
    for t in TEMPLATES:
        s = open(f"{V}/contracts/{t}").read()
        for f in off:
            s = s.replace(f"spec fn {f}() -> bool {{ true }}", f"spec fn {f}() -> bool {{ false }}")
        open(f"{work}/contracts/{t}", "w").write(s)
    args = [f"{V}/tools/extract/target/debug/extract", REPO, f"{work}/out.rs", f"{work}/out.json",
            *[f"{work}/contracts/{t}" for t in TEMPLATES]]
    for x in EXPANDED:
        args += ["--expanded", x]
    for k in assume:
        args += ["--assume", k]
    rc, o, e = sh(args, timeout=120)
    if rc != 0:
        return None, (e or o)[-2000:]
    return json.load(open(f"{work}/out.json")), ""


def run_verus(work, src, extra=(), timeout=400, rlimit="40"):
    cmd = ["verus", src, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "8",
           "--multiple-errors", "3", "--rlimit", rlimit, "--smt-option", f"timeout={SMT_MS}", *extra, "--", "--error-format=json"]
    rc, o, e = sh(cmd, timeout=timeout, cwd=work, preexec_fn=limit)
    try:
        out = json.loads(o)
    except Exception:
        out = None
    errs = []
    for line in e.splitlines():
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") != "error" or not d.get("spans"):
            continue
        prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        errs.append({"message": d["message"], "lines": [(s["line_start"], s["line_end"]) for s in prim if s["file_name"].endswith(os.path.basename(src))],
                     "all": [(s["line_start"], s["line_end"]) for s in d["spans"] if s["file_name"].endswith(os.path.basename(src))],
                     "rendered": d.get("rendered", "")[:1500]})
    return rc, out, errs, e


def region(fns, errs_lines):
    for a, b in errs_lines:
        for f in fns:
            if f["start"] <= a <= f["end"]:
                return f
    return None


def prove(work):
    p = prove1(work, [])
    off = [f for f, ks in FLAGS.items() if any(k in p["failed"] or k in p["undecided"] for k in ks)]
    if off and not p["template"]:
        for cand in [[f] for f in off] + ([off] if len(off) > 1 else []):
            q = prove1(work, cand)
            if not q["template"] and len(q["failed"]) + len(q["undecided"]) < len(p["failed"]) + len(p["undecided"]):
                q["repaired"] = cand
                p = q
        if not p.get("repaired"):
            p = prove1(work, [])
    return p


def module_of(L, line):
    """the module a line of the verified text is in (None: the root)"""
    cur = None
    for l in L[:line]:
        m = re.match(r"pub mod (\w+) \{", l)
        if m:
            cur = m.group(1)
        elif cur and re.match(r"\} // mod |(\} *)?pub use \w+::\*;", l) and cur in l:
            cur = None
    return cur


def again(work, res):
    """what failed or ran out of resources is put to the solver once more, by itself and with other random seeds:
    a proof found there is a proof"""
    open_ = set(res["failed"]) | {k for k, r in res["undecided"].items() if r == "resource limit"}
    if not open_ or len(open_) > 12 or res["template"]:
        return
    L = open(f"{work}/out.rs").read().split("\n")
    at = {}
    for f in res["fns"]:
        if f["key"] in open_:
            m = module_of(L, f["start"])
            if m is None:
                continue
            at.setdefault(m, set()).add(f["key"])
    t0 = time.time()
    for seed in (11, 23):
        for mod, ks in at.items():
            ks &= open_
            if not ks or time.time() - t0 > 150:
                continue
            rc, out, errs, raw = run_verus(work, f"{work}/out.rs", timeout=120,
                                           extra=("--verify-module", mod, "--smt-option", f"smt.random_seed={seed}"))
            vr = (out or {}).get("verification-results", {})
            if rc is None or out is None or vr.get("encountered-vir-error") or not vr.get("verified") or (vr.get("errors") and not errs):
                continue
            bad = set()
            for e in errs:
                f = region(res["fns"], e["lines"]) or region(res["fns"], e["all"])
                bad |= {f["key"]} if f else ks
            for k in ks - bad:
                open_.discard(k)
                res["failed"].pop(k, None)
                res["undecided"].pop(k, None)
                res.setdefault("again", []).append(k)


def prove1(work, off):
    """-> dict(fns, failed{key:[err]}, undecided{key:reason}, template_errors, verified, cmd, stats)"""
    assume, reasons = [], {}
    res = {"failed": {}, "undecided": {}, "template": [], "verified": 0, "errors": 0, "fns": [], "smt_ms": 0, "rounds": 0}
    for rnd in range(12):
        res["rounds"] = rnd + 1
        side, err = extract(work, assume, off)
        if side is None:
            res["template"].append("extraction: " + err)
            return res
        res["fns"] = side["fns"]
        res["problems"] = side["problems"]
        rc, out, errs, raw = run_verus(work, f"{work}/out.rs")
        if rc is None:
            res["template"].append("verifier ran out of time")
            return res
        vr = (out or {}).get("verification-results", {})
        res["smt_ms"] += (out or {}).get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        res["total_ms"] = (out or {}).get("times-ms", {}).get("total", 0)
        res["verus"] = (out or {}).get("verus", {})
        fatal = out is None or vr.get("encountered-vir-error") or "verified" not in vr or (rc != 0 and not vr.get("errors"))
        if not fatal:
            res["verified"], res["errors"] = vr["verified"], vr["errors"]
            for e in errs:
                f = region(side["fns"], e["lines"]) or region(side["fns"], e["all"])
                if f is None:
                    res["template"].append(e["rendered"])
                elif f["status"] != "verified" and f["status"] != "lemma":
                    res["template"].append(e["rendered"])
                elif RLIMIT.search(e["message"]):
                    res["undecided"].setdefault(f["key"], "resource limit")
                elif f.get("bare", 0) > 0:
                    res["undecided"].setdefault(f["key"], f"{f['bare']} loop(s) without an attached invariant")
                else:
                    res["failed"].setdefault(f["key"], []).append(e)
            for k in list(res["undecided"]):
                if k in res["failed"]:
                    del res["undecided"][k]
            if res["errors"] and not errs:
                res["template"].append(raw[-1500:])
            again(work, res)
            break
        keys = []
        for e in errs:
            f = region(side["fns"], e["lines"]) or region(side["fns"], e["all"])
            if f and f["status"] == "verified" and f["key"] not in assume and f["key"] not in keys:
                keys.append(f["key"])
                reasons[f["key"]] = e["message"][:200]
        if not keys:
            res["template"] += [e["rendered"] for e in errs][:5] or [raw[-1500:]]
            return res
        assume += keys
    for k in assume:
        res["undecided"][k] = "outside the verifier's subset: " + reasons[k]
    for f in res["fns"]:
        if f["status"] in ("absent", "assumed") and f["key"] not in res["undecided"]:
            res["undecided"][f["key"]] = f"{f['status']}: {f['reason']}"
    return res


def vacuity(work, fns, mine):
    """assert(false) at the entry of every function under contract must fail"""
    L = open(f"{work}/out.rs").read().split("\n")
    todo = {}
    for f in fns:
        if f["status"] in ("verified", "lemma") and f["key"] in mine:
            for n in range(f["start"], f["end"] + 1):
                if L[n - 1].strip() == "{":
                    todo[n] = f["key"]
                    break
    if not todo:
        return [], 0
    out = []
    for n, l in enumerate(L, 1):
        out.append(l)
        if n in todo:
            out[-1] = l + " assert(false);"
    open(f"{work}/vac.rs", "w").write("\n".join(out))
    rc, o, errs, raw = run_verus(work, f"{work}/vac.rs", timeout=400, rlimit="10")
    hit = set()
    for e in errs:
        for a, b in e["all"]:
            f = region(fns, [(a, b)])
            if f:
                hit.add(f["key"])
    if o is None:
        return [], 0
    return sorted(k for k in todo.values() if k not in hit), len(todo)


TRUST = re.compile(r"external_body|assume_specification|axiom\s+fn|\bassume\(|\badmit\(|external_fn_specification|#\[verifier::external")


def trusted(work):
    L = open(f"{work}/out.rs").read().split("\n")
    out = []
    for i, l in enumerate(L):
        m = TRUST.search(l)
        if not m or l.strip().startswith("//"):
            continue
        name = ""
        for k in range(i, min(i + 6, len(L))):
            n = re.search(r"(?:fn|struct|enum|assume_specification\s*(?:<[^>]*>)?\s*\[)\s*([\w:<>' ]+)", L[k])
            if n:
                name = n.group(1).strip()
                break
        out.append(f"{m.group(0).strip('#[( ')} {name}".strip())
    return sorted(set(out))


# ------------------------------------------------------------------ replay
def known(prop):
    out = []
    for l in open(f"{V}/known-findings.txt"):
        m = re.match(r"known: property=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def refute(work, prop, secs, procs, tier, seed):
    exe = f"{V}/replay/target/release/replay"
    ps = []
    for i in range(procs):
        out = f"{work}/r{i}.json"
        p = subprocess.Popen([exe, "run", prop, str(seed + i * 1000003), str(secs), tier, out], stdout=open(f"{work}/r{i}.log", "w"),
                             stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=limit, cwd=work)
        ps.append((i, p, out))
    end = time.time() + secs + 60
    stats, fail = [], None
    live = list(ps)
    while live and not fail:
        time.sleep(0.1)
        for t in list(live):
            i, p, out = t
            rc = p.poll()
            if rc is None:
                if time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                continue
            live.remove(t)
            for l in open(f"{work}/r{i}.log", errors="replace"):
                if l.startswith("STATS "):
                    stats.append(json.loads(l[6:]))
            if rc == 1 and os.path.exists(out):
                fail = json.load(open(out))
                break
            if rc != 0 and rc != -9:
                # died (stack overflow, abort): run it again, recording each input before it is used
                tr = f"{work}/trace{i}"
                env = dict(os.environ, REPLAY_TRACE=tr)
                rc2, o, e = sh([exe, "run", prop, str(seed + i * 1000003), str(secs * 3 + 30), tier, out], timeout=secs * 3 + 90, cwd=work, env=env, preexec_fn=limit)
                if rc2 == 1 and os.path.exists(out):
                    fail = json.load(open(out))
                elif rc2 not in (0, None) and os.path.exists(tr):
                    fail = {"property": prop, "case": json.load(open(tr)), "observed": f"the process died with status {rc2}"}
                if fail:
                    break
    for i, p, out in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    return fail, stats


def pair(key):
    if key.endswith("::query"):
        return key + "_located"
    if key.endswith("::query_located"):
        return key[:-8]
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CONF[prop]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/evidence/replays", exist_ok=True)
    base = f"{V}/.work"
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}.", dir=base)
    try:
        return run(prop, tier, seed, conf, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, conf, work):
    rc, err = build("tools/extract")
    if rc != 0:
        broken("the extractor does not build: " + err[-1500:])
    rc, err = build("replay", "--release")
    have_replay = rc == 0
    if not have_replay:
        # the public interface the replay crate uses is gone, or /repo does not compile
        print("note: the replay crate does not build against this tree: " + err[-800:], file=sys.stderr)
    if conf.get("expanded"):
        TEMPLATES.insert(TEMPLATES.index("gprops.vx"), "reg.vx")
        why = expand(work)
        if why:
            print("note: " + why, file=sys.stderr)
    p = prove(work)
    fns = p["fns"]
    hard, weak, mine = [], [], []
    for f in fns:
        props = f["props"]
        h, w = prop in props, "~" + prop in props
        if not (h or w):
            continue
        mine.append(f)
        if f["key"] in p["failed"]:
            other = pair(f["key"])
            if h or (prop in ("C05", "C06") and other and other not in p["failed"] and other not in p["undecided"]):
                hard.append(f["key"])
            else:
                weak.append(f["key"])
    und = {f["key"]: p["undecided"][f["key"]] for f in mine if f["key"] in p["undecided"]}
    inlined = sorted({x for f in mine for x in f.get("inlined", [])})
    proved = [f["key"] for f in mine if f["status"] in ("verified", "lemma") and f["key"] not in p["failed"] and f["key"] not in p["undecided"]]
    if p["template"]:
        proved = []
    vac, nvac = [], 0
    if not p["template"] and not p["failed"] and (tier == "thorough" or os.environ.get("VX_VACUITY")):
        vac, nvac = vacuity(work, fns, {f["key"] for f in mine})
        if vac:
            broken("vacuous: assert(false) was proved at the entry of " + ", ".join(vac))
    trust = trusted(work) if os.path.exists(f"{work}/out.rs") else []
    if not p["template"] and not p["failed"] and p["verified"] == 0:
        broken("the verifier reports no obligation")
    open_ = bool(hard or weak or und or p["template"] or p.get("problems"))
    q = conf.get("quick", 15), conf.get("quick_open", 120)
    t = conf.get("thorough", 240), conf.get("thorough_open", 420)
    secs = (t if tier == "thorough" else q)[1 if open_ else 0]
    if BUDGET:
        secs = BUDGET
    secs = max(5, min(secs, 780 - (time.time() - T0)))
    fail, stats = (None, [])
    if have_replay:
        fail, stats = refute(work, prop, secs, 7 if open_ or tier == "thorough" else 4, tier, seed)
    knowns = sum(s.get("known", 0) for s in stats)
    evals = sum(s["evaluations"] for s in stats)
    nontriv = sum(s["distinct_nontrivial"] for s in stats)
    if have_replay and not fail and evals == 0:
        broken("the replay run made no case")
    path = f"{V}/evidence/replays/{prop}.json"
    viol = 0
    line = None
    kn = [k for k in known(prop) if not any(f"[{f}]" in k for f in p.get("repaired", []))]
    if fail:
        viol = 1
        fail["failed_obligations"] = {k: [e["rendered"] for e in p["failed"][k]] for k in hard + weak}
        fail["replay_with"] = f"{V}/replay/target/release/replay file {path}"
        json.dump(fail, open(path, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={path}"
    elif hard:
        viol = 1
        json.dump({"property": prop, "failed_obligations": {k: [e["rendered"] for e in p["failed"][k]] for k in hard + weak},
                   "where": {f["key"]: f"{f['file']}:{f['line']}" for f in mine if f["key"] in hard + weak},
                   "searched": {"evaluations": evals, "seconds": secs}}, open(path, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"], "wall_s": round(time.time() - T0, 1), "violations": viol,
        "coverage": {
            "obligations": len([f for f in mine if f["status"] in ("verified", "lemma", "absent", "assumed")]),
            "discharged": len(proved),
            "obligation_unit": "one function under contract or one lemma (all its preconditions, postconditions, invariants, asserts, overflow and termination conditions)",
            "clauses": sum(f.get("clauses", 0) for f in mine),
            "checker_cmd": f"{V}/tools/extract/target/debug/extract {REPO} out.rs out.json {' '.join('contracts/' + x for x in TEMPLATES)} && verus out.rs --rlimit 40",
            "trusted_base": trust,
            "back_end": "Verus " + str(p.get("verus", {}).get("version", "")) + " with its bundled Z3",
            "solver_ms_whole_file": p["smt_ms"],
            "verified_whole_file": p["verified"],
            "functions_under_contract": {f["key"]: {"where": f"{f['file']}:{f['line']}" if f["file"] else "contracts", "status": f["status"]} for f in mine},
            "inlined_callees": inlined,
            "undecided": und, "failed": sorted(hard + weak), "template_errors": p["template"][:3],
            "vacuity_checked": nvac,
            "bounded_stand_in": {"for": conf.get("bounded", "cross-check of the whole property against the real code; not counted as proved"), "evaluations": evals,
                                 "distinct_nontrivial": nontriv, "seconds": secs,
                                 "rule": "structured generation of queries and values (replay/src/cases.rs), compared with an independent evaluator; non-trivial means the case reached the property's antecedent",
                                 "samples": (stats[0]["samples"][:4] if stats else [])},
            "evaluations": evals, "distinct_nontrivial": nontriv, "cases_of_known_findings": knowns,
            "rule": "replay/src/cases.rs generates the cases; a case is non-trivial when it reaches the property's antecedent",
            "samples": (stats[0]["samples"][:4] if stats else []),
        },
        "assumptions": conf.get("assumptions", []) + CONF["_all"]["assumptions"],
    }
    if conf["level"] == "other":
        ev["coverage"]["explanation"] = conf["explanation"]
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} {tier}: {len(proved)}/{ev['coverage']['obligations']} units discharged, {len(und)} undecided, "
          f"{len(hard)}+{len(weak)} failed, {evals} replay cases in {secs:.0f} s, {ev['wall_s']} s")
    for k, r in und.items():
        print(f"  undecided {k}: {r}")
    for k in hard + weak:
        print(f"  failed {k}: {p['failed'][k][0]['message']}")
    for x in p["template"][:2]:
        print("  template: " + x[:600])
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
