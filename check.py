#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]

Decides one property: compiles the harnesses of the property against /repo's current headers, executes every scenario
symbolically with build/lfbmc, and lets the SAT solver decide each of them.  See DESIGN.md.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, HERE)
from properties_table import TABLE, HARNESS      # what is checked

def log(*a):
    print(*a, flush=True)

def build_engine():
    eng = os.path.join(HERE, "build", "lfbmc")
    srcs = [os.path.join(HERE, "engine", f) for f in ("aig.h", "solver.h", "exec.h", "exec.cpp", "main.cpp", "build.sh")]
    stamp = os.path.join(HERE, "build", "stamp")
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()
    if os.path.exists(eng) and os.path.exists(stamp) and open(stamp).read() == h:
        return eng
    r = subprocess.run(["bash", os.path.join(HERE, "engine", "build.sh"), os.path.join(HERE, "build")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log("engine build failed:\n" + r.stdout[-4000:])
        sys.exit(2)
    open(stamp, "w").write(h)
    return eng

def known_findings(prop):
    """lines `known: property=<id> scenario=<regex> message=<regex> | <text>`"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) message=/(.*)/ \| (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY << 20, MEMORY << 20))
AFTER = float(os.environ.get("VERIF_AFTER", 45))
MEMORY = int(os.environ.get("VERIF_MB", 0)) or max(3000, os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") // (1 << 20) // 5)     # per process, in MB

def run(cmd, timeout=None, env=None, limited=False):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, env=env, preexec_fn=limit_memory if limited else None)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--build", action="store_true", help="build the engine and stop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.build:
        build_engine()
        return
    prop, tier = a.property, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    per = 240 if tier == "quick" else 3600
    eng = build_engine()
    tmp = tempfile.mkdtemp(prefix="lfcheck.")
    try:
        rc = decide(a, prop, tier, t0, budget, per, eng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(a, prop, tier, t0, budget, per, eng, tmp):
    entry = TABLE[prop]
    jobs = list(entry["quick"]) + (list(entry.get("thorough", [])) if tier == "thorough" else [])
    tus = sorted({j[0] for j in jobs})
    results, lock = [], threading.Lock()
    # 1. encode: compile the harness translation units against the current headers
    def compile_tu(name):
        src, flags = HARNESS[name]
        bc = os.path.join(tmp, name + ".bc")
        rc, o, e = run(["bash", os.path.join(HERE, "engine", "compile.sh"), os.path.join(HERE, "harness", src), bc] + flags, timeout=300, env=dict(os.environ, REPO=REPO))
        scen = []
        if rc == 0:
            rc2, o2, e2 = run([eng, "--list", bc], timeout=60)
            scen = [l.split("\t")[0] for l in o2.splitlines() if l.strip()]
        return name, rc, bc, scen, o + e
    comp = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for name, rc, bc, scen, msg in ex.map(compile_tu, tus):
            comp[name] = (rc, bc, scen, msg)
    t_compile = time.time() - t0
    broken = [n for n in tus if comp[n][0] != 0]
    for n in broken:
        log("harness %s does not compile against %s:\n%s" % (n, REPO, comp[n][3][-3000:]))
    if any(n not in broken for n in tus):
        pass
    elif "fallback" in entry:       # the parts of the implementation that were to be encoded by themselves have changed their interface
        jobs = entry["fallback"]
        tus = sorted({j[0] for j in jobs})
        for n in tus:
            comp[n] = compile_tu(n)[1:]
        broken += [n for n in tus if comp[n][0] != 0]
    # 2. the work list
    work = []
    for j in jobs:
        tu, rx, opt = j[0], re.compile(j[1]), (j[2] if len(j) > 2 else "")
        if comp[tu][0] != 0:
            continue
        sc = [s for s in comp[tu][2] if rx.search(s)]
        if not sc:
            log("no scenario matches %s in %s" % (j[1], tu))
            return 2
        for s in sc:
            key = (tu, s, opt)
            if key not in [w[:3] for w in work] and (not a.only or re.search(a.only, tu + ":" + s)):
                work.append(key)
    known, found = known_findings(prop), []
    def is_known(tu, sc, msgs):
        return next((k for k in known if k[0].search(tu + ":" + sc) and all(k[1].search(x) for x in msgs)), None)
    def one(w):
        r = one_confirmed(w)
        if r[1].get("status") == "violation" and not is_known(w[0], w[1], r[1].get("violations", [])):
            found.append(time.time())
        return r
    def one_confirmed(w):
        r = one_run(w)
        # a loop that exceeds its bound counts as blocked only if it also exceeds a larger one
        if "complete" in w[2] and r[1].get("status") == "violation" and all(v.startswith("progress:") for v in r[1].get("violations", [])):
            k = int(re.search(r"unwind=(\d+)", w[2]).group(1))
            r2 = one_run((w[0], w[1], re.sub(r"unwind=\d+", "unwind=%d" % (k + 3), w[2])))
            return w, r2[1]
        return r
    def one_run(w):
        tu, s, opt = w
        left = budget - (time.time() - t0)
        if found:           # the verdict is known: only a little more time for further counterexamples
            left = min(left, found[0] + AFTER - time.time())
        if left < 5:
            return w, {"scenario": s, "status": "not-run", "detail": "time budget"}
        to = min(per, left)
        rc, o, e = run([eng, comp[tu][1], s, "--tmp", tmp, "--timeout", str(int(to)), "--opt", opt], timeout=to, limited=True)
        if rc is None:
            return w, {"scenario": s, "status": "unknown", "detail": "timeout after %.0f s" % to}
        try:
            return w, json.loads(o)
        except Exception:
            return w, {"scenario": s, "status": "unsupported", "detail": "engine failed (%s): %s" % (rc, e[-400:])}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for w, d in ex.map(one, work):
            d["tu"], d["opt"] = w[0], w[2]
            results.append(d)
            if a.v:
                log("  %-12s %-30s %-11s exec %6.1f solve %6.1f ev %4d %s %s %s" % (w[0], w[1], d["status"], d.get("exec_seconds", 0), d.get("solver_seconds", 0), d.get("events", 0), "bound exceeded" if d.get("bound_exceeded") else "", d.get("detail", "")[:200], "; ".join(d.get("violations", [])[:2] + d.get("not_covered", [])[:2])))
    # 3. verdict
    viol, reported_known = [], []
    for d in results:
        if d["status"] != "violation":
            continue
        msgs = d.get("violations", []) or ["?"]
        m = is_known(d["tu"], d["scenario"], msgs)
        if m:
            reported_known.append((m[2], d))
        else:
            viol.append(d)
    replays = []
    if viol or (broken and entry.get("api")):
        rdir = os.path.join(HERE, "evidence", "replay", prop)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
        for i, d in enumerate(viol):
            path = os.path.join(rdir, "%s.%s.json" % (d["tu"], d["scenario"]))
            src, flags = HARNESS[d["tu"]]
            d["harness"], d["flags"] = src, flags
            try:
                from replay import replay
                d["replay"] = replay(d, tmp, REPO) if i < 4 else "not replayed (only the first four are)"
            except Exception as e:           # the verdict does not depend on the replay
                d["replay"] = "replay not possible: %s" % e
            json.dump(d, open(path, "w"), indent=1)
            replays.append(path)
            log("%s:%s %s: %s" % (d["tu"], d["scenario"], d["opt"], "; ".join(d.get("violations", []))))
            log("  replay: %s" % d["replay"])
        if broken and entry.get("api"):
            path = os.path.join(rdir, "compile.txt")
            open(path, "w").write("\n".join(n + ":\n" + comp[n][3] for n in broken))
            if not viol:
                log("a documented operation does not compile")
            replays.append(path)
    for text, d in reported_known:
        log("KNOWN-FINDING: property=%s %s [%s:%s]" % (prop, text, d["tu"], d["scenario"]))
    undecided = [d for d in results if d["status"] in ("unknown", "unsupported", "not-run", "vacuous")]
    for d in undecided:
        log("INCOMPLETE %s:%s %s: %s" % (d["tu"], d["scenario"], d["status"], (d.get("detail") or "; ".join(d.get("not_covered", [])))[:300]))
    decided = [d for d in results if d["status"] in ("ok", "violation")]
    write_evidence(prop, tier, entry, results, decided, undecided, viol, broken, t0, t_compile)
    log("%s: %d scenarios, %d hold, %d violated, %d undecided, %.1f s" % (prop, len(results), sum(d["status"] == "ok" for d in results), sum(d["status"] == "violation" for d in results), len(undecided), time.time() - t0))
    if viol or (broken and entry.get("api")):
        log("VIOLATION property=%s replay=%s" % (prop, replays[0]))
        return 1
    for n in broken:
        log("INCOMPLETE %s does not compile" % n)
    if len(decided) < max(1, len(undecided)):
        return 2
    return 0

def write_evidence(prop, tier, entry, results, decided, undecided, viol, broken, t0, t_compile):
    fn = sorted({f for d in decided for f in d.get("functions", [])})
    lf = [f for f in fn if "lockfree" in f]
    def tot(k):
        return sum(d.get(k, 0) for d in decided)
    cov = {
        "evaluations": int(tot("queries") + tot("feasibility_queries")),
        "distinct_nontrivial": int(sum(1 for d in decided if d.get("clauses", 0) > 0)),
        "rule": "one evaluation = one solver query (deciding, unwinding, coverage or feasibility); non-trivial scenarios are those whose deciding query has clauses (was not discharged by constant folding) and whose coverage witnesses are satisfiable",
        "scenarios_decided": len(decided),
        "scenarios_undecided": ["%s:%s (%s)" % (d["tu"], d["scenario"], d["status"]) for d in undecided],
        "deciding_queries": int(tot("queries")), "feasibility_queries": int(tot("feasibility_queries")),
        "solver_seconds": round(tot("solver_seconds"), 2), "encoding_seconds": round(tot("exec_seconds"), 2), "compile_seconds": round(t_compile, 2),
        "instructions_encoded": int(tot("instructions")), "shared_memory_events": int(tot("events")), "assertions": int(tot("assertions")), "checks_discharged_during_execution": int(tot("discharged_during_execution")),
        "functions_encoded": lf[:200], "functions_encoded_total": len(fn),
        "bounds": entry["bounds"], "outside": entry["outside"],
        "scenarios_whose_loop_bound_is_not_complete": ["%s:%s (%s)" % (d["tu"], d["scenario"], d.get("exceed_at", "")) for d in decided if d.get("bound_exceeded")],
        "samples": [{k: d.get(k) for k in ("tu", "scenario", "opt", "status", "threads", "unwind", "events", "vars", "clauses", "queries", "solver_seconds", "assertions", "covered", "bound_exceeded")} for d in decided],
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": entry.get("level", "model_checking"), "coverage": cov,
          "assumptions": entry.get("assumptions", []) + ["the engine (/verif/engine) translates LLVM IR correctly", "clang's front end", "the SAT solvers kissat and minisat"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if ev["level"] == "model_checking":
        cov["states"] = int(tot("vars")); cov["transitions"] = int(tot("clauses")); cov["traces_validated_against_impl"] = sum(1 for d in viol if str(d.get("replay", "")).startswith("reproduced"))
    if broken:
        cov["harnesses_that_did_not_compile"] = broken
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    main()
