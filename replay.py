"""Runs a counterexample natively: the bitcode that was executed symbolically is compiled to machine code, with a call
before every memory access, and follows the inputs and the schedule of the trace (see replay_rt/rt.cpp)."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
def replay(d, tmp, repo):
    eng = os.path.join(HERE, "build", "lfbmc")
    sc, base = d["scenario"], os.path.join(tmp, "replay.%s.%s" % (d["tu"], d["scenario"]))
    weak = "mm=ra" in d.get("opt", "")
    bc = os.path.join(tmp, d["tu"] + ".bc")
    if not os.path.exists(bc):
        subprocess.run(["bash", os.path.join(HERE, "engine", "compile.sh"), os.path.join(HERE, "harness", d["harness"]), bc] + d["flags"], check=True, env=dict(os.environ, REPO=repo))
    subprocess.run([eng, bc, sc, "--instrument", base + ".bc"], check=True)
    seq = sc.startswith("seq_")
    names = [sc] if seq else [sc + "__init", sc + "__final"] + ["%s__t%d" % (sc, t) for t in range(d["threads"])]
    m = re.search(r"stall=([\d,]+)", d.get("opt", ""))
    stall = sum(1 << int(x) for x in m.group(1).split(",") if x) if m else 0
    with open(base + ".cpp", "w") as f:
        f.write("".join('extern "C" void %s();\n' % n for n in names))
        f.write('extern "C" { void (*rt_entry[])() = { %s, nullptr }; int rt_sequential = %d; int rt_stall = %d; }\n' % (", ".join(names), seq, stall))
    with open(base + ".trace", "w") as f:
        for n in d.get("nondet", []):
            f.write("N %d %s %d\n" % (n["thread"], n["name"].replace(" ", "_") or "_", n["value"]))
        for e in d.get("schedule", []):
            k = re.match(r"mark (\d+)$", e["op"])
            if k:
                f.write("E %d 0 %s 1 0\n" % (e["t"], k.group(1)))
            elif e.get("i"):
                f.write("E %d %d -1 %d %s\n" % (e["t"], e["i"], e.get("success", True), e["addr"]))
    cmd = ["clang++", "-O1", "-mcx16", "-w", os.path.join(HERE, "replay_rt", "rt.cpp"), base + ".bc", base + ".cpp", "-o", base + ".exe"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        return "replay not possible: " + r.stdout[-600:]
    try:
        r = subprocess.run([base + ".exe", base + ".trace"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30)
    except subprocess.TimeoutExpired:
        return "reproduced: the native run does not terminate" if "complete" in d.get("opt", "") else "not reproduced: the native run does not terminate"
    line = [l for l in r.stdout.splitlines() if l.startswith("FAIL") or l.startswith("not reproduced")]
    if r.returncode == 1 and line and line[-1].startswith("FAIL"):
        return "reproduced by the native code: " + line[-1][5:]
    if weak:
        return "not reproduced natively: the execution needs the weak memory model (the trace lists what every read returns)"
    return (line[-1] if line else "not reproduced: exit %d %s" % (r.returncode, r.stdout[-300:]))

if __name__ == "__main__":      # replay.py TRACE.json
    import json, tempfile, shutil
    d = json.load(open(sys.argv[1]))
    t = tempfile.mkdtemp(prefix="lfreplay.")
    try:
        print(replay(d, t, os.environ.get("REPO", "/repo")))
    finally:
        shutil.rmtree(t, ignore_errors=True)
