#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: build the harness of a property from
/repo's current tree, search, and report.  Exit 0: held on everything explored;
exit 1: a VIOLATION line was printed; 2: the check itself could not run."""
import json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
SPEC = json.load(open(os.path.join(V, "spec.json")))

COMMON = ["-std=c++17", "-w", "-I" + REPO + "/src", "-I" + V + "/harness"]
GCC = ["g++"] + COMMON + ["-O1", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fsanitize=address",
       "-fsanitize=return,unreachable,integer-divide-by-zero,signed-integer-overflow,shift,bounds,float-cast-overflow",
       "-fno-sanitize-recover=all"]
PLAIN = ["g++"] + COMMON + ["-O1"]
TSAN = ["g++"] + COMMON + ["-O1", "-DPBT_TSAN", "-pthread", "-fsanitize=thread"]
CLANG = ["clang++"] + COMMON + ["-O1", "-DPBT_FUZZ", "-fsanitize=fuzzer,address",
         "-fsanitize=return,unreachable,integer-divide-by-zero,signed-integer-overflow,shift,bounds",
         "-fno-sanitize-recover=all"]


def build(base, srcs, bdir, tag, defs=()):
    """compile each source in parallel and link; returns binary path"""
    objs = []

    def one(src):
        o = os.path.join(bdir, "%s-%s.o" % (tag, os.path.basename(src)))
        r = subprocess.run(base + list(defs) + ["-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, r.returncode, r.stdout.decode(errors="replace")
    with ThreadPoolExecutor(8) as ex:
        for o, rc, log in ex.map(one, srcs):
            if rc:
                sys.stdout.write("cannot build the harness against the current tree:\n" + log[-6000:] + "\n")
                return None
            objs.append(o)
    out = os.path.join(bdir, tag)
    link = [f for f in base if not f.startswith("-I")]
    r = subprocess.run(link + objs + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        return None
    return out


def findings(pid):
    res = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) law=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sp = SPEC[pid]
    t0 = time.time()
    low = pid.lower()
    bdir = os.path.join(V, "build", low + "-" + str(os.getpid()))
    rdir = os.path.join(V, "replays", low)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/*.replay"):
        os.unlink(f)
    try:
        return run(pid, tier, seed, sp, t0, low, bdir, rdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run(pid, tier, seed, sp, t0, low, bdir, rdir):
    H = os.path.join(V, "harness")
    srcs = [os.path.join(H, low + ".cpp")] + [os.path.join(H, x) for x in sp.get("extra", [])]
    thorough = tier == "thorough"
    flags = PLAIN if sp.get("plain") else TSAN if sp.get("tsan") else GCC
    binp = build(flags, srcs, bdir, "pbt")
    if not binp:
        return 2
    tb = time.time() - t0
    mult = sp["mult"] * (sp.get("deep", 15) if thorough else 1)
    wall = 420 if thorough else 150
    out = os.path.join(bdir, "stats.json")
    r = subprocess.run([binp, "--seed", str(seed), "--mult", str(mult), "--wall", str(wall), "--shrink", "25", "--dir", bdir,
                        "--replays", rdir, "--out", out, "--property", pid], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    log = r.stdout.decode(errors="replace")
    sys.stderr.write(r.stderr.decode(errors="replace")[-3000:])
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("the harness ended with", r.returncode)
        print(log[-3000:])
        return 2
    st = json.load(open(out))
    known = findings(pid)
    bad, lines = 0, log.splitlines()
    for f in st["failures"]:
        hit = [k for k in known if k[0] == f["law"] and k[1].search(f["message"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
        else:
            bad += 1
            print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
            print("  law %s: %s" % (f["law"], f["message"]))
    for ln in lines:
        if ln.startswith("  case:"):
            print(ln[:1500])
    fuzz = None
    if thorough and not sp.get("nofuzz") and not bad:
        fuzz = fuzz_tier(pid, seed, sp, srcs, bdir, rdir, binp)
        bad += fuzz.pop("violations", 0)
    cov = {
        "evaluations": st["evaluations"] + (fuzz or {}).get("executions", 0),
        "distinct_nontrivial": st["distinct_nontrivial"],
        "rule": sp["rule"] + " Choices come from a splitmix64 stream of (VERIF_SEED, law, index); a case counts once per distinct choice vector and only if its law marked it non-trivial by this rule. Cases discarded by a precondition: %d." % st["discarded"],
        "samples": st["samples"][:24],
        "laws": st["laws"],
        "unconfirmed_failures": st["unconfirmed"],
        "build_s": round(tb, 1),
        "search_s": round(st["run_s"], 1),
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": sp.get("assumptions", ["numeric comparisons use the tolerances written beside each oracle", "GCC 13 -O1 %s; Eigen as installed" % ("without sanitizers, allocator filling fresh memory" if sp.get("plain") else "with ThreadSanitizer" if sp.get("tsan") else "with AddressSanitizer and UBSan subset")]),
          "wall_s": round(time.time() - t0, 1), "violations": bad}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return 1 if bad else 0


def fuzz_tier(pid, seed, sp, srcs, bdir, rdir, binp):
    fz = build(CLANG, srcs, bdir, "fuzz")
    if not fz:
        return {"skipped": "clang could not build the fuzz target"}
    secs = sp.get("fuzz_s", 150)
    corp = os.path.join(bdir, "corpus")
    os.makedirs(corp)
    import random
    rng = random.Random(seed)
    for i in range(64):                        # structured seeds: law selector + random choices
        with open(os.path.join(corp, "s%d" % i), "wb") as f:
            f.write(bytes([i]) + bytes(rng.randrange(256) for _ in range(rng.choice([64, 256, 1024]))))
    procs = []
    for j in range(8):
        a = os.path.join(bdir, "a%d-" % j)
        lg = open(os.path.join(bdir, "f%d.log" % j), "wb")
        procs.append((subprocess.Popen([fz, corp, "-seed=%d" % (seed * 8 + j + 1), "-max_total_time=%d" % secs, "-max_len=4096", "-len_control=20",
                                        "-artifact_prefix=" + a, "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-reload=5"],
                                       stdout=lg, stderr=lg, cwd=bdir), lg))
    res = {"seconds": secs, "jobs": 8, "executions": 0, "corpus": 0, "edges": 0, "crashing_inputs": 0, "violations": 0}
    for p, lg in procs:
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
        lg.close()
    for j in range(8):
        t = open(os.path.join(bdir, "f%d.log" % j), errors="replace").read()
        m = re.search(r"number_of_executed_units:\s*(\d+)", t)
        if m:
            res["executions"] += int(m.group(1))
        else:
            m = re.findall(r"^#(\d+)", t, re.M)
            if m:
                res["executions"] += int(m[-1])
        m = re.findall(r"cov: (\d+)", t)
        if m:
            res["edges"] = max(res["edges"], int(m[-1]))
    res["corpus"] = len(os.listdir(corp))
    known = findings(pid)
    for f in sorted(glob.glob(os.path.join(bdir, "a?-crash-*")) + glob.glob(os.path.join(bdir, "a?-timeout-*"))):
        res["crashing_inputs"] += 1
        r = subprocess.run([binp, "--bytes", f, "--dir", bdir, "--replays", rdir, "--property", pid, "--shrink", "25"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        o = r.stdout.decode(errors="replace")
        if r.returncode == 1 and "VIOLATION" in o:
            hit = [k for k in known if ("law %s:" % k[0]) in o and k[1].search(o)]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
                continue
            print(o.strip())
            res["violations"] += 1
            break
    return res


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
