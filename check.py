#!/usr/bin/env python3
"""Decides one property: builds the simulator from /repo's working tree, runs seeded simulations, reports.

  check.py PROP               tier and seed from VERIF_TIER, VERIF_SEED
  check.py --build            build only (setup)
  check.py --replay FILE      replays one recorded execution
Exit 0: held. Exit 1: VIOLATION line. Anything else: the check itself failed.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ABIEOS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import props

BASE = ["-std=gnu++17", "-include", "cstdint", "-include", "limits", "-w", f"-I{HERE}/shim", f"-I{REPO}/include", f"-I{REPO}/src"]
CODE = ["-O1", "-g1", "-fno-omit-frame-pointer",
        "-fsanitize=address,bool,bounds,null,return,unreachable,integer-divide-by-zero", "-fno-sanitize-recover=all",
        "-ftrivial-auto-var-init=pattern"]
# the catalogue of native types is much code: quick to compile rather than quick to run
NATIVE = ["-O0", "-g0", "-fno-omit-frame-pointer", "-fsanitize=address,bool,bounds,null", "-fno-sanitize-recover=all",
          "-ftrivial-auto-var-init=pattern"]
COV = {"plain": ["-fsanitize-coverage=trace-pc-guard", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "native": ["-fsanitize-coverage=trace-pc-guard", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
       "race": ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]}
WRAP = ["-Wl,--wrap=" + f for f in ("__asan_memcpy", "__asan_memmove", "__asan_memset", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen")] # these count as work
SIM = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"]

def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)

def repo_sources():
    """The library's own list of sources."""
    src = []
    try:
        text = open(f"{REPO}/CMakeLists.txt").read()
        for m in re.finditer(r"add_library\(\s*(abieos|abieos_module)\s+\w+\s+([^)]*)\)", text):
            for f in m.group(2).split():
                if f not in src and os.path.isfile(f"{REPO}/{f}") and f.endswith((".cpp", ".c", ".cc")):
                    src.append(f)
    except OSError:
        pass
    for f in ("src/abieos.cpp", "src/abi.cpp", "src/crypto.cpp", "include/eosio/fpconv.c"):
        if f not in src and os.path.isfile(f"{REPO}/{f}"):
            src.append(f)
    return src

def tree(*dirs):
    out = []
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds.sort()
            out += [os.path.join(base, f) for f in sorted(fs)]
    return out

def includes(f, seen=None):
    """The files of this directory which a simulator source includes."""
    seen = set() if seen is None else seen
    for m in re.finditer(r'^\s*#\s*include "([^"]+)"', open(f).read(), re.M):
        g = os.path.normpath(os.path.join(os.path.dirname(f), m.group(1)))
        if os.path.isfile(g) and g not in seen:
            seen.add(g)
            includes(g, seen)
    return sorted(seen)

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()[:24]

def build(flavour="plain"):
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        repo_files = [f for f in tree(f"{REPO}/include", f"{REPO}/src") if f.endswith((".hpp", ".h", ".c", ".cpp", ".cc"))]
        shim = tree(f"{HERE}/shim")
        jobs = []
        for s in repo_sources():
            cc = ["clang"] if s.endswith(".c") else ["clang++"]
            fl = CODE + COV[flavour] + (["-w", f"-I{REPO}/include"] if s.endswith(".c") else BASE)
            jobs.append((f"{REPO}/{s}", cc, fl, repo_files + shim))
        for s in tree(f"{HERE}/sim"):
            if not s.endswith(".cpp"):
                continue
            if "/sim/native/" in s and flavour != "native":
                continue
            text = open(s).read()
            hdrs = includes(s) + shim + [s]
            here = ["-DWITH_NATIVE"] if flavour == "native" and s.endswith("/table.cpp") else []
            if "/sim/native/" in s and "// uses the code under test" in text.split("\n", 1)[0]:
                jobs.append((s, ["clang++"], NATIVE + COV[flavour] + BASE, repo_files + hdrs))
            elif "// uses the code under test" in text.split("\n", 1)[0]:
                jobs.append((s, ["clang++"], CODE + COV[flavour] + BASE, repo_files + hdrs))
            else:
                jobs.append((s, ["clang++"], SIM + here + BASE[:5] + [f"-I{HERE}/shim"], hdrs))
        objs, todo = [], []
        for src, cc, fl, deps in jobs:
            o = f"{BUILD}/obj/{os.path.basename(src)}-{digest(sorted(set(deps + [src])), (cc, fl))}.o"
            objs.append(o)
            if not os.path.exists(o):
                todo.append((src, cc, fl, o))
        # the slowest first
        todo.sort(key=lambda t: -os.path.getsize(t[0]) - (1 << 20) * (REPO in t[0] or "api" in t[0] or "/native/s" in t[0]))
        def comp(t):
            src, cc, fl, o = t
            r = subprocess.run(cc + fl + ["-c", src, "-o", o + ".tmp"], capture_output=True, text=True)
            if r.returncode == 0:
                os.rename(o + ".tmp", o)
            return src, r.returncode, r.stderr
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            for src, rc, err in ex.map(comp, todo):
                if rc:
                    die(f"BUILD-FAILED {src}\n{err[-4000:]}")
        exe = f"{BUILD}/sim-{digest([], (sorted(objs), flavour))}"
        if not os.path.exists(exe):
            r = subprocess.run(["clang++", "-fsanitize=address,undefined"] + WRAP + objs + ["-o", exe + ".tmp", "-lpthread", "-ldl"], capture_output=True, text=True)
            if r.returncode:
                die(f"BUILD-FAILED link\n{r.stderr[-4000:]}")
            os.rename(exe + ".tmp", exe)
        return exe

def locales():
    """Locales for simulated hosts, beside the simulator. One that cannot be made is replaced by "C" (counted in the evidence)."""
    os.makedirs(f"{BUILD}/locale", exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        def make(l):
            lang, charset = l.split(".")
            if not os.path.isdir(f"{BUILD}/locale/{l}"):
                tmp = f"{BUILD}/locale/tmp.{l}"
                try:
                    subprocess.run(["localedef", "--no-archive", "-i", lang, "-f", charset, tmp], capture_output=True, timeout=120)
                    os.rename(tmp, f"{BUILD}/locale/{l}")
                except (OSError, subprocess.SubprocessError):
                    pass
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(make, ("de_DE.UTF-8", "tr_TR.ISO-8859-9", "hi_IN.UTF-8", "ja_JP.EUC-JP")))

def unesc(s):
    return re.sub(r"%([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)

def known_list(prop):
    out = []
    try:
        for l in open(f"{HERE}/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out

def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        for f in sorted({props.CONF[p].get("flavour", "plain") for p in props.CONF}):
            print(build(f))
        return 0
    if a[:1] == ["--replay"]:
        locales()
        p = re.search(r"^prop (\S+)", open(a[1]).read(), re.M)
        exe = build(props.CONF[p.group(1)].get("flavour", "plain") if p else "plain")
        return subprocess.run([exe, "replay", a[1]] + a[2:]).returncode
    prop = a[0]
    conf = props.CONF[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier=thorough" in a:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    print(f"seed {seed} tier {tier} property {prop}", flush=True)
    exe = build(conf.get("flavour", "plain"))
    if conf.get("locales"):
        locales()
    tb = time.time()
    runs = conf["runs"][0 if tier == "quick" else 1]
    cap = 330 if tier == "quick" else 3600
    workers = os.cpu_count() or 8
    reps = f"{HERE}/replays"
    os.makedirs(reps, exist_ok=True)
    # stale replays of this property and seed
    for f in os.listdir(reps):
        if f.startswith(f"{prop}-{seed}-"):
            os.unlink(f"{reps}/{f}")
    outs, ps = [], []
    for w in range(workers):
        n = (runs - w + workers - 1) // workers
        if n <= 0:
            continue
        out = f"{BUILD}/out-{prop}-{os.getpid()}-{w}"
        outs.append(out)
        ps.append(subprocess.Popen([exe, "batch", prop, f"--seed={seed}", f"--first={w}", f"--stride={workers}", f"--runs={n}", f"--cap={cap}",
                                    f"--out={out}", f"--replays={reps}", f"--tier={tier}"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    # a violation ends the batch: the other workers are only stopped once theirs cannot be the smaller one
    bad = None
    errs = [p.communicate()[1] for p in ps]
    agg = {"RUNS": 0, "NONTRIVIAL": 0, "SIMMS": 0}
    count, distinct, edges, edges_total, samples, viol, unstable, complete = {}, {}, set(), 0, [], [], [], 0
    for out in outs:
        try:
            lines = open(out).read().split("\n")
            os.unlink(out)
        except OSError:
            continue
        for l in lines:
            w = l.split(" ")
            if w[0] in agg: agg[w[0]] += int(w[1])
            elif w[0] == "COUNT": count[w[1]] = count.get(w[1], 0) + int(w[2])
            elif w[0] == "DISTINCT": distinct.setdefault(w[1], set()).update(w[2:])
            elif w[0] == "EDGES": edges.update(w[1:])
            elif w[0] == "EDGESTOTAL": edges_total = int(w[1])
            elif w[0] == "SAMPLE": samples.append(unesc(l[7:]))
            elif w[0] == "VIOLATION": viol.append((w[1], unesc(w[2]), unesc(w[3]) if len(w) > 3 else ""))
            elif w[0] == "UNSTABLE": unstable.append(l)
            elif w[0] == "END": complete += 1
    broken = []
    if complete != len(outs):
        broken.append(f"{len(outs) - complete} worker(s) ended early: " + " | ".join(e.strip()[-300:] for e in errs if e))
    if unstable:
        broken.append("a violation did not repeat: " + "; ".join(unstable))
    # known findings
    listed = known_list(prop)
    status = {}
    if conf.get("known"):
        r = subprocess.run([exe, "known", prop], capture_output=True, text=True)
        for l in r.stdout.split("\n"):
            m = re.match(r"(STILL|GONE) (\S+)", l)
            if m: status[m.group(2)] = m.group(1)
        if r.returncode:
            broken.append("known-finding run failed: " + (r.stdout + r.stderr)[-500:])
    for key, text in listed:
        if status.get(key) == "STILL":
            print(f"KNOWN-FINDING: property={prop} {key}: {text}")
        else:
            print(f"note: listed finding {key} was not reproduced on this tree")
    for key, s in status.items():
        if s == "STILL" and key not in {k for k, _ in listed}:
            # a specific execution that fails and is not listed
            path = f"{reps}/{prop}-{seed}-known-{key}.plan"
            open(path, "w").write(f"abieos-sim-plan 1\nprop {prop}\nseed 0\nop known key={key}\n")
            viol.append((path, "known-case:" + key, key))
    # a replay in a new process must fail in the same way
    confirmed = []
    for path, cls, msg in sorted(viol, key=lambda v: int(re.search(r"-(\d+)\.plan$", v[0]).group(1)) if re.search(r"-(\d+)\.plan$", v[0]) else 0):
        want = re.search(r"^hash (\d+)", open(path).read(), re.M)
        r = subprocess.run([exe, "replay", path], capture_output=True, text=True)
        got = re.search(r"REPLAY violated class=(.*) hash=(\d+)", r.stdout)
        if r.returncode == 1 and got and (not want or got.group(2) == want.group(1)):
            confirmed.append((path, cls, msg))
        else:
            broken.append(f"replay of {path} did not reproduce: {r.stdout[-300:]}")
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(count.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(count.items()) if k.startswith("probe.")}
    run_s = max(time.time() - tb, 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["RUNS"], "distinct_nontrivial": agg["NONTRIVIAL"],
            "rule": conf["rule"] + " One evaluation is one simulated execution. Non-trivial: at least one fault of the kinds counted in faults_fired actually took effect in the run, and its plan (seed aside) differs from all others of the same worker.",
            "samples": samples[:2],
            "simulated_runs_per_hour": int(agg["RUNS"] / run_s * 3600), "seeds_per_hour": int(agg["RUNS"] / run_s * 3600),
            "simulated_time_ms": agg["SIMMS"], "faults_fired": faults, "probes": probes,
            "work_basic_blocks": count.get("ticks", 0),
            "distinct": {k: len(v) for k, v in sorted(distinct.items())}, "distinct_measures": conf.get("measures", ""),
            "code_edges_reached": len(edges), "code_edges_total": edges_total,
            "real_components": conf.get("real", props.REAL), "stub_components": conf.get("stub", props.STUB),
            "known_findings_checked": status,
        },
        "assumptions": props.ASSUME + conf.get("assume", []),
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    tmp = f"{HERE}/evidence/{prop}.json.tmp"
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=True)
    os.rename(tmp, f"{HERE}/evidence/{prop}.json")
    print(f"{agg['RUNS']} runs, {agg['NONTRIVIAL']} non-trivial, faults {sum(faults.values())}, build {tb - t0:.1f} s, total {wall:.1f} s")
    if confirmed:
        for path, cls, msg in confirmed:
            print(f"  {cls}: {msg[:600]}")
        print(f"VIOLATION property={prop} replay={confirmed[0][0]}", flush=True)
        return 1
    if broken:
        die("CHECK-FAILED " + " / ".join(broken))
    if agg["RUNS"] == 0 or agg["NONTRIVIAL"] < 2:
        die("CHECK-FAILED nothing was explored")
    return 0

if __name__ == "__main__":
    sys.exit(main())
