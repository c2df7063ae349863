#!/usr/bin/env python3
"""Runs the simulation check of one property against /repo.

usage: check.py PROPERTY [quick|thorough]     run the check
       check.py --replay FILE [-v]            run one recorded schedule again
       check.py --build                       build the simulator only

Exit 0: held. Exit 1: violated (VIOLATION line on stdout). Anything else: the check itself failed.
"""
import sys, os, json, time, subprocess, hashlib, fcntl, re, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, REAL, STUB

FLAVOURS = ("asan", "pool")
WORKERS = max(1, min(8, os.cpu_count() or 1))
RECHECK = 25


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + sorted(glob.glob(HERE + "/sim/*"))
    for f in files:
        if os.path.isfile(f) and f.endswith((".c", ".h", ".sh", ".def", ".inc")):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def build():
    """Build both flavours from the current tree; reuse a build of the same sources."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(BUILD, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == want and all(os.path.exists(f"{BUILD}/{f}/sim") for f in FLAVOURS):
            return
        if os.path.exists(stamp):
            os.unlink(stamp)
        procs = [(f, subprocess.Popen(["bash", HERE + "/sim/build.sh", f, f"{BUILD}/{f}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for f in FLAVOURS]
        for f, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                die(f"building the simulator ({f}) failed:\n" + out[-4000:])
        with open(stamp, "w") as o:
            o.write(want)


def known_findings(prop):
    """known: property=<id> kind=<kind> match=/<regex on the message>/ <what fails>"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def sim(flavour, args, **kw):
    return subprocess.run([f"{BUILD}/{flavour}/sim"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def run_batch(prop, scn, flavour, seed, count, limit, maxviol, tmp):
    procs = []
    for w in range(WORKERS):
        o = f"{tmp}/{scn}.{flavour}.{w}"
        procs.append((o, subprocess.Popen([f"{BUILD}/{flavour}/sim", "--scenario", scn, "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS),
                                            "--count", str(count), "--limit", str(limit), "--maxviol", str(maxviol), "--recheck", str(RECHECK),
                                            "--out", o + ".json", "--cov", o + ".cov"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = []
    for o, p in procs:
        try:
            out, _ = p.communicate(timeout=limit + 120)
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            die(f"a worker of {scn}/{flavour} did not finish")
        if p.returncode:
            die(f"worker of {scn}/{flavour} exited with {p.returncode}: {out[-2000:]}")
        d = json.load(open(o + ".json"))
        d["cov"] = open(o + ".cov", "rb").read()
        d["flavour"] = flavour
        d["scenario"] = scn
        res.append(d)
    return res


def replay(path, quiet=True):
    flav = re.search(r"^flavour (\S+)", open(path).read(), re.M).group(1)
    r = sim(flav, ["--replay", path] + ([] if quiet else ["-v"]))
    m = re.search(r"^status (\d) kind (\S+) hash (\w+)", r.stdout, re.M)
    if not m:
        die("replay gave no result:\n" + r.stdout[-2000:])
    return m.groups(), r


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        build()
        got, r = replay(sys.argv[2], "-v" not in sys.argv)
        print(r.stdout)
        sys.exit(r.returncode)
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        build()
        return
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    build()
    build_s = time.time() - t0
    tmp = f"{BUILD}/tmp.{prop}.{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    try:
        sys.exit(check(prop, tier, seed, c, t0, build_s, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, c, t0, build_s, tmp):
    known = known_findings(prop)
    maxviol = 40 if known else 3
    cap = 75 if tier == "quick" else 700          # seconds of simulation for the whole check
    parts = c["runs"]
    total = sum(p[2] for p in parts)
    res, unknown, seen_known = [], [], {}
    for scn, flavour, n in parts:
        n = n if tier == "quick" else n * c.get("thorough_factor", 12)
        share = cap * (parts_n := [p for p in parts if p[0] == scn and p[1] == flavour][0][2]) / total + 5
        for d in run_batch(prop, scn, flavour, seed, n, share, maxviol, tmp):
            res.append(d)
            if d["error"]:
                die(f"simulator error in {scn}/{flavour} (seed {d['error_seed']}): {d['error']}")
            for v in d["violations"]:
                v["scenario"], v["flavour"] = scn, flavour
                for kind, rx, what in known:
                    if v["kind"] == kind and rx.search(v["message"]):
                        seen_known.setdefault(what, v)
                        break
                else:
                    unknown.append(v)
        if unknown:
            break
    # the same seeds in one fresh process, in another order of workers, must give the same executions
    det = 0
    scn, flavour, _ = parts[0]
    first = {}
    for w, d in enumerate([d for d in res if d["scenario"] == scn and d["flavour"] == flavour]):
        for k, h in enumerate(d["allhashes"]):
            first[w + k * WORKERS] = h
    k = min(16, len(first))
    r = sim(flavour, ["--scenario", scn, "--prop", prop, "--seed", str(seed), "--count", str(k), "--maxviol", "1000", "--out", f"{tmp}/det.json"])
    if r.returncode:
        die("determinism check failed to run: " + r.stdout[-1000:])
    for i, h in enumerate(json.load(open(f"{tmp}/det.json"))["allhashes"]):
        if i in first:
            det += 1
            if first[i] != h:
                die(f"run {i} of {scn}/{flavour} gave another execution in a second process")
    write_evidence(prop, tier, seed, c, res, unknown, seen_known, t0, build_s, det)
    for what in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {what}", flush=True)
    if not unknown:
        runs = sum(d["runs"] for d in res)
        print(f"{prop}: held in {runs} simulated runs ({sum(d['nontrivial'] for d in res)} non-trivial), {time.time() - t0:.1f} s")
        return 0
    v = min(unknown, key=lambda x: x["index"])
    os.makedirs(f"{BUILD}/replay", exist_ok=True)
    path = f"{BUILD}/replay/{prop}-{v['scenario']}-{v['flavour']}-{v['seed']}.txt"
    if os.path.exists(path):
        os.unlink(path)
    r = sim(v["flavour"], ["--scenario", v["scenario"], "--prop", prop, "--run", str(v["seed"]), "--minimise", path, "--budget", "20" if tier == "quick" else "90"])
    if not os.path.exists(path):
        die("could not minimise the violating run: " + r.stdout[-1500:])
    print(r.stdout.strip().splitlines()[-1])
    a, ra = replay(path)
    b, _ = replay(path)
    want = re.search(r"^hash (\w+)", open(path).read(), re.M).group(1)
    if a != b or a[0] != "2" or a[2] != want:
        die(f"replay is not exact: {a} {b} recorded hash {want}")
    msg = ra.stdout.strip().splitlines()[-1]
    print(f"{prop} broken: [{a[1]}] {msg}")
    print(f"seed {v['seed']} scenario {v['scenario']} flavour {v['flavour']}; replay: python3 {HERE}/check.py --replay {path} -v")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def write_evidence(prop, tier, seed, c, res, unknown, seen_known, t0, build_s, det):
    runs = sum(d["runs"] for d in res)
    hashes = set()
    for d in res:
        hashes |= {(d["scenario"], d["flavour"], h) for h in d["hashes"]}
    # the two flavours run the same schedules: count an execution once
    distinct = len({(s, h) for s, f, h in hashes})
    faults, probes = {}, {}
    for d in res:
        for k, n in d["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, (r, n) in d["probes"].items():
            probes[k] = probes.get(k, 0) + r
    edges, states = {}, 0
    st = 0
    for d in res:
        e = edges.setdefault(d["flavour"], bytearray(65536))
        for i, b in enumerate(d["cov"][:65536]):
            if b:
                e[i] = 1
        st |= int.from_bytes(d["cov"][65536:], "little")
    states = bin(st).count("1")
    wall = sum(max(d["wall_s"] for d in res if (d["scenario"], d["flavour"]) == k) for k in {(d["scenario"], d["flavour"]) for d in res})
    simt = sum(d["simtime_s"] for d in res)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": c["rule"] + " Runs are distinct when the hash over their complete event trace (time, system call, socket, sizes) differs.",
            "samples": [s for d in res for s in d["samples"]][:4],
            "scenarios": sorted({f"{d['scenario']}/{d['flavour']}" for d in res}),
            "nontrivial_runs": sum(d["nontrivial"] for d in res),
            "simulated_seconds": round(simt, 1),
            "simulation_events": sum(d["events"] for d in res),
            "schedule_choices": sum(d["choices"] for d in res),
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "faults_injected": faults,
            "situations_reached_runs": probes,
            "distinct_abstract_states": states,
            "abstract_state_measure": "hash of, per node: number of open sockets by connection state and buffer fill class, ready-list length, pending timer class",
            "code_edges_hit": {k: sum(v) for k, v in edges.items()},
            "determinism_rechecks": sum(d["rechecked"] for d in res) + det,
            "determinism_mismatches": sum(d["mismatches"] for d in res),
            "components_real": REAL, "components_simulated": STUB,
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 2),
        "violations": len(unknown),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    p = f"{HERE}/evidence/{prop}.json"
    with open(p + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
