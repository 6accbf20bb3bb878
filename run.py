#!/usr/bin/env python3
"""Driver of all checks.

  run.py check C01 --tier quick|thorough     decide one property
  run.py replay FILE                         replay a recorded violation
  run.py setup                               check that the tools are there

Every check builds its simulator from the working tree of /repo, explores
seeds on all cores, and on a violation confirms it in fresh processes,
minimises the events and preemptions, writes a replay file and exits 1.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCE_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from engines import ENGINES, PROPERTIES  # noqa: E402

JOBS = min(8, os.cpu_count() or 1)


class Trouble(Exception):
    pass


def files_under(roots, suffixes):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, dirs, fs in os.walk(r):
            dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(suffixes):
                    out.append(os.path.join(d, f))
    return out


def build(engine, variant):
    e = ENGINES[engine]
    h = hashlib.sha256()
    for f in files_under([os.path.join(REPO, "larq_compute_engine")], (".h", ".cc", ".py", ".td", ".inc")) + files_under(
        [os.path.join(VERIF, x) for x in e["sources"]], (".h", ".c", ".cc", ".py", ".sh")
    ):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(str(variant).encode())
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "%s-%s-%s" % (engine, variant, h.hexdigest()[:20]))
    with open(os.path.join(base, "lock-%s-%s" % (engine, variant)), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            for old in os.listdir(base):  # keep the folder small
                p = os.path.join(base, old)
                if old.startswith("%s-%s-" % (engine, variant)) and p != out and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            cmd = e["build"](VERIF, REPO, out, variant)
            if cmd:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode:
                    raise Trouble("build of %s failed:\n%s" % (engine, p.stdout[-6000:]))
            open(os.path.join(out, "ok"), "w").close()
        os.utime(out)
    return out


def worker_cmd(engine, out, profile, args):
    return ENGINES[engine]["worker"](VERIF, REPO, out) + ["--profile", profile] + [str(a) for a in args]


def worker_env(engine):
    env = dict(os.environ)
    env.update(ENGINES[engine].get("env", {}))
    return env


def start(engine, out, profile, args):
    return subprocess.Popen(
        worker_cmd(engine, out, profile, args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
        env=worker_env(engine), cwd="/", start_new_session=True)


def run(engine, out, profile, args, timeout=600):
    p = start(engine, out, profile, args)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        raise Trouble("a worker ran into its time limit: %s" % " ".join(p.args))
    return p.returncode, o, e


class Viol:
    def __init__(self, line, variant):
        f = line.split(" ", 8)
        self.seed, self.hash, self.switches, self.message, self.variant = int(f[1]), f[2], int(f[6]), (f[7] if len(f) == 8 else " ".join(f[7:])).strip(), variant

    def klass(self):
        m = re.sub(r"0x[0-9a-f]+|\b[0-9a-f]{8,16}\b", "#", self.message)
        m = re.sub(r"-?\d+(\.\d+)?(e[-+]?\d+)?", "#", m)
        m = re.sub(r"\[[#, ]*\]", "#", m)
        return m[:70]


def parse(out, variant):
    viol, counts, summary = None, {}, {}
    for line in out.splitlines():
        if line.startswith("VIOL ") and viol is None:
            viol = Viol(line, variant)
        elif line.startswith("COUNT "):
            _, k, v = line.split()
            counts[k] = counts.get(k, 0) + int(v)
        elif line.startswith("SUMMARY "):
            w = line.split()[1:]
            summary = {w[i]: float(w[i + 1]) for i in range(0, len(w) - 1, 2)}
    return viol, counts, summary


def one(engine, out, profile, seed, drop=(), switches=None, verbose=False, extra=()):
    args = ["--seed", seed, "--count", 1] + list(extra)
    if drop:
        args += ["--drop", ",".join(map(str, sorted(drop)))]
    if switches is not None:
        args += ["--max-switches", switches]
    if verbose:
        args += ["--verbose"]
    rc, o, e = run(engine, out, profile, args, 200)
    v, _, _ = parse(o, None)
    return v, e


def minimise(engine, out, profile, v, budget=float(os.environ.get("LCE_MINIMISE", "60"))):
    """Drops events and preemptions while the same kind of violation stays."""
    t0 = time.time()
    _, trace = one(engine, out, profile, v.seed, verbose=True)
    events = sorted({int(m.group(1)) for m in re.finditer(r"^\[(\d+)\]", trace, re.M)})
    drop, tries = set(), 0
    want = v.klass()

    def fails(d, sw=None):
        nonlocal tries
        tries += 1
        w, _ = one(engine, out, profile, v.seed, d, sw)
        return w if w is not None and w.klass() == want else None

    n = 2
    keep = list(events)
    while len(keep) > 1 and time.time() - t0 < budget:
        size = max(1, len(keep) // n)
        cut = False
        for i in range(0, len(keep), size):
            rest = keep[:i] + keep[i + size:]
            if time.time() - t0 > budget:
                break
            if fails(set(events) - set(rest)):
                keep, cut = rest, True
                n = max(2, n - 1)
                break
        if not cut:
            if size == 1:
                break
            n = min(len(keep), n * 2)
    drop = set(events) - set(keep)
    best = fails(drop) or v
    switches = None
    if best.switches:
        lo, hi = 0, best.switches
        while lo < hi and time.time() - t0 < budget + 30:
            mid = (lo + hi) // 2
            w = fails(drop, mid)
            if w:
                hi = mid
                best, switches = w, mid
            else:
                lo = mid + 1
    return {"events": len(events), "kept_events": len(keep), "dropped": sorted(drop), "max_switches": switches,
            "tries": tries, "violation": best}


def several(engine, out, profile, first, last):
    """The runs of one worker from one seed to another, in one process."""
    rc, o, e = run(engine, out, profile, ["--seed", first, "--stride", JOBS, "--count", (last - first) // JOBS + 1], 300)
    return parse(o, None)[0]


def report_several(prop, engine, v, w, profile, first):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-after-%d.json" % (prop, v.variant, v.seed, first))
    json.dump({"property": prop, "engine": engine, "variant": v.variant, "profile": profile, "seed": v.seed, "first_seed": first, "stride": JOBS,
               "dropped_events": [], "max_switches": None, "message": w.message, "hash": w.hash,
               "runs": (v.seed - first) // JOBS + 1}, open(path, "w"), indent=1)
    print("%s (seed %d, variant %s, after %d other runs in the same process)" % (w.message[:1500], v.seed, v.variant, (v.seed - first) // JOBS))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def report(prop, engine, out, profile, v, note=None):
    """Confirms a violation, minimises it and writes the replay file."""
    same = 0
    for _ in range(3):
        w, _ = one(engine, out, profile, v.seed)
        if w is not None and w.klass() == v.klass():
            same += 1
    if same == 0:
        # what earlier runs left behind in the process may be part of it
        for back in (1, 4, 16, 64, 256, 1024, 4096, 16384):
            first = max(v.first, v.seed - back * JOBS)
            w = several(engine, out, profile, first, v.seed)
            if w is not None and w.seed == v.seed and w.klass() == v.klass():
                return report_several(prop, engine, v, w, profile, first)
            if first == v.first:
                break
        raise Trouble("seed %d of %s reported '%s' but a fresh process does not" % (v.seed, prop, v.message))
    m = minimise(engine, out, profile, v)
    b = m["violation"]
    _, trace = one(engine, out, profile, v.seed, m["dropped"], m["max_switches"], verbose=True)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, v.variant, v.seed))
    json.dump({"property": prop, "engine": engine, "variant": v.variant, "profile": profile, "seed": v.seed,
               "dropped_events": m["dropped"], "max_switches": m["max_switches"], "message": b.message, "hash": b.hash,
               "original_message": v.message, "events": m["events"], "kept_events": m["kept_events"],
               "reduction_runs": m["tries"], "confirmed": "%d/3" % same, "trace": trace.splitlines()[-400:]}, open(path, "w"), indent=1)
    print("%s (seed %d, variant %s, %d of %d events kept)" % (b.message[:1500], v.seed, v.variant, m["kept_events"], m["events"]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def determinism(engine, outs, profile, first, n):
    """The same seeds in other processes, at another worker count and layout: equal histories."""
    bad = []
    for variant, out in outs.items():
        ps = [start(engine, out, profile, ["--seed", first, "--count", n, "--hashes"])]
        ps += [start(engine, out, profile, ["--seed", first + k, "--stride", 3, "--count", (n - k + 2) // 3, "--hashes"] + (["--aslr"] if engine == "lce" else [])) for k in range(3)]
        runs = []
        for p in ps:
            try:
                o, _ = p.communicate(timeout=400)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                raise Trouble("the determinism gate timed out")
            runs.append({l.split()[1]: l.split()[:7] + [l.split(" ", 7)[-1]] for l in o.splitlines() if l.startswith(("OK ", "VIOL "))})
        a, b = runs[0], {}
        for r in runs[1:]:
            b.update(r)
        for s in sorted(set(a) & set(b), key=int):
            if a[s][0] == "OK" and b[s][0] == "OK" and a[s][:7] != b[s][:7]:
                bad.append((int(s), variant, a[s], b[s]))
    return bad


def check(prop, tier, seed):
    t0 = time.time()
    p = PROPERTIES[prop]
    engine, profile = p["engine"], p["profile"]
    e = ENGINES[engine]
    limit = float(os.environ.get("LCE_TIME", p["quick_s"] if tier == "quick" else p["thorough_s"]))
    outs = {v: build(engine, v) for v in e["variants"]}
    built = time.time() - t0
    first = seed * 1000000007 + 1
    print("%s: %s tier, VERIF_SEED %d, first seed %d, simulator built in %.1f s" % (prop, tier, seed, first, built), flush=True)
    t1 = time.time()
    gate_n = p.get("gate", 24)
    bad = determinism(engine, outs, profile, first, gate_n)
    gate_s = time.time() - t1
    rc, viol = 0, None
    variants = list(outs)
    procs = []
    hashdir = os.path.join(VERIF, "build", "hashes-%s-%d" % (prop, os.getpid()))
    os.makedirs(hashdir, exist_ok=True)
    for k in range(JOBS):
        variant = variants[k % len(variants)]
        procs.append((variant, start(engine, outs[variant], profile,
                                     ["--seed", first + k, "--stride", JOBS, "--count", 10**9, "--time", limit, "--dump",
                                      "--hashfile", os.path.join(hashdir, str(k))])))
    texts = {}
    deadline = time.time() + limit + 150
    import threading

    def drain(i, pr):
        texts[i] = pr.communicate()

    ths = [threading.Thread(target=drain, args=(i, pr)) for i, (_, pr) in enumerate(procs)]
    for t in ths:
        t.start()
    stopped = False
    while any(t.is_alive() for t in ths):
        time.sleep(0.05)
        done = [i for i in texts if procs[i][1].returncode == 1]
        if (done and not stopped) or time.time() > deadline:
            # let the others finish the run they are in
            for _, pr in procs:
                if pr.poll() is None:
                    try:
                        os.killpg(pr.pid, signal.SIGTERM)
                    except ProcessLookupError:
                        pass
            stopped = True
            time.sleep(0.3)
    for t in ths:
        t.join()
    counts, summaries, errors = {}, [], []
    for i, (variant, pr) in enumerate(procs):
        o, err = texts[i]
        v, c, s = parse(o, variant)
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        if s:
            summaries.append(s)
        if v:
            v.first = first + i
        if v and (viol is None or v.seed < viol.seed):
            viol = v
        if pr.returncode not in (0, 1, -15) or (not s and not stopped):
            errors.append("worker %d ended with %s: %s" % (i, pr.returncode, (o + err)[-1500:]))
    hist, sched, shapes = set(), set(), set()
    for f in os.listdir(hashdir):
        b = open(os.path.join(hashdir, f), "rb").read()
        for k in range(0, len(b) - len(b) % 24, 24):
            x, y, z = struct.unpack_from("<QQQ", b, k)
            hist.add(x)
            sched.add(y)
            shapes.add(z)
    shutil.rmtree(hashdir, ignore_errors=True)
    runs = int(sum(s.get("runs", 0) for s in summaries))
    wall = time.time() - t0
    paths = []
    if viol:
        paths.append(report(prop, engine, outs[viol.variant], profile, viol))
        rc = 1
    elif bad:
        s, variant, a, b = bad[0]
        if a[5] != b[5]:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d-repeat.json" % (prop, variant, s))
            json.dump({"property": prop, "engine": engine, "variant": variant, "profile": profile, "seed": s, "repeat": True,
                       "dropped_events": [], "max_switches": None, "message": "two executions of the same seed gave different results",
                       "first": a, "second": b}, open(path, "w"), indent=1)
            print("two executions of seed %d (same inputs, schedule and faults) gave different results" % s)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            paths.append(path)
            rc = 1
        else:
            errors.append("the simulator is not deterministic: %r" % (bad[0],))
    if errors and rc == 0:
        for x in errors:
            print("TROUBLE:", x)
        rc = 4
    if runs == 0 and rc == 0:
        print("TROUBLE: nothing was explored")
        rc = 4
    # samples: the first runs of this check, written out
    samples = []
    if rc == 0:
        for k in range(2):
            variant = variants[k % len(variants)]
            _, tr = one(engine, outs[variant], profile, first + k, verbose=True)
            samples.append({"seed": first + k, "variant": variant, "trace": tr.splitlines()[:40]})
    else:
        samples.append({"violation": viol.message if viol else "", "replays": paths})
    known = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if "property=%s " % prop in l] if os.path.exists(
        os.path.join(VERIF, "known_findings.txt")) else []
    search = max(1e-9, wall - built - gate_s)
    zero = [c for c in p.get("expect", []) if not counts.get(c)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(hist), "rule": p["rule"],
              "samples": samples,
              "runs_per_hour": int(runs / search * 3600), "seeds_first": first, "seeds_stride": "consecutive, one stream per worker",
              "simulated_time": ("simulated clock moved %.0f seconds forwards and backwards; " % (counts["simulated_milliseconds"] / 1000) if "simulated_milliseconds" in counts else "no clock or timer exists in this code; ") + "progress is counted in steps: %s" % counts.get("steps", counts.get("simulated_steps", 0)),
              "counters": counts, "faults_injected": {k: v for k, v in counts.items() if k.startswith(("fault_", "cancelled", "cache_ev", "cache_cl"))},
              "distinct_schedules": len(sched), "distinct_shapes": len(shapes),
              "distinct_schedules_rule": "hash of the sequence of (task switched to, step) pairs; runs without a switch share one value",
              "distinct_shapes_rule": p.get("shape_rule", "hash of the generated structure (operators, sizes, options)"),
              "determinism_gate": {"seeds_run_twice": gate_n * len(variants), "mismatches": len(bad)},
              "never_reached": zero,
              "real_components": p.get("real", e["real"]), "stub_components": p.get("stubs", e["stubs"]),
              "known_findings": known},
          "assumptions": p.get("assumptions", e["assumptions"]), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in known:
        if l.startswith("known:"):
            # its input is run again: a defect that is gone is not printed
            tag = re.search(r"\[([^\]]+)\]", l).group(1)
            _, o, _ = run(engine, next(iter(outs.values())), profile, ["--known"], 120)
            if "KNOWN %s fails" % tag in o.splitlines():
                print("KNOWN-FINDING: " + l[len("known:"):].strip())
    print("%s: %d runs, %d distinct histories, %d schedules, %d shapes, %.1f s%s" % (
        prop, runs, len(hist), len(sched), len(shapes), wall, "" if not zero else ", never reached: " + ", ".join(zero)))
    return rc


def replay(path):
    r = json.load(open(path))
    out = build(r["engine"], r["variant"])
    if r.get("repeat"):
        bad = determinism(r["engine"], {r["variant"]: out}, r["profile"], r["seed"], 3)
        print("reproduced" if bad else "not reproduced")
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if bad else 0
    if "first_seed" in r:
        global JOBS
        JOBS = r["stride"]
        v, trace = several(r["engine"], out, r["profile"], r["first_seed"], r["seed"]), ""
        if v is not None and v.seed != r["seed"]:
            v = None
    else:
        v, trace = one(r["engine"], out, r["profile"], r["seed"], r["dropped_events"], r["max_switches"], verbose=True)
    sys.stdout.write(trace)
    if v is None:
        print("not reproduced: the run held")
        return 0
    print(v.message)
    print("exactly the recorded execution" if v.hash == r["hash"] and v.message == r["message"] else "another execution than the recorded one (the code or the simulator changed)")
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main():
    a = argparse.ArgumentParser()
    a.add_argument("what", choices=["check", "replay", "build"])
    a.add_argument("arg")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    n = a.parse_args()
    try:
        if n.what == "replay":
            return replay(n.arg)
        if n.what == "build":
            for v in ENGINES[n.arg]["variants"]:
                print(build(n.arg, v))
            return 0
        return check(n.arg, n.tier, int(os.environ.get("VERIF_SEED", "1")))
    except Trouble as t:
        print("TROUBLE:", t)
        return 4


if __name__ == "__main__":
    sys.exit(main())
