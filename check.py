#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROP                     search (tier from --tier or VERIF_TIER, seed from VERIF_SEED)
  check.py PROP --replay FILE       re-executes a replay file
  check.py --build                  only builds the simulator

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
WORKERS = 8
PROFILES = ["checked", "wrapping"]
# runs per tier; a wall-clock cap applies on top (seconds of search)
RUNS = {p: 40_000 for p in ["C%02d" % i for i in range(1, 20)]}
RUNS.update(json.load(open(os.path.join(HERE, "runs.json"))) if os.path.exists(os.path.join(HERE, "runs.json")) else {})
CAP = {"quick": 60, "thorough": 540}
THOROUGH = 60
REAL = ["all of mp4ameta (library, proc macros)", "std::fs and std::io above the system call (File, BufReader, BufWriter, read_exact, write_all, ...)"]
STUB = ["kernel file system calls (open, read, write, lseek, ftruncate, stat, fsync, close, rename, unlink, ...): in-memory simulated storage",
        "clock and random numbers: simulated", "thread scheduling at system calls: simulated scheduler (C17)",
        "allocator: accounting wrapper around the system allocator"]


def binary(profile):
    return os.path.join(HERE, "target-" + profile, profile, "sim")


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def build():
    env = dict(os.environ, RUSTFLAGS="--cap-lints warn", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    ps = []
    for p in PROFILES:
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", p, "--target-dir", os.path.join(HERE, "target-" + p)]
        ps.append((p, subprocess.Popen(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for p, pr in ps:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            die("the simulator does not build (%s):\n%s" % (p, out[-3000:]))


def known_classes(prop):
    """Known findings: 'known: property=<id> class=<class> <what fails>'."""
    res = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def try_tape(prop, profile, tape, trace=False, timeout=60):
    """Returns (class or None, message, used tape, loghash, trace lines)."""
    return attempt_run([binary(profile), "try", prop] + (["trace"] if trace else []), tape, timeout)


def try_seq(prop, profile, seed, runs, trace=False, timeout=120):
    """The outcome of the last of several runs in one process."""
    return attempt_run([binary(profile), "seq", prop, str(seed)] + (["trace"] if trace else []), runs, timeout)


def attempt_run(cmd, tape, timeout):
    try:
        r = subprocess.run(cmd, input=",".join(map(str, tape)), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "the run does not end", list(tape), "", []
    used, h, tr, v = list(tape), "", [], None
    for l in r.stdout.split("\n"):
        if l.startswith("T "):
            tr.append(l[2:])
        elif l.startswith("U "):
            used = [int(x) for x in l[2:].split(",") if x]
        elif l.startswith("H "):
            h = l[2:]
        elif l.startswith("V "):
            v = l[2:].split("\t", 1)
    if r.returncode == 1 and v:
        return v[0], v[1], used, h, tr
    if r.returncode == 0:
        return None, "", used, h, tr
    if r.returncode == 97:
        return "hang", "the run does not end: " + r.stderr.strip()[-300:], used, h, tr
    if r.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGTRAP):
        return "abort", "the process dies with %s: %s" % (signal.Signals(-r.returncode).name, r.stderr.strip()[-300:]), used, h, tr
    return "!harness", "exit %d: %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-300:]), used, h, tr


def strip0(t):
    t = list(t)
    while t and t[-1] == 0:
        t.pop()
    return t


def key(t):
    return (len(t), sum(x.bit_length() for x in t), t)


def minimise(prop, profile, tape, cls, budget):
    end = time.time() + budget
    best = strip0(tape)
    tried = set()
    n = 0
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        def attempt(cands):
            """First candidate (in order) that still fails the same way."""
            nonlocal best, n
            cands = [c for c in cands if key(c) < key(best)]
            out = []
            for c in cands:
                h = tuple(c)
                if h not in tried:
                    tried.add(h)
                    out.append(c)
            for i in range(0, len(out), WORKERS):
                if time.time() > end:
                    return False
                part = out[i:i + WORKERS]
                for c, r in zip(part, ex.map(lambda c: try_tape(prop, profile, c, timeout=25), part)):
                    n += 1
                    if r[0] == cls:
                        u = strip0(r[2])
                        best = u if key(u) < key(c) else c
                        return True
            return False
        again = True
        while again and time.time() < end:
            again = False
            # shorter tapes
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(best) and time.time() < end:
                    starts = [i + k * size for k in range(WORKERS) if i + k * size < len(best)]
                    if attempt([strip0(best[:s] + best[s + size:]) for s in starts]):
                        again = True
                        continue
                    i += size * WORKERS
                size //= 2
            # lower entries
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(best) and time.time() < end:
                    starts = [i + k * size for k in range(WORKERS) if i + k * size < len(best)]
                    c = [strip0(best[:s] + [0] * len(best[s:s + size]) + best[s + size:]) for s in starts]
                    if attempt([x for x in c if x != best]):
                        again = True
                        continue
                    i += size * WORKERS
                size //= 2
            i = 0
            while i < len(best) and time.time() < end:
                v = best[i]
                if v > 1:
                    lo, ok = 0, v
                    while ok - lo > 1 and time.time() < end:
                        mid = (lo + ok) // 2
                        b = list(best)
                        if i >= len(b):
                            break
                        b[i] = mid
                        if attempt([b]):
                            again = True
                            ok = mid
                        else:
                            lo = mid
                i += 1
    return best, n


def collect(d):
    tot = dict(runs=0, evals=0, nontrivial=0, steps=0, sim_ns=0, switches=0, crashes=0, restarts=0, rechecked=0, mismatched=0)
    fired, known, samples = {}, {}, []
    logs, shapes, nt = set(), set(), set()
    for w in range(WORKERS):
        f = os.path.join(d, "stats.%d" % w)
        if os.path.exists(f):
            s = json.load(open(f))
            for k in tot:
                tot[k] += s[k]
            for k, v in s["fired"].items():
                fired[k] = fired.get(k, 0) + v
            for k, v in s["known"].items():
                known[k] = known.get(k, 0) + v
            samples += s["samples"]
        f = os.path.join(d, "hashes.%d" % w)
        if os.path.exists(f):
            b = open(f, "rb").read()
            for i in range(0, len(b) - 16, 17):
                logs.add(b[i:i + 8])
                shapes.add(b[i + 8:i + 16])
                if b[i + 16]:
                    nt.add(b[i:i + 8])
    return tot, fired, known, samples, logs, shapes, nt


def search(prop, seed, tier, runs, cap):
    t0 = time.time()
    known = known_classes(prop)
    d = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        with open(os.path.join(d, "bound"), "wb") as f:
            f.write(b"\xff" * 8)
        ps = []
        per = max(1, runs // WORKERS)
        for w in range(WORKERS):
            prof = PROFILES[w % 2]
            err = open(os.path.join(d, "err.%d" % w), "w")
            cmd = [binary(prof), "worker", prop, str(seed), str(w), str(WORKERS), str(per), str(cap), d, str(w), ";".join(known)]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, cwd=d))
        cands, problems = [], []
        deadline = time.time() + cap + 150
        for w, p in enumerate(ps):
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problems.append("worker %d stalled" % w)
                continue
            err = open(os.path.join(d, "err.%d" % w), errors="replace").read()[-600:]
            if rc == 0:
                continue
            if rc == 1 and os.path.exists(os.path.join(d, "viol.%d" % w)):
                v = json.load(open(os.path.join(d, "viol.%d" % w)))
                cands.append((v["run"], w, v["class"], v["message"], v["tape"]))
            elif rc == 97 or rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGTRAP):
                run = int(open(os.path.join(d, "progress.%d" % w)).read().split()[0])
                cands.append((run, w, "hang" if rc == 97 else "abort", err, None))
                # tell the others
                with open(os.path.join(d, "bound"), "r+b") as f:
                    cur = int.from_bytes(f.read(8), "little")
                    if run < cur:
                        f.seek(0)
                        f.write(run.to_bytes(8, "little"))
            else:
                h = os.path.join(d, "harness.%d" % w)
                problems.append("worker %d: exit %d: %s%s" % (w, rc, open(h).read() if os.path.exists(h) else "", err))
        stats = collect(d)
        wall = time.time() - t0
        replay = None
        viols = 0
        if cands:
            cands.sort(key=lambda c: c[0])
            viols = len(cands)
            run, w, cls, msg, tape = cands[0]
            prof = PROFILES[w % 2]
            if tape is None:
                f = os.path.join(d, "tape")
                try:
                    subprocess.run([binary(prof), "tape", prop, str(seed), str(run), f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except subprocess.TimeoutExpired:
                    pass
                tape = [int(x) for x in open(f).read().split()] if os.path.exists(f) else []
            replay = report(prop, seed, run, w, prof, cls, msg, tape, tier)
        return stats, wall, replay, viols, problems, known
    finally:
        shutil.rmtree(d, ignore_errors=True)


def report_seq(prop, seed, run, w, prof, cls, msg, tier):
    """A violation that needs what earlier runs left behind in the process: replayed with that history."""
    runs = []
    for i, n in enumerate(range(w, run + 1, WORKERS)):
        runs += [n, n] if i % 101 == 7 and n != run else [n]
    r = try_seq(prop, prof, seed, runs, timeout=400)
    if r[0] is None or r[0] == "!harness":
        die("run %d (%s: %s) does not reproduce, neither alone nor with the runs before it: %s" % (run, cls, msg, r[1]))
    end = time.time() + (45 if tier == "quick" else 120)
    cls = r[0]
    size = len(runs) // 2
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(runs) - 1 and time.time() < end:
            c = runs[:i] + runs[min(i + size, len(runs) - 1):]
            if try_seq(prop, prof, seed, c, timeout=60)[0] == cls:
                runs = c
            else:
                i += size
        size //= 2
    r = try_seq(prop, prof, seed, runs, trace=True, timeout=400)
    return write_replay(prop, seed, run, prof, r, {"runs": runs})


def write_replay(prop, seed, run, prof, r, what):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = "%s-%s-%d-%d-%s.json" % (prop, prof, seed, run, hashlib.sha256(repr(what).encode()).hexdigest()[:8])
    path = os.path.join(HERE, "replays", name)
    tr = r[4]
    if len(tr) > 1500:
        tr = tr[:600] + ["... %d lines left out ..." % (len(tr) - 1200)] + tr[-600:]
    v = {"property": prop, "profile": prof, "seed": seed, "run": run, "class": r[0], "message": r[1], "loghash": r[3]}
    v.update(what)
    v["trace"] = tr
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    print("%s: %s" % (r[0], r[1][:2000]))
    for l in tr[-40:]:
        print("  | " + l[:220])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return path


def report(prop, seed, run, w, prof, cls, msg, tape, tier):
    r = try_tape(prop, prof, tape)
    if r[0] is None or r[0] == "!harness":
        return report_seq(prop, seed, run, w, prof, cls, msg, tier)
    cls, msg = r[0], r[1]
    best, n = minimise(prop, prof, tape, cls, 45 if tier == "quick" else 120)
    r = try_tape(prop, prof, best, trace=True)
    if r[0] != cls:
        best = tape
        r = try_tape(prop, prof, best, trace=True)
    return write_replay(prop, seed, run, prof, r, {"tape": best, "original_tape_length": len(tape), "minimisation_attempts": n})


def do_replay(prop, path):
    v = json.load(open(path))
    prop = prop or v["property"]
    if "runs" in v:
        r = try_seq(prop, v["profile"], v["seed"], v["runs"], trace=True, timeout=400)
    else:
        r = try_tape(prop, v["profile"], v["tape"], trace=True)
    for l in r[4]:
        print("  | " + l[:300])
    if r[0] is None:
        print("held: the replayed execution shows no violation")
        return 0
    if r[0] == "!harness":
        die(r[1])
    same = r[0] == v["class"] and (not v.get("loghash") or r[3] == v["loghash"])
    print("%s: %s%s" % (r[0], r[1], "" if same else " (not identical to the recorded execution)"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=int)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if not a.no_build:
        build()
    if a.build:
        return 0
    if a.replay:
        return do_replay(a.prop, a.replay)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED") or "1")
    runs = a.runs or RUNS[prop] * (1 if a.tier == "quick" else THOROUGH)
    cap = a.seconds or CAP[a.tier]
    print("property %s, tier %s, VERIF_SEED %d, up to %d runs" % (prop, a.tier, seed, runs))
    sys.stdout.flush()
    stats, wall, replay, viols, problems, known = search(prop, seed, a.tier, runs, cap)
    tot, fired, kn, samples, logs, shapes, nt = stats
    meta = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        if p["id"] == prop:
            meta = p
    rules = json.load(open(os.path.join(HERE, "rules.json")))
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nt),
            "rule": rules[prop],
            "samples": sorted(samples)[:6],
            "oracle_evaluations": tot["evals"],
            "seeds_per_hour": int(tot["runs"] / wall * 3600) if wall else 0,
            "runs_per_hour": int(tot["runs"] / wall * 3600) if wall else 0,
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "simulated_system_calls": tot["steps"],
            "faults_fired": dict(sorted(fired.items())),
            "process_crashes": tot["crashes"], "restarts": tot["restarts"],
            "thread_switches": tot["switches"],
            "distinct_executions": len(logs),
            "distinct_executions_measure": "hash of the sequence of simulated calls with arguments, results and transferred bytes, outcomes and final file images",
            "distinct_container_structures": len(shapes),
            "determinism_rechecks": tot["rechecked"],
            "determinism_mismatches": tot["mismatched"],
            "profiles": {"checked": "arithmetic overflow traps, debug assertions (half of the runs)", "wrapping": "as release builds (half of the runs)"},
            "real_components": REAL, "stubbed_components": STUB,
            "known_findings_seen": kn,
        },
        "assumptions": ["x86_64 Linux libc calls are the only way std::fs reaches the kernel (verified by the fail-closed interposition)",
                        "sampling, not enumeration: a quiet batch is evidence, not proof"],
        "wall_s": round(time.time() - t0, 2), "violations": viols,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for c, n in kn.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(c, c)))
    print("%d runs, %d oracle evaluations, %d distinct executions, %d non-trivial and distinct, %.1f s of search, %d determinism rechecks"
          % (tot["runs"], tot["evals"], len(logs), len(nt), wall, tot["rechecked"]))
    if replay:
        return 1
    if problems:
        die("; ".join(problems))
    if tot["runs"] == 0:
        die("nothing was explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
