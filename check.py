#!/usr/bin/env python3
"""Decides one property: build from /repo's working tree, generate cases on 8 workers, confirm + shrink failures.

  check.py C01 [--tier quick|thorough]     run the check (VERIF_SEED / VERIF_TIER are honoured)
  check.py replay FILE [--verbose]         re-run one saved failure
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

import build
from registry import CHECKS, RULES, ASSUMPTIONS

VERIF = build.VERIF
WORKERS = 8

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0:symbolize=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:report_signal_unsafe=0:suppress_equal_stacks=0:history_size=4"

# layout of mc::Shared
HDR = struct.Struct("<8sQQIIIIQQ64s128s4000s4000s")


def read_state(path):
    data = open(path, "rb").read()
    (magic, cases, index, failed, np_, ns, running, nontrivial, distinct, scen, tags, msg, desc) = HDR.unpack_from(data, 0)
    off = HDR.size
    z = lambda b: b.split(b"\0", 1)[0].decode("latin1")
    P = list(struct.unpack_from("<%dI" % np_, data, off))
    S = list(struct.unpack_from("<%dI" % ns, data, off + 4 * 4096))
    return dict(cases=cases, index=index, failed=failed, running=running, nontrivial=nontrivial, distinct=distinct,
                scenario=z(scen), tags=[t for t in z(tags).split(",") if t], msg=z(msg), describe=z(desc), P=P, S=S)


def crash_summary(log):
    try:
        text = open(log, errors="replace").read()
    except OSError:
        return "crash"
    for pat in (r"SUMMARY: .*", r"runtime error: .*", r"terminate called.*", r"ERROR: .*"):
        m = re.search(pat, text)
        if m:
            s = m.group(0)
            s = re.sub(r"0x[0-9a-f]+", "0x..", s)
            return s[:300]
    return (text.strip().splitlines() or ["crash"])[-1][:300]


class Job:
    def __init__(self, spec):
        self.spec = spec
        self.mode = spec["mode"]
        self.binary = None

    def build(self):
        s = self.spec
        if s.get("kind", "mc") == "mc":
            self.binary = build.build_mc(self.mode, s["props"], s.get("variant", "st1"))
        else:
            self.binary = build.build_fault(self.mode, s["props"], s["backend"])
        return self.binary


class Failure:
    def __init__(self, job, tags, msg, scen, P, S, crash):
        self.job, self.tags, self.msg, self.scenario, self.P, self.S, self.crash = job, tags, msg, scen, P, S, crash


def outcome(job, rc, state_path, log):
    """None if the run was clean, else a Failure"""
    if rc == 0:
        return None
    st = read_state(state_path)
    if rc == 10 or st["failed"]:
        tags, msg, crash = st["tags"], st["msg"], False
    else:
        if rc == 3:
            raise RuntimeError("worker usage error: " + open(log, errors="replace").read()[-500:])
        tags = list(st["tags"])
        if "C03" not in tags:
            tags.append("C03")
        msg = "crash (exit status %d): %s" % (rc, crash_summary(log))
        crash = True
    if "data race" in msg:
        msg += ": " + crash_summary(log)
    return Failure(job, tags, msg, st["scenario"], st["P"], st["S"], crash)


def write_tape(path, scen, P, S, header=()):
    with open(path, "w") as f:
        for h in header:
            f.write("# " + h.replace("\n", " ") + "\n")
        f.write("scenario %s\nP %s\nS %s\n" % (scen, " ".join(map(str, P)),
                                              " ".join("%d:%d" % (i, v) for i, v in enumerate(S) if v)))


class Replayer:
    def __init__(self, job, tmp):
        self.job, self.tmp, self.n = job, tmp, 0

    def run(self, scen, P, S, timeout=60):
        tape = os.path.join(self.tmp, "tape")
        state = os.path.join(self.tmp, "rstate")
        log = os.path.join(self.tmp, "rlog")
        write_tape(tape, scen, P, S)
        self.n += 1
        with open(log, "w") as lf:
            try:
                p = subprocess.run([self.job.binary, "--replay", tape, "--state", state], stdout=lf, stderr=lf, env=ENV,
                                   timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                return None
        return outcome(self.job, rc, state, log)


def shrink(rep, prop, fail, budget):
    """Smallest (P, S) found that still violates prop in the same scenario"""
    t0 = time.time()

    def bad(P, S):
        if time.time() - t0 > budget:
            return False
        f = rep.run(fail.scenario, P, S, 30)
        return f is not None and prop in f.tags and "HARNESS" not in f.tags

    P, S = list(fail.P), list(fail.S)
    # the schedule first: zero chunks of decisions
    nz = [i for i, v in enumerate(S) if v]
    if bad(P, []):
        S, nz = [], []
    chunk = max(1, len(nz) // 2)
    while nz and time.time() - t0 < budget:
        changed = False
        i = 0
        while i < len(nz):
            drop = set(nz[i:i + chunk])
            T = [0 if k in drop else v for k, v in enumerate(S)]
            if bad(P, T):
                S = T
                nz = [k for k in nz if k not in drop]
                changed = True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2)
    for i in range(len(P)):
        for v in ([0] if P[i] > 1 else []) + ([P[i] - 1] if P[i] else []):
            T = P[:i] + [v] + P[i + 1:]
            if bad(T, S):
                P = T
                break
    for i in [k for k, v in enumerate(S) if v]:
        T = S[:i] + [0] + S[i + 1:]
        if bad(P, T):
            S = T
    while P and P[-1] == 0:
        P.pop()
    while S and S[-1] == 0:
        S.pop()
    return P, S


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def match_known(known, prop, fail):
    for k in known:
        if k["property"] == prop and k["scenario"] == fail.scenario and re.search(k["message"], fail.msg):
            return k
    return None


def run_job(job, prop, tier, seed, seconds, tmp, stats, known, deadline):
    """Runs one job on all workers; returns a confirmed Failure for prop or None"""
    seen = os.path.join(tmp, "seen")
    if os.path.exists(seen):
        os.unlink(seen)
    filt = job.spec["filter"]
    t_end = min(time.time() + seconds, deadline)
    workers = {}
    fails = []

    def start(w, first):
        state = os.path.join(tmp, "state%d" % w)
        log = os.path.join(tmp, "log%d" % w)
        out = os.path.join(tmp, "out%d" % w)
        for p in (state, out):
            if os.path.exists(p):
                os.unlink(p)
        left = t_end - time.time()
        if left < 0.5:
            return
        lf = open(log, "w")
        p = subprocess.Popen([job.binary, "--filter", filt, "--seed", str(seed), "--start", str(first), "--stride",
                              str(WORKERS), "--time", "%.1f" % left, "--state", state, "--out", out, "--seen", seen],
                             stdout=lf, stderr=lf, env=ENV)
        lf.close()
        workers[w] = (p, state, log, out)

    for w in range(WORKERS):
        start(w, w)
    foreign = 0
    while workers and not fails:
        time.sleep(0.02)
        for w, (p, state, log, out) in list(workers.items()):
            rc = p.poll()
            if rc is None:
                if time.time() > t_end + 60:
                    p.kill()
                    p.wait()
                    del workers[w]
                    stats["hung_workers"] = stats.get("hung_workers", 0) + 1
                continue
            del workers[w]
            if rc == 0 and os.path.exists(out):
                o = json.load(open(out))
                merge_stats(stats, o)
                continue
            st = read_state(state) if os.path.exists(state) else None
            f = outcome(job, rc, state, log)
            stats["evaluations"] += st["cases"] + 1
            stats["nontrivial"] += st["nontrivial"]
            stats["distinct"] += st["distinct"]
            if f is None:
                continue
            if "HARNESS" in f.tags:
                raise RuntimeError("harness error: " + f.msg)
            k = match_known(known, prop, f)
            if prop in f.tags and k is None:
                fails.append(f)
            else:
                if k is not None and prop in f.tags:
                    stats["known"][k["id"]] = k
                foreign += 1
                stats["foreign"] = stats.get("foreign", 0) + 1
                key = "%s %s: %s" % (",".join(f.tags), f.scenario, f.msg[:120])
                stats["foreign_examples"][key] = stats["foreign_examples"].get(key, 0) + 1
                # keep exploring behind it; a scenario that only ever fails elsewhere must not eat the budget
                if foreign < 400:
                    start(w, st["index"] + WORKERS)
    for p, *_ in workers.values():
        p.kill()
        p.wait()
    if os.path.exists(seen):
        os.unlink(seen)
    return fails[0] if fails else None


def merge_stats(stats, o):
    stats["evaluations"] += o["cases"]
    stats["nontrivial"] += o["nontrivial"]
    stats["distinct"] += o["distinct"]
    stats["steps"] += o["steps"]
    stats["switched"] += o["switched"]
    for k, v in o["scenarios"].items():
        a = stats["scenarios"].setdefault(k, [0, 0])
        a[0] += v[0]
        a[1] += v[1]
    for k, v in o["labels"].items():
        stats["labels"][k] = stats["labels"].get(k, 0) + v
    for s in o["samples"]:
        name = s.split(":", 1)[0]
        have = [x for x in stats["samples"] if x.split(":", 1)[0] == name]
        if len(have) < 3 and len(stats["samples"]) < 40:
            stats["samples"].append(s)


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    jobs = [Job(s) for s in spec["jobs"] if tier in s.get("tiers", ("quick", "thorough"))]
    stats = dict(evaluations=0, nontrivial=0, distinct=0, steps=0, switched=0, scenarios={}, labels={}, samples=[],
                 foreign_examples={}, known={})
    known = load_known()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    violation = None
    unrepro = []
    try:
        for j in jobs:
            j.build()
        build_s = time.time() - t0
        budget = spec["time"][tier]
        total_w = sum(j.spec.get("share", 1) for j in jobs)
        for n, j in enumerate(jobs):
            secs = budget * j.spec.get("share", 1) / total_w
            first_seed = seed + 7919 * n  # different cases in every job
            end = time.time() + secs
            rounds = 0
            while time.time() < end - 1 and violation is None and rounds < 4:
                f = run_job(j, prop, tier, first_seed, end - time.time(), tmp, stats, known, time.time() + 3600)
                if f is None:
                    break
                rounds += 1
                rep = Replayer(j, tmp)
                confirmed = 0
                for _ in range(3):
                    g = rep.run(f.scenario, f.P, f.S)
                    confirmed += g is not None and prop in g.tags
                # a run that depends on addresses or on the time of day is what C17 is about: once more is enough
                if confirmed < (1 if prop == "C17" else 3):
                    unrepro.append("%s: %s (reproduced %d/3)" % (f.scenario, f.msg, confirmed))
                    first_seed += 1000003
                    continue
                P, S = shrink(rep, prop, f, 40 if tier == "quick" else 120)
                g = None
                ok = 0
                for _ in range(3):
                    g2 = rep.run(f.scenario, P, S)
                    if g2 is not None and prop in g2.tags:
                        ok += 1
                        g = g2
                if ok < 3:
                    P, S, g = f.P, f.S, f
                violation = (j, g, P, S, f)
            if violation:
                break
        wall = time.time() - t0
        cov = dict(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct"], rule=RULES[prop],
                   samples=stats["samples"][:40] or ["(no sample: the run stopped at its first case)"],
                   nontrivial=stats["nontrivial"], schedule_points=stats["steps"],
                   per_scenario={k: dict(cases=v[0], nontrivial=v[1]) for k, v in sorted(stats["scenarios"].items())},
                   labels=dict(sorted(stats["labels"].items())), build_s=round(build_s, 1),
                   jobs=[{k: v for k, v in j.spec.items() if k != "props"} for j in jobs],
                   failures_of_other_properties=stats["foreign_examples"], not_reproduced=unrepro)
        if not any(j.spec.get("kind") == "fault" for j in jobs):
            cov["cases_with_a_context_switch"] = stats["switched"]
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=ASSUMPTIONS.get(prop, ASSUMPTIONS["*"]), wall_s=round(wall, 1),
                  violations=1 if violation else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in stats["known"].values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("%s %s: %d cases, %d non-trivial (%d distinct), build %.0fs, total %.0fs%s" % (
            prop, tier, stats["evaluations"], stats["nontrivial"], stats["distinct"], build_s, wall,
            ", %d failures of other properties" % stats.get("foreign", 0) if stats.get("foreign") else ""))
        for u in unrepro:
            print("not reproduced:", u)
        if violation:
            j, g, P, S, orig = violation
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha256(repr((g.scenario, P, S)).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s-%s.tape" % (prop, j.mode, h))
            nz = sum(1 for v in S if v)
            write_tape(path, g.scenario, P, S, ["property " + prop, "failure " + g.msg, "job " + json.dumps(j.spec),
                                                "shrunk: %d program choices, %d scheduling decisions differ from the default (was %d, %d)"
                                                % (len(P), nz, len(orig.P), sum(1 for v in orig.S if v)),
                                                "replay: python3 /verif/check.py replay " + path + " --verbose"])
            print("%s: %s" % (g.scenario, g.msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path, verbose):
    spec = None
    for line in open(path):
        if line.startswith("# job "):
            spec = json.loads(line[6:])
    j = Job(spec)
    j.build()
    p = subprocess.run([j.binary, "--replay", path] + (["--verbose"] if verbose else []), env=ENV)
    print("exit status", p.returncode)
    return 1 if p.returncode else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2], "--verbose" in sys.argv)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
