#!/usr/bin/env python3
"""seed_verify.py ID...: confirms planted bugs: patch applies, builds, stable tests pass, demo fails with / passes without.
Each runs in a private mount namespace with a copy of /repo bound over /repo, so several can be confirmed at once."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def ns(copy, cmd, timeout=900):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", 'mount --bind "$0" /repo && cd /repo && ' + cmd, copy],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def verify(bug):
    d = os.path.join(SEEDED, bug)
    copy = "/tmp/seedv-" + bug
    subprocess.run(["rm", "-rf", copy]); subprocess.run(["cp", "-a", "/repo", copy], check=True)
    demo = "/tmp/seedd-" + bug
    subprocess.run(["rm", "-rf", demo]); shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = []
        p = ns(copy, "git status --short | head -3; timeout 300 bash %s/demo.sh" % demo)
        r.append(("demo on unchanged tree passes", p.returncode == 0, p.stdout[-500:]))
        p = ns(copy, "git apply %s/patch.diff && git diff --stat" % d)
        r.append(("applies", p.returncode == 0, p.stdout))
        if p.returncode == 0:
            p = ns(copy, "timeout 300 bash %s/demo.sh" % demo)
            r.append(("demo with the patch fails", p.returncode != 0, p.stdout[-500:]))
            if "--demo" not in sys.argv and all(x[1] for x in r):
                p = ns(copy, "bash /opt/vp/test.sh /tmp/seedv-%s.json" % bug, 1800)
                try:
                    o = json.load(open("/tmp/seedv-%s.json" % bug))
                    failed = sorted(stable - set(o["passed"]))
                except Exception as e:
                    failed = [repr(e), p.stdout[-1500:]]
                r.append(("stable tests pass", not failed, str(failed)[:1500]))
        return bug, r
    finally:
        subprocess.run(["rm", "-rf", copy, demo])

ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
with cf.ThreadPoolExecutor(3) as ex:
    for bug, r in ex.map(verify, ids):
        ok = all(x[1] for x in r)
        print(("OK   " if ok else "BAD  ") + bug, flush=True)
        for name, good, text in r:
            if not good or "-v" in sys.argv:
                print("   ", name, good, text)
