#!/usr/bin/env python3
"""mkseed.py FILE...: writes /verif/seeded/<id>/ from a description file (a python dict literal):
 id, property, file(s) edits [(file, old, new)], needs, breaks, demo (C++), mode (real|fiber|thread), flags, timeout"""
import os, subprocess, sys, json, difflib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the library of the current directory together with demo.cpp and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/yaclib"
sed -e 's/${YACLIB_FAULT}/@FAULT@/' -e 's/${YACLIB_CORO_NEED}/1/' -e 's/${YACLIB_SYMMETRIC_TRANSFER}/@ST@/' \\
    -e 's/${YACLIB_FINAL_SUSPEND_TRANSFER}/@ST@/' -e 's/${[A-Z_]*}/0/' src/config.hpp.in > "$tmp/yaclib/config.hpp"
flags="-std=c++20 -g -O1 -w -pthread -DYACLIB_LOG_DEBUG @FLAGS@ -I$tmp -Iinclude -Isrc"
find src -name '*.cpp' @PRUNE@ | xargs -P8 -I{} sh -c 'g++ '"$flags"' -c {} -o "$0/$(echo {} | tr / _).o"' "$tmp"
g++ $flags "$here/demo.cpp" "$tmp"/*.o -o "$tmp/demo"
timeout @TIMEOUT@ "$tmp/demo"
'''
for path in sys.argv[1:]:
    s = eval(open(path).read())
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    texts = {}
    for f, old, new in s["edits"]:
        t = texts.setdefault(f, [open("/repo/" + f).read()] * 2)
        assert t[1].count(old) == 1, (f, t[1].count(old), old)
        texts[f] = [t[0], t[1].replace(old, new)]
    for f, (a, b) in texts.items():
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    mode = s.get("mode", "real")
    sh = (SH.replace("@FAULT@", dict(real="0", thread="1", fiber="2")[mode]).replace("@ST@", str(s.get("st", 1)))
          .replace("@FLAGS@", s.get("flags", "")).replace("@TIMEOUT@", str(s.get("timeout", 120)))
          .replace("@PRUNE@", dict(real="! -path 'src/fault/*'", thread="! -path 'src/fault/fiber/*'", fiber="")[mode]))
    open(d + "/demo.sh", "w").write(sh)
    open(d + "/demo.cpp", "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
