#!/usr/bin/env python3
"""mkseed.py SPEC.py: build seeded/<id>/ from a spec and confirm it in a scratch copy.

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source of the demonstration).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def main(path, checks=True):
    ns = {}
    exec(open(path).read(), ns)
    tmp = tempfile.mkdtemp(prefix="seed_")
    work = os.path.join(tmp, "repo")
    try:
        sh(f"cp -a /repo {work}", "/")
        d = os.path.join(V, "seeded", ns["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TMPDIR="$T" PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py" "$T"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", work)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(work, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", work).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        r1 = sh(f"bash {d}/demo.sh", work)
        base = sh("git log --format=%H --reverse | head -1", work).stdout.strip()
        new = 0
        for f in {e[0] for e in ns["EDITS"]}:
            n = 0
            for l in sh(f"git diff -U0 {f}", work).stdout.splitlines():
                m = __import__("re").match(r"@@ -(\d+)(?:,(\d+))?", l)
                if m and m.group(2) != "0":
                    a, k = int(m.group(1)), int(m.group(2) or 1)
                    b = sh(f"git blame -s -l {base}..HEAD -L {a},{a+k-1} HEAD -- {f}", work).stdout.splitlines()
                    new += sum(1 for x in b if not x.lstrip().startswith("^"))
        if new:
            print("  WARNING: changes", new, "line(s) added by a fix commit")
        t = sh("PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_gcode_interpreter.py::test_setup tests/test_planner_block.py::test_planner_block 2>&1 | tail -3", work)
        print(ns["ID"], "demo clean:", r0.returncode, "demo patched:", r1.returncode, "|", (r1.stderr or r1.stdout).strip().splitlines()[-1:] , "| tests:", t.stdout.strip().splitlines()[-1:])
        if r0.returncode:
            print(r0.stderr[-800:])
        if checks:
            for p in (ns["PROPERTY"],) + tuple(ns.get("ALSO", ())):
                c = sh(f"VERIF_REPO={work} timeout 900 python3 {V}/check.py {p}", V)
                out = c.stdout.strip().splitlines()
                print("   ", p, "rc", c.returncode, *(x[:330] for x in out[:4]), sep="\n      ")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

for a in sys.argv[1:]:
    main(a)
