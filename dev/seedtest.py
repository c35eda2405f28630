"""Tests the planted bugs of seeded/: dev/seedtest.py [--fast] [id ...]
patch applies and changes only lines of the original repository; the tests pass; the demo tells the trees apart; the check reports it."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fast = "--fast" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
BASE = "6d8df76"


def run(cmd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd="/repo", capture_output=True, text=True, timeout=timeout)


def clean():
    run("git checkout -- . && git clean -fdq elsie")


def original(patch):
    bad = []
    blame = {}
    name = None
    line = 0
    for l in open(patch):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            name = l[6:]
            blame[name] = run(f"git blame -s {BASE}.. -- {name}").stdout.splitlines()
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if not blame[name][line - 1].startswith("^"):
                bad.append((name, line))
            line += 1
        elif l.startswith(" ") or l == "":
            line += 1
    return bad


assert not run("git status --porcelain").stdout, "/repo is not clean"
for i in ids:
    d = f"{HERE}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    res = []
    clean()
    r = run(f"bash {d}/demo.sh", 300)
    res.append("demo-ok" if r.returncode == 0 else "DEMO-FAILS-UNPATCHED " + r.stderr[-300:] + r.stdout[-200:])
    try:
        if run(f"git apply {d}/patch.diff").returncode:
            print(i, "PATCH DOES NOT APPLY")
            continue
        b = original(d + "/patch.diff")
        if b:
            res.append(f"NOT-ORIGINAL {b}")
        r = run(f"bash {d}/demo.sh", 300)
        res.append("demo-detects" if r.returncode else "DEMO-PASSES-PATCHED")
        if not fast:
            run("bash /opt/vp/build.sh")
            run("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = json.load(open("/tmp/seedtest.json"))
            want = base.get("stable") or base.get("passed") or base.get("tests") or base
            failed = [t for t in want if t not in set(out.get("passed", []))]
            res.append("tests-pass" if not failed else f"TESTS-FAIL {len(failed)} {failed[:3]}")
        if os.path.exists(f"{HERE}/sa/rules/{meta['property']}.py"):
            r = subprocess.run(["python3", "sa/check.py", meta["property"], "--tier", "quick"], cwd=HERE, capture_output=True, text=True)
            ok = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
            res.append("CAUGHT" if ok else f"MISSED rc={r.returncode} {r.stdout[:200]}")
        else:
            res.append("no rule")
    finally:
        clean()
    print(i, meta["property"], "; ".join(res), flush=True)
