#!/usr/bin/env python3
"""Hand-written rewrites (same behaviour: quiet) and faults (reported): python3 dev/variants.py [name]

Each dev/variants/*.py defines FILE, PROPS and a list CASES of (name, "ok" | "bug", [(old, new), ...])."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
want = sys.argv[1:] or None
bad = 0
for fn in sorted(os.listdir(os.path.join(HERE, "variants"))):
    if not fn.endswith(".py") or want and fn[:-3] not in want:
        continue
    sp = importlib.util.spec_from_file_location("v", os.path.join(HERE, "variants", fn))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for name, kind, edits, *props in m.CASES:
        d = tempfile.mkdtemp(prefix="var", dir="/tmp")
        try:
            shutil.copytree("/repo/elsie", d + "/elsie", ignore=shutil.ignore_patterns("__pycache__"))
            missing = None
            for old, new, *file in edits:
                p = os.path.join(d, file[0] if file else m.FILE)
                s = open(p, encoding="utf-8").read()
                if old not in s:
                    missing = old[:60]
                s = s.replace(old, new)
                compile(s, p, "exec")
                open(p, "w", encoding="utf-8").write(s)
            out = []
            for prop in (props[0] if props else m.PROPS):
                r = subprocess.run([sys.executable, os.path.join(HERE, "..", "sa", "check.py"), prop], env=dict(os.environ, ELSIE_SA_REPO=d),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out.append((prop, r.returncode, r.stdout))
            hit = [p for p, rc, _ in out if rc == 1]
            err = [p for p, rc, _ in out if rc not in (0, 1)]
            und = [p for p, rc, o in out if "  undecided" in o]
            good = not missing and not err and (bool(hit) == (kind == "bug"))
            bad += not good
            print("{} {}: {} [{}] reported by {}{}{}{}".format("  " if good else "!!", fn[:-3], name, kind, ",".join(hit) or "-",
                  " undecided in " + ",".join(und) if und else "", " ERROR in " + ",".join(err) if err else "", " MISSING TEXT " + missing if missing else ""))
            if not good and not missing:
                for p, rc, o in out:
                    print("      " + "\n      ".join(x[:250] for x in o.splitlines()[1:6]))
        finally:
            shutil.rmtree(d)
print(bad, "unexpected")
