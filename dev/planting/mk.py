import json, os, subprocess, sys, importlib.util
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
for b in m.BUGS:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    d = f"/verif/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd="/repo", check=True)
    for f, old, new in b["edits"]:
        p = f"/repo/elsie/{f}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd="/repo", capture_output=True, text=True).stdout
    subprocess.run("git checkout -q -- .", shell=True, cwd="/repo", check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom helper import *  # noqa\n' + b["demo"].lstrip("\n"))
    open(d + "/helper.py", "w").write(open("/tmp/mk/helper.py").read())
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
