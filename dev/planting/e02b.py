exec(open('/tmp/mk/e02.py').read()); EDITS=[e for e in EDITS if e[0] in("ok-inline-index","poly")]
