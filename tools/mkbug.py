#!/usr/bin/env python3
"""Development aid: writes a planted bug from a description file.

A description is a Python file with ID, PROP, NEEDS, BREAKS, PKG, EDITS
(list of (file, old, new)), DEMO (Go test source run in package PKG through
an overlay)."""
import os, subprocess, sys, json, shutil, tempfile
for path in sys.argv[1:]:
    d = {}
    exec(open(path).read(), d)
    out = f"/verif/seeded/{d['ID']}"
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug")
    for f, old, new in d["EDITS"]:
        for side in "ab":
            p = os.path.join(t, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                shutil.copy("/repo/" + f, p)
        p = os.path.join(t, "b", f)
        s = open(p).read()
        n = d.get("COUNT", 1)
        assert s.count(old) >= 1, (path, f, "not found", old)
        if s.count(old) > 1:
            k = d["NTH"]  # which occurrence
            parts = s.split(old)
            s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :])
        else:
            s = s.replace(old, new)
        open(p, "w").write(s)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True)
    diff = r.stdout
    assert diff
    open(out + "/patch.diff", "w").write(diff)
    pkg = d["PKG"]
    open(out + "/demo_test.go", "w").write(d["DEMO"].lstrip())
    os.rename(out + "/demo_test.go", out + "/zz_demo_test.go.txt")
    open(out + "/demo.sh", "w").write(f"""#!/bin/bash
# Runs the demonstration beside this file inside package ./{pkg} of the tree in the current directory.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
cp "$D/zz_demo_test.go.txt" "$T/zz_demo_test.go"
cat > "$T/overlay.json" <<E
{{"Replace": {{"$PWD/{pkg}/zz_demo_test.go": "$T/zz_demo_test.go"}}}}
E
go test -vet=off -count=1 {d.get('FLAGS','')} -overlay "$T/overlay.json" -run '^TestDemo' ./{pkg}
rc=$?
rm -rf "$T"
exit $rc
""")
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(d["ID"], "written")
