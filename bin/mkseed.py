#!/usr/bin/env python3
"""mkseed.py SPEC.py -- build /verif/seeded/<id>/ from a description of a planted bug.

SPEC.py defines ID, PROP, NEEDS, BREAKS, PKG (package dir of the demo, relative to the repo), EDITS
(list of (file, old, new)), DEMO (Go test source with a TestDemo).  The bug is kept only if it builds,
passes the stable tests, and the demo passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

DEMO_SH = """#!/bin/bash
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/%sverif_demo_test.go":"%%s/demo_test.go"}}' "$d" > "$tmp/ov.json"
cd /repo && go test -vet=off -count=1 -timeout 250s -overlay "$tmp/ov.json" -run '^TestDemo$' ./%s
"""

def main(path):
    s = runpy.run_path(path)
    pkg = s["PKG"].strip("/")
    pre = pkg + "/" if pkg else ""
    out = tempfile.mkdtemp(dir="/tmp/seedwork")
    open(out + "/demo_test.go", "w").write(s["DEMO"])
    sh("gofmt -w " + out + "/demo_test.go")
    open(out + "/demo.sh", "w").write(DEMO_SH % (pre, pre))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    rc, o = sh("git -C /repo status --porcelain")
    if o.strip():
        print("repo not clean"); return 1
    rc, o = sh("bash demo.sh", cwd=out)
    if rc != 0:
        print(s["ID"], "demo fails on the unchanged tree\n", o[-3000:]); return 1
    try:
        for f, old, new in s["EDITS"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["ID"], f, "pattern occurs", t.count(old), "times"); return 1
            open(p, "w").write(t.replace(old, new))
        sh("gofmt -w " + " ".join("/repo/" + e[0] for e in s["EDITS"]))
        rc, diff = sh("git -C /repo diff")
        open(out + "/patch.diff", "w").write(diff)
        rc, o = sh("bash /opt/vp/build.sh")
        if rc != 0:
            print(s["ID"], "does not build\n", o[-2000:]); return 1
        rc, o = sh("bash /opt/vp/test.sh /tmp/seedwork/res.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(base["passing"] if "passing" in base else base.get("passed", base.get("stable", [])))
        r = json.load(open("/tmp/seedwork/res.json"))
        passed = set(r.get("passed", r.get("passing", [])))
        missing = stable - passed
        if not stable or missing:
            print(s["ID"], "breaks existing tests:", len(stable), sorted(missing)[:5]); return 1
        rc, o = sh("bash demo.sh", cwd=out)
        if rc == 0:
            print(s["ID"], "demo passes with the bug"); return 1
    finally:
        sh("git -C /repo checkout -- .")
    dst = "/verif/seeded/" + s["ID"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    shutil.rmtree(out)
    print(s["ID"], "kept")
    return 0

sys.exit(max(main(p) for p in sys.argv[1:]))
