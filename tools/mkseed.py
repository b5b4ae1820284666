#!/usr/bin/env python3
"""Author's tool: turns the seed descriptions in a Python file (list SEEDS) into /verif/seeded/<id>/ and tests them.

   tools/mkseed.py make FILE [id...]     write the folders (patch against /repo's HEAD)
   tools/mkseed.py test [id...]          build + stable tests + demo on both trees + the property's check

Works on /repo itself and always restores it.  No check uses this file."""
import json, os, shutil, stat, subprocess, sys

V = "/verif"
R = "/repo"
DEMO = """#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it does not
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
%s
"""
SO = """g++ -std=c++14 -O1 -g -DBUILD_TESTS -w -pthread -I /repo/include -I "$here" "$here/demo.cc" %(more)s -o "$t/demo" -L /repo/_build -lgals_cpu -Wl,-rpath,/repo/_build -lyaml-cpp || exit 3
cd "$t" && timeout 120 ./demo"""
LIB = """g++ -std=c++14 -O1 -g %(flags)s -DBUILD_TESTS -w -pthread -I /repo/include -I "$here" "$here/demo.cc" $(find /repo/src/cpu -name '*.cc' %(excl)s) -o "$t/demo" -lyaml-cpp || exit 3
cd "$t" && timeout 120 %(pre)s ./demo"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % R)


def make(path, ids):
    g = {}
    exec(open(path).read(), g)
    for s in g["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        clean()
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print("!!", s["id"], f, "matches", n)
                break
            open(p, "w").write(t.replace(old, new))
        else:
            d = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            body = s.get("sh") or (SO % dict(more=s.get("more", "")) if not s.get("lib") else None) or LIB % dict(flags=s.get("flags", ""), excl=s.get("excl", "! -name file-utils.cc"), pre=s.get("pre", ""))
            open(d + "/demo.sh", "w").write(DEMO % body)
            os.chmod(d + "/demo.sh", 0o755)
            if "cc" in s:
                open(d + "/demo.cc", "w").write(s["cc"].lstrip())
            for name, text in s.get("files", {}).items():
                os.makedirs(os.path.dirname(d + "/" + name), exist_ok=True)
                open(d + "/" + name, "w").write(text)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean()


def build():
    return sh("bash /opt/vp/build.sh").returncode == 0


def test(ids):
    ids = ids or sorted(os.listdir(V + "/seeded"))
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passing") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
    build()
    res = {}
    for i in ids:
        d = V + "/seeded/" + i
        r = sh("bash %s/demo.sh" % d, cwd=R)
        res[i] = ["clean=%d" % r.returncode]
        if r.returncode:
            print(r.stdout[-1500:])
    for i in ids:
        d = V + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        clean()
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        try:
            if a.returncode:
                res[i].append("NOAPPLY")
                continue
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            out = json.load(open("/tmp/seedtest.json"))
            failed = out.get("failed", [])
            npass = len(out.get("passed", []))
            res[i].append("pass=%d fail=%s" % (npass, failed))
            r = sh("bash %s/demo.sh" % d, cwd=R)
            res[i].append("patched=%d" % r.returncode)
            if "-n" not in sys.argv:
                r = sh("timeout 880 python3 %s/run.py %s" % (V, prop), cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res[i].append("%s=%d %s" % (prop, r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "what" in l][:1]))
        finally:
            clean()
        print(i, res[i], flush=True)
    build()


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if a != "-n"]
    try:
        make(args[0], args[1:]) if sys.argv[1] == "make" else test(args)
    finally:
        clean()
