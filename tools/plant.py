#!/usr/bin/env python3
"""Write a planted bug into seeded/<id> (patch, demonstration, description) and
try it:  plant.py new FILE.py   |   plant.py try ID...   (never read by checks)

FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], cpp=program text | sh=script text, files={name: text})]."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = r'''#!/bin/bash
# Run in the repository after it has been built.
d=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export OMP_NUM_THREADS=1
B=$R/_build/src
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
g++ -O1 -std=c++14 -w -fopenmp -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial \
  -include /opt/vp/cmake/compat.hpp -I$R/src -I$R/src/core -I$R/src/sweepers -I$R/src/solvers \
  "$d/demo.cpp" -o "$t/demo" -Wl,--start-group $B/libdriver.a $B/auxiliary/libauxiliary.a $B/core/libcore.a \
  $B/sweepers/libsweepers.a $B/sweepers/*/lib*.a $B/solvers/libsolvers.a $B/util/libutil.a -Wl,--end-group \
  -Wl,-rpath,$H $H/libhdf5_cpp.so $H/libhdf5.so -lblitz -lpugixml || exit 2
cp "$d"/* "$t"/
cd "$t" && timeout 250 ./demo
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def new(f):
    for b in runpy.run_path(f)["BUGS"]:
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo not clean"
        try:
            for p, old, nw in b["edits"]:
                q = os.path.join(R, p)
                s = open(q).read()
                assert s.count(old) == 1, (b["id"], p, s.count(old))
                open(q, "w").write(s.replace(old, nw))
            open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        open(d + "/demo.sh", "w").write(b.get("sh") or SH)
        os.chmod(d + "/demo.sh", 0o755)
        for n, t in dict(b.get("files") or {}, **({"demo.cpp": b["cpp"]} if "cpp" in b else {})).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)


def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/plant-tests.json")
    got = json.load(open("/tmp/plant-tests.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return got, base


def one(i, checks=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh("git", "-C", R, "apply", d + "/patch.diff")
    if r.returncode:
        print(i, "does not apply", r.stdout)
        return
    try:
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            print(i, "does not build", b.stdout[-1500:])
            return
        t = sh("bash", "/opt/vp/test.sh", "/tmp/plant-tests.json").stdout.strip().split("\n")[-1]
        dm = sh("bash", d + "/demo.sh", cwd=R)
        c = sh("python3", V + "/run.py", prop) if checks else None
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    sh("bash", "/opt/vp/build.sh")
    d0 = sh("bash", d + "/demo.sh", cwd=R)
    print("%s %s: tests [%s] demo %s/%s %s" % (i, prop, t, d0.returncode, dm.returncode,
          "" if c is None else "check %d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED")), flush=True)
    if d0.returncode or not dm.returncode:
        print("   unchanged:", d0.stdout[-400:], "\n   changed:", dm.stdout[-400:])
    if c is not None and c.returncode not in (0, 1):
        print(c.stdout[-600:])


if sys.argv[1] == "new":
    new(sys.argv[2])
else:
    for i in sys.argv[2:]:
        one(i)
