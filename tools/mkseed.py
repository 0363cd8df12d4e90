#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: SPEC.py defines SEEDS = [dict(id=, property=, file=, old=, new= (or edits=[(file, old, new)...]),
needs=, breaks=, demo= (C++ text) , srcs=[] (repo TUs compiled instead of linking the library), mpi=n)].  Plants each change in /repo, checks that it
builds and passes the stable tests, that the demonstration tells both trees
apart and whether the property's check catches it; undoes it."""
import json, os, subprocess, sys, re
REPO, SEED = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# cwd: /repo after the build.  exit 0: behaves as stated, nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 97
trap 'find "$t" -delete' EXIT
g++ -std=gnu++17 -O1 -w -DFMT_HEADER_ONLY=1 -DBOOST_ALL_DYN_LINK -DBOOST_LOG_DYN_LINK -I. -Iinclude -I_build/include \
  -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/eigen3 -isystem /usr/include/python3.12 \
  "$d/demo.cpp" @SRCS@ -o "$t/demo" -Wl,--start-group _build/libFiniteVolumeSolver.Solver.a _build/libFiniteVolumeSolver.OdeSolver.a _build/libRadauSolverFortran.a $(find _build/third_party -name '*.a') -Wl,--end-group \
  -Wl,--as-needed -lmpi_cxx -lmpi -lboost_log_setup -lboost_log -lboost_thread -lboost_filesystem -lboost_system -lboost_date_time -lboost_program_options -lboost_container -lboost_serialization \
  -lpython3.12 -lVc -lgmp -lmpfr -ltbb -lgfortran -lgomp -lpthread || exit 98
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
cd "$t" && @RUN@timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
assert not sh("git -C /repo status --porcelain").stdout.strip()
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = SEED + "/" + s["id"]; os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"])
    run = "mpirun --allow-run-as-root --oversubscribe --bind-to none -n %d " % s["mpi"] if s.get("mpi") else ""
    open(d + "/demo.sh", "w").write(DEMO.replace("@SRCS@", " ".join(s.get("srcs", []))).replace("@RUN@", run)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("==", s["id"], flush=True)
    try:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
        r = sh(d + "/demo.sh", cwd=REPO, timeout=300); print("  demo clean rc", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
        for f, o, n in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            t = open(REPO + "/" + f).read(); assert t.count(o) == 1, (f, t.count(o))
            open(REPO + "/" + f, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); res = json.load(open("/tmp/seed_out.json"))
        print("  tests failed:", [x for x in res["failed"]][:5], "passed", len(res["passed"]), "missing", [x for x in base if x not in res["passed"]][:4])
        r = sh(d + "/demo.sh", cwd=REPO, timeout=300); print("  demo patched rc", r.returncode, r.stdout[-200:].replace("\n", " | "))
        r = sh("python3 /verif/check.py %s" % s["property"]); print("  check rc", r.returncode, " | ".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "INCONC" in l)[:300], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
