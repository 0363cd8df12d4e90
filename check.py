#!/usr/bin/env python3
"""Driver of every check: builds what the check needs from /repo's working
tree, runs the monitored workloads in shards, merges what the monitors saw,
writes evidence/<id>.json and reports the verdict.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only ORACLE]

exit 0  the property held on everything that was observed
exit 1  violation(s); a line "VIOLATION property=<id> replay=<path>" each
exit 2  no verdict (build failure, harness failure, nothing observed, timeout)
"""
import argparse, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks_config import EXES, CHECKS, FLAVOURS, OBJ_FLAGS, REPO, ALL_LIBS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
INC = ["-I{B}/gen", "-I" + os.path.join(VERIF, "harness"), "-I" + REPO, "-I" + REPO + "/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/include/eigen3",
       "-isystem", "/usr/include/python3.12"]
DEFS = ["-DFMT_HEADER_ONLY=1", "-DBOOST_ALL_DYN_LINK", "-DBOOST_LOG_DYN_LINK", "-DVM_HARNESS=1"]


def log(*a):
    print(*a, flush=True)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def gen_config():
    src = open(REPO + "/include/fub/config.hpp.in").read()
    # same configuration as the pinned build: no sundials, TBB and OpenMP off,
    # chunk size 8
    tbb = OPTIONS_TBB
    out = []
    for line in src.splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            n = m.group(1)
            if n == "FUB_DEFAULT_CHUNK_SIZE":
                out.append("#define FUB_DEFAULT_CHUNK_SIZE 8")
            elif n in tbb:
                out.append("#define " + n)
            else:
                out.append("/* #undef %s */" % n)
        else:
            out.append(line)
    write_if_changed(BUILD + "/gen/fub/config.hpp", "\n".join(out) + "\n")
    write_if_changed(BUILD + "/gen/version.cpp", 'extern "C" { extern const char* GIT_REV; extern const char* GIT_TAG; extern const char* GIT_BRANCH;\nconst char* GIT_REV="vm"; const char* GIT_TAG=""; const char* GIT_BRANCH="vm"; }\n')


OPTIONS_TBB = ("FUB_WITH_TBB", "FUB_WITH_OPENMP")


def obj_path(flavour, src):
    return "%s/%s/%s.o" % (BUILD, flavour, src.replace("/", "_"))


def ninja_file(exes):
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    inc = " ".join(INC).replace("{B}", BUILD)
    for fl, f in FLAVOURS.items():
        L += ["rule cxx_" + fl, "  command = %s -std=gnu++17 %s %s %s -MMD -MF $out.d $extra -c $in -o $out" % (f["cxx"], " ".join(f["cxxflags"]), " ".join(DEFS), inc),
              "  depfile = $out.d", "  deps = gcc", "  description = CXX[%s] $in" % fl,
              "rule cc_" + fl, "  command = %s %s %s -MMD -MF $out.d -c $in -o $out" % (f["cc"], " ".join(f["cflags"]), inc), "  depfile = $out.d", "  deps = gcc",
              "rule fc_" + fl, "  command = gfortran %s -c $in -o $out" % " ".join(f["fflags"]),
              "rule ld_" + fl, "  command = %s %s -o $out $in $libs" % (f["cxx"], " ".join(f["ldflags"])), "  description = LD $out"]
    done, targets = set(), []
    for name in exes:
        e = EXES[name]; fl = e["flavour"]; objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in ["vm_main.cpp"] + e["src"]]
        srcs += [s if s.startswith("/") else os.path.join(REPO, s) for s in e["repo"]]
        if e.get("version"): srcs.append(BUILD + "/gen/version.cpp")
        for s in srcs:
            extra = OBJ_FLAGS.get(os.path.basename(s), "") if s.startswith(VERIF + "/harness") else OBJ_FLAGS.get(os.path.relpath(s, REPO), "")
            rel = os.path.relpath(s, REPO) if s.startswith(REPO + "/") else "H_" + os.path.basename(s)
            o = obj_path(fl, rel); objs.append(o)
            if o in done: continue
            done.add(o)
            rule = "cc" if s.endswith(".c") else "fc" if s.endswith(".f") else "cxx"
            L.append("build %s: %s_%s %s" % (o, rule, fl, s))
            if extra: L.append("  extra = " + extra)
        exe = "%s/%s/bin/%s" % (BUILD, fl, name)
        L += ["build %s: ld_%s %s" % (exe, fl, " ".join(objs)), "  libs = " + " ".join(e.get("libs", []) + ALL_LIBS)]
        targets.append(exe)
    return "\n".join(L) + "\n", targets


def build(exes, tag):
    gen_config()
    text, targets = ninja_file(exes)
    nf = "%s/build-%s.ninja" % (BUILD, tag)
    write_if_changed(nf, text)
    # one .ninja_log per check so that concurrent checks do not clash
    t0 = time.time()
    r = subprocess.run(["ninja", "-f", nf, "-j", str(JOBS)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("INCONCLUSIVE: build failed")
        sys.exit(2)
    return time.time() - t0


def exe_path(name):
    return "%s/%s/bin/%s" % (BUILD, EXES[name]["flavour"], name)


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
    "OMP_NUM_THREADS": os.environ.get("OMP_NUM_THREADS", "1"),
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "LC_ALL": "C",
})


def limits(flavour):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


class Shard(threading.Thread):
    """Runs one shard of one executable, restarting it behind crashes."""

    def __init__(self, name, i, n, args, scratch, deadline):
        super().__init__()
        self.n, self.i, self.exe, self.args, self.scratch, self.deadline = n, i, name, args, scratch, deadline
        self.results, self.violations, self.error = [], [], None

    def run(self):
        try:
            self.work()
        except Exception as e:  # harness failure
            self.error = repr(e)

    def launch(self, extra, out, prog, errf):
        cfg = EXES[self.exe]
        cmd = cfg.get("runner", []) + [exe_path(self.exe)] + self.args + extra + ["--out", out, "--progress", prog]
        left = self.deadline - time.time()
        if left <= 0:
            return "timeout"
        env = dict(ENV); env.update(cfg.get("env", {}))
        cwd = os.path.join(self.scratch, "cwd-%s-%d" % (self.exe, self.i)); os.makedirs(cwd, exist_ok=True)
        env["VM_SCRATCH"] = cwd
        with open(errf, "w") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, preexec_fn=limits(cfg["flavour"]), env=env, cwd=cwd)
            try:
                return p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                return "timeout"

    def work(self):
        base = os.path.join(self.scratch, "%s-%d" % (self.exe, self.i)); restarts = 0; resume = None
        sh = ["--shard", "%d/%d" % (self.i, self.n)]
        while True:
            out, prog, errf = base + "-%d.json" % restarts, base + "-%d.prog" % restarts, base + "-%d.log" % restarts
            rc = self.launch(sh + (["--resume", resume] if resume else []), out, prog, errf)
            if rc == "timeout":
                self.error = "timeout (watchdog) in %s at %s" % (self.exe, self.progress(prog)); return
            if rc in (0, 1) and os.path.exists(out):
                self.results.append(json.load(open(out))); return
            if rc == 3:
                self.error = "harness usage error, see " + open(errf).read()[-500:]; return
            case = self.progress(prog)
            text = open(errf, errors="replace").read()
            if not case or case == "done":
                self.error = "%s died (rc=%s) outside any case: %s" % (self.exe, rc, text[-1500:]); return
            if rc == 97:  # CPU limit of one case: run it alone, with twice the budget
                rc2 = self.launch(["--replay", case, "--cpu-limit", "100"], out + "r", prog + "r", errf + "r")
                if rc2 == "timeout":
                    self.error = "timeout (watchdog) replaying " + case; return
                if rc2 == 97:
                    self.violations.append(dict(oracle=case.rsplit(":", 1)[0], index=int(case.rsplit(":", 1)[1]), key=case.rsplit(":", 1)[0] + "/hang", msg="does not terminate (CPU limit hit twice)"))
            else:
                self.violations.append(self.crash(case, rc, text))
            restarts += 1
            if restarts > 4:
                return  # enough crashes; violations are reported anyway
            resume = case

    @staticmethod
    def progress(prog):
        try:
            return open(prog, "rb").read().split(b"\0")[0].decode()
        except OSError:
            return ""

    @staticmethod
    def crash(case, rc, text):
        kind, msg = "crash", "rc=%s" % rc
        m = re.search(r"SUMMARY: (\w+): ([\w-]+) ?(\S*)( in (.*))?", text)
        m2 = re.search(r"(\S+): runtime error: (.*)", text)
        m3 = re.search(r"Assertion [`'](.*)' failed", text)
        if m:
            kind = m.group(2); msg = m.group(0)
            if m2: msg = m2.group(0)
        elif m2:
            kind = "undefined-behavior"; msg = m2.group(0)
        elif m3:
            kind = "assertion"; msg = m3.group(0) + " " + text[max(0, m3.start() - 300):m3.start()]
        o, ix = case.rsplit(":", 1)
        return dict(oracle=o, index=int(ix), key="%s/%s" % (o, kind), msg=(msg + " || " + text[-400:])[:1500])


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--scale", default="1"); ap.add_argument("--only"); ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop, cfg = a.prop, CHECKS[a.prop]
    t0 = time.time()
    exes = cfg["exes"]
    if a.replay:
        rp = json.load(open(a.replay)); exes = [rp["exe"]]; build(exes, prop)
        cmd = EXES[rp["exe"]].get("runner", []) + [exe_path(rp["exe"]), "--seed", str(rp["seed"]), "--tier", rp["tier"], "--replay", "%s:%d" % (rp["oracle"], rp["index"])]
        log(" ".join(cmd)); sys.exit(subprocess.run(cmd, env=ENV).returncode)
    bt = build(exes, prop)
    if a.build_only: return 0
    budget = float(os.environ.get("VERIF_WALL", "850" if a.tier == "quick" else "14400"))
    scratch = tempfile.mkdtemp(prefix="vm-%s-" % prop)
    deadline = t0 + budget
    base = ["--seed", str(a.seed), "--tier", a.tier, "--scale", a.scale] + (["--only", a.only] if a.only else [])
    shards = []
    try:
        for e in exes:
            n = EXES[e].get("shards", JOBS)
            ss = [Shard(e, i, n, base, scratch, deadline) for i in range(n)]
            for s in ss: s.start()
            for s in ss: s.join()
            shards += ss
        errors = [s.error for s in shards if s.error]
        agg, viol = {}, []
        for s in shards:
            viol += [dict(v, exe=s.exe) for v in s.violations]
            for r in s.results:
                viol += [dict(v, exe=s.exe) for v in r["violations"]]
                for o, d in r["oracles"].items():
                    g = agg.setdefault(o, dict(cases=0, evals=0, secs=0.0, sigs=set(), counters={}, samples=[]))
                    g["cases"] += d["cases"]; g["evals"] += d["evals"]; g["secs"] = max(g["secs"], d["secs"]); g["sigs"].update(d["sigs"])
                    for k, v in d["counters"].items(): g["counters"][k] = g["counters"].get(k, 0) + v
                    g["samples"] += d["samples"]
        findings = known_findings(prop)
        seen_known, real = {}, {}
        for v in sorted(viol, key=lambda v: (v["key"], v["index"])):
            for k, what in findings:
                if v["key"] == k:
                    seen_known[k] = what; break
            else:
                real.setdefault(v["key"], v)
        for k, what in seen_known.items():
            log("KNOWN-FINDING: property=%s %s [%s]" % (prop, what, k))
        os.makedirs(VERIF + "/replay", exist_ok=True)
        for k, v in list(real.items())[:20]:
            rp = "replay/%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", k)[:80])
            json.dump(dict(property=prop, exe=v["exe"], oracle=v["oracle"], index=v["index"], seed=a.seed, tier=a.tier, key=v["key"], message=v["msg"]), open(os.path.join(VERIF, rp), "w"), indent=1)
            log("  %s:%d %s" % (v["key"], v["index"], v["msg"][:600]))
            log("VIOLATION property=%s replay=%s" % (prop, rp))
        evals = sum(g["evals"] for g in agg.values()); distinct = sum(len(g["sigs"]) for g in agg.values())
        samples = []
        for o in sorted(agg):
            samples += agg[o]["samples"][:2]
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level=cfg.get("level", "exploration"),
                  coverage=dict(evaluations=evals, cases=sum(g["cases"] for g in agg.values()), distinct_nontrivial=min(distinct, evals), rule=cfg["rule"], samples=samples[:40] or ["none"],
                                oracles={o: dict(cases=g["cases"], oracle_evaluations=g["evals"], distinct=len(g["sigs"]), observed=g["counters"], max_shard_seconds=g["secs"]) for o, g in sorted(agg.items())},
                                build_seconds=round(bt, 1)),
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
        quiet = [o for o, g in agg.items() if g["evals"] == 0 or not g["sigs"]]
        log("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, build %.1fs, total %.1fs" % (prop, a.tier, a.seed, ev["coverage"]["cases"], evals, distinct, bt, time.time() - t0))
        if real:
            return 1
        if errors:
            for e in errors: log("INCONCLUSIVE:", e)
            return 2
        if not a.only and (not agg or quiet):
            log("INCONCLUSIVE: oracles that observed nothing:", quiet or "all"); return 2
        return 0
    finally:
        if os.environ.get("VM_KEEP"): log("scratch kept:", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
