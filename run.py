#!/usr/bin/env python3
"""Driver of the checks.

  run.py C01            run the check of property C01 (VERIF_SEED, VERIF_TIER)
  run.py C01 --replay F replay a saved failing case
  run.py --setup        checks that the tools are there

It builds /repo's current sources with the harness of the property (in
/verif/build, ignored by git), spreads a fixed number of generated cases over
the CPUs, shrinks and replays the first failure, and writes evidence/<id>.json.
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 check error.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SRC = os.path.join(HERE, "src")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

NCPU = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


def log(*a):
    print("[run]", *a, file=sys.stderr, flush=True)


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return {"sse4_1", "avx2"}


# ------------------------------------------------------------------ building
def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".h", ".hpp", ".cpp", ".cc", ".c", ".in", ".inc")):
                out.append(os.path.join(root, f))
    return out


class BuildError(Exception):
    pass


def build(prop, spec, variants):
    """Returns {variant: binary or list of files}."""
    srcs = repo_sources()
    base = tree_hash(srcs)
    headers = tree_hash(glob.glob(os.path.join(SRC, "*.h")))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    bi = os.path.join(gen, "build_info.h")
    text = ('#define PACKAGE "QuadIron"\n#define VERSION "0"\n'
            '#define COMMIT_HASH "0"\n')
    if not os.path.exists(bi) or open(bi).read() != text:
        with open(bi, "w") as f:
            f.write(text)
    lib_cpp = sorted(p for p in srcs if p.endswith((".cpp", ".cc"))
                     and os.path.dirname(p) == os.path.join(REPO, "src"))
    jobs, links = {}, []

    def obj(kind, src, v, extra=""):
        fl = "%s %s %s" % (VARIANTS[v]["cxx"], VARIANTS[v]["flags"], extra)
        key = hashlib.sha256(("%s|%s|%s|%s" % (
            base, headers + tree_hash([src]) if kind == "h" else "", src,
            fl)).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (
            v, os.path.basename(src).replace(".", "_"), key))
        cmd = fl.split() + ["-std=c++14", "-w", "-I" + os.path.join(REPO, "src"),
                            "-I" + gen, "-I" + SRC, "-c", src, "-o", o + ".tmp"]
        jobs[o] = (cmd, o)
        return o

    result = {}
    for v in variants:
        if v == "mix":
            continue
        vd = VARIANTS[v]
        if vd.get("shim"):
            # one shared object per SIMD level, loaded side by side
            sos = []
            for level in vd["shim"]:
                lv = "pic-" + level
                os_ = [obj("l", s, lv) for s in lib_cpp]
                os_ += [obj("h", os.path.join(SRC, s), lv) for s in spec["shim_src"]]
                so = os.path.join(BUILD, "%s-%s-%s.so" % (
                    prop, level, hashlib.sha256("".join(os_).encode()).hexdigest()[:16]))
                links.append((VARIANTS[lv]["cxx"].split() + VARIANTS[lv]["flags"].split()
                              + ["-shared", "-Wl,-Bsymbolic", "-o", so + ".tmp"] + os_, so))
                sos.append(so)
            h = obj("h", os.path.join(SRC, spec["src"]), v)
            out = os.path.join(BUILD, "%s-%s-%s" % (
                prop, v, hashlib.sha256((h + "".join(sos)).encode()).hexdigest()[:16]))
            links.append((vd["cxx"].split() + vd["flags"].split() + ["-o", out + ".tmp", h, "-ldl", "-lpthread"], out))
            result[v] = (out, sos)
        else:
            os_ = [obj("l", s, v) for s in lib_cpp]
            os_.append(obj("h", os.path.join(SRC, spec["src"]), v, spec.get("defs", "")))
            os_ += [obj("h", os.path.join(SRC, s), v) for s in spec.get("extra", [])]
            out = os.path.join(BUILD, "%s-%s-%s" % (
                prop, v, hashlib.sha256("".join(os_).encode()).hexdigest()[:16]))
            links.append((vd["cxx"].split() + vd["flags"].split()
                          + ["-o", out + ".tmp"] + os_ + ["-lpthread", "-ldl"], out))
            result[v] = (out, [])

    def compile_one(item):
        cmd, o = item
        if os.path.exists(o):
            return
        tmp = o + ".tmp%d" % os.getpid()
        cmd = [tmp if x == o + ".tmp" else x for x in cmd]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, o)

    # harness objects first: they take longest
    todo = sorted(jobs.values(), key=lambda it: 0 if SRC in it[0][-3] else 1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, it) for it in todo]:
            f.result()
        for f in [ex.submit(compile_one, it) for it in links]:
            f.result()
    # keep the cache small
    objs = sorted(glob.glob(os.path.join(BUILD, "obj", "*")) + glob.glob(os.path.join(BUILD, "C*")),
                  key=os.path.getmtime, reverse=True)
    for o in objs[1500:]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return result


# ------------------------------------------------------------------- running
ENV = dict(os.environ, MALLOC_PERTURB_="165",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                        "handle_segv=1:disable_coredump=1:max_malloc_fill_size=4096:"
                        "detect_stack_use_after_return=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")


def env_for(sos):
    e = dict(ENV)
    if sos:
        e["PBT_SHIMS"] = ":".join(sos)
    return e


def parse_state(path):
    """Choices and description left by a case in its state file."""
    import struct
    try:
        b = read(path)
    except OSError:
        return None
    if len(b) < 3200:
        return None
    magic, idx, n, over = struct.unpack_from("<QqQQ", b, 0)
    desc = b[32:32 + 1024].split(b"\0")[0].decode(errors="replace")
    msg = b[1056:1056 + 2048].split(b"\0")[0].decode(errors="replace")
    off = 1056 + 2048
    n = min(n, 1 << 15)
    ch = list(struct.unpack_from("<%dQ" % n, b, off))
    return dict(case=idx, choices=ch, desc=desc, msg=msg, overflow=over)


def describe_exit(rc):
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return {77: "case did not finish within its CPU time"}.get(rc, "exit status %d" % rc)


def salted(seed, variant):
    """Each build gets cases of its own."""
    return (seed * 1000 + sum(map(ord, variant))) % (1 << 40)


class Runner:
    def __init__(self, prop, spec, tier, seed):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
        self.stop = False

    def job(self, variant, binary, sos, start, stride, cases, budget):
        if self.stop:
            return dict(variant=variant, skipped=True)
        tag = "%s-%d" % (variant, start)
        state = os.path.join(self.tmp, tag + ".state")
        out = os.path.join(self.tmp, tag + ".out")
        err = os.path.join(self.tmp, tag + ".err")
        cmd = [binary, "run", "--seed", str(salted(self.seed, variant)), "--start", str(start),
               "--stride", str(stride), "--cases", str(cases), "--state", state,
               "--out", out, "--budget", str(budget), "--tier", self.tier,
               "--case-cpu", str(self.spec.get("case_cpu", 60))]
        cwd = os.path.join(self.tmp, tag + ".cwd")
        os.makedirs(cwd, exist_ok=True)
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, cwd=cwd,
                                 env=env_for(sos))
            while True:
                try:
                    rc = p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    if self.stop:
                        p.kill()
                        p.wait()
                        return dict(variant=variant, skipped=True)
        res = dict(variant=variant, rc=rc, start=start, stride=stride, stats=None)
        try:
            with open(out) as f:
                res["stats"] = json.load(f)
        except (OSError, ValueError):
            pass
        if rc != 0:
            st = parse_state(state)
            tail = read(err)[-3000:].decode(errors="replace")
            res["failure"] = dict(state=st, stderr=tail, how=describe_exit(rc))
            self.stop = True
        return res


def write_choices(path, ch):
    with open(path, "w") as f:
        f.write("\n".join(map(str, ch)) + "\n")


def run_replay(binary, sos, ch, spec, tier, tmp):
    f = os.path.join(tmp, "replay.choices")
    write_choices(f, ch)
    r = subprocess.run([binary, "replay", "--choices", f, "--tier", tier,
                        "--case-cpu", str(spec.get("case_cpu", 60))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(sos),
                       cwd=tmp)
    return r.returncode, r.stdout.decode(errors="replace")


def run_sequence(binary, sos, seq, spec, tier, tmp):
    """Re-runs a worker's cases up to the failing one in one process."""
    r = subprocess.run([binary, "run", "--seed", str(seq["seed"]), "--start", str(seq["start"]),
                        "--stride", str(seq["stride"]), "--cases", str(seq["until"] + 1),
                        "--out", os.path.join(tmp, "seq.out"), "--tier", tier,
                        "--state", os.path.join(tmp, "seq.state"),
                        "--case-cpu", str(spec.get("case_cpu", 60))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(sos),
                       cwd=tmp)
    return r.returncode, r.stdout.decode(errors="replace")


def fuzz(prop, spec, R, budget_s, results):
    """Coverage-guided search over the same choices (thorough tier)."""
    v = "fuzz"
    bins = build(prop, spec, [v])
    binary, _ = bins[v]
    corpus = os.path.join(R.tmp, "corpus")
    os.makedirs(corpus)
    # a few random inputs as the starting corpus
    import random
    rnd = random.Random(R.seed)
    for i in range(32):
        with open(os.path.join(corpus, "s%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([8, 32, 64, 128]))))
    procs = []
    for i in range(NCPU):
        st = os.path.join(R.tmp, "fuzz%d.state" % i)
        err = open(os.path.join(R.tmp, "fuzz%d.err" % i), "wb")
        cwd = os.path.join(R.tmp, "fuzz%d.cwd" % i)
        os.makedirs(cwd)
        env = dict(ENV, PBT_STATE=st)
        p = subprocess.Popen([binary, corpus, "-seed=%d" % (R.seed * 100 + i + 1),
                              "-max_total_time=%d" % budget_s, "-max_len=512",
                              "-timeout=300", "-rss_limit_mb=3500", "-reload=1",
                              "-artifact_prefix=" + cwd + "/", "-print_final_stats=1"],
                             stdout=err, stderr=err, cwd=cwd, env=env)
        procs.append((p, st, err.name))
    execs = cov = 0
    fails = []
    for p, st, errn in procs:
        rc = p.wait()
        txt = read(errn).decode(errors="replace")
        for line in txt.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split(":")[-1])
            if " cov: " in line:
                cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
        if rc != 0:
            if "libFuzzer: timeout" in txt or "out-of-memory" in txt:
                continue  # inconclusive
            fails.append(dict(state=parse_state(st), stderr=txt[-3000:], how="libFuzzer: " + describe_exit(rc)))
    results["fuzz"] = dict(executions=execs, edges_covered=cov, seconds=budget_s,
                           corpus=len(os.listdir(corpus)))
    return fails, bins


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for t in ("g++-9", "python3"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("setup ok")
        return 0
    prop = sys.argv[1]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    flags = cpu_flags()
    variants = [v for v in spec["cases"] if v != "fuzz"
                and VARIANTS[v].get("needs", "") in flags | {""}]
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rp = json.load(f)
        b, sos = build(prop, spec, [rp["variant"]])[rp["variant"]]
        tmp = tempfile.mkdtemp(prefix="pbt-replay-")
        if rp.get("sequence"):
            rc, out = run_sequence(b, sos, rp["sequence"], spec, rp["tier"], tmp)
        else:
            rc, out = run_replay(b, sos, rp["choices"], spec, rp["tier"], tmp)
        print(out[-6000:])
        print(describe_exit(rc) if rc else "held")
        shutil.rmtree(tmp, ignore_errors=True)
        return 1 if rc else 0

    bins = build(prop, spec, variants)
    t_build = time.time() - t0
    R = Runner(prop, spec, tier, seed)
    try:
        return check(prop, spec, tier, seed, variants, bins, R, t0, t_build)
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)


def check(prop, spec, tier, seed, variants, bins, R, t0, t_build):
    idx = 1 if tier == "thorough" else 0
    budget = spec.get("budget", [240, 3000])[idx]
    jobs = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for v in variants:
        n = max(1, int(spec["cases"][v][idx] * scale))
        w = min(NCPU, n)
        for i in range(w):
            jobs.append((v, i, w, n))
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(R.job, v, bins[v][0], bins[v][1], i, w, n, budget)
                for (v, i, w, n) in jobs]
        for f in futs:
            results.append(f.result())

    extra = {}
    failures = [(r, r["failure"]) for r in results if r.get("failure")]
    if not failures and tier == "thorough" and spec.get("fuzz_s"):
        if shutil.which("clang++-18"):
            try:
                fuzz_s = int(os.environ.get("VERIF_FUZZ_S", spec["fuzz_s"]))
                fs, fb = fuzz(prop, spec, R, fuzz_s, extra)
                # confirm on the ordinary build first, then on the fuzz build's own config
                for fl in fs:
                    for v in variants:
                        if fl["state"]:
                            failures.append((dict(variant=v, rc=10, start=0, stride=1, fuzz=True), fl))
            except BuildError as e:
                extra["fuzz"] = "not built: " + str(e)[-300:]

    violation = None
    unconfirmed = []
    failures.sort(key=lambda x: (variants.index(x[0]["variant"]),
                                 (x[1]["state"] or {}).get("case", 0)))
    for r, fl in failures:
        v = r["variant"]
        b, sos = bins[v]
        st = fl["state"]
        if st is None:
            unconfirmed.append(fl["how"])
            continue
        log("failure in", v, "case", st["case"], ":", fl["how"], "|", st["desc"], "|", st["msg"])
        ch = st["choices"]
        rcs = [run_replay(b, sos, ch, spec, tier, R.tmp)[0] for _ in range(3)]
        rep = dict(property=prop, variant=v, tier=tier, choices=ch, desc=st["desc"],
                   message=st["msg"], how=fl["how"], seed=seed, case=st["case"])
        if all(rcs):
            src = os.path.join(R.tmp, "fail.choices")
            dst = os.path.join(R.tmp, "min.choices")
            write_choices(src, ch)
            s = subprocess.run([b, "shrink", "--choices", src, "--out", dst, "--budget",
                                str(spec.get("shrink_s", 25)), "--tier", tier,
                                "--case-cpu", str(spec.get("case_cpu", 60))],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               env=env_for(sos), cwd=R.tmp)
            if s.returncode == 0:
                with open(dst) as f:
                    small = [int(x) for x in f.read().split()]
                outs = [run_replay(b, sos, small, spec, tier, R.tmp) for _ in range(3)]
                if all(o[0] for o in outs):
                    rep["choices"] = small
                    rep["original_choices"] = ch
                    rep["output"] = outs[0][1][-3000:]
                    for line in outs[0][1].splitlines():
                        if line.startswith("case: "):
                            rep["desc"] = line[6:]
                        if line.startswith("FAILED: "):
                            rep["message"] = line[8:]
            violation = rep
            break
        if r.get("fuzz"):
            unconfirmed.append("fuzz: " + fl["how"])
            continue
        # the failure may need the earlier cases of the same process
        seq = dict(seed=salted(seed, v), start=r["start"], stride=r["stride"], until=st["case"])
        rcs = [run_sequence(b, sos, seq, spec, tier, R.tmp)[0] for _ in range(3)]
        if all(rcs):
            rep["sequence"] = seq
            violation = rep
            break
        unconfirmed.append("%s: %s %s" % (v, fl["how"], st["desc"]))

    # evidence
    hashes = set()
    tags, samples = {}, []
    ev = disc = 0
    complete = True
    per = {}
    for r in results:
        s = r.get("stats")
        if r.get("skipped") or not s:
            complete = False
            continue
        v = r["variant"]
        ev += s["evaluations"]
        disc += s["discards"]
        per.setdefault(v, [0, 0])
        per[v][0] += s["evaluations"]
        per[v][1] += s["nontrivial"]
        complete &= s["complete"]
        for h in s["hashes"]:
            hashes.add(h)
        for k, n in s["tags"].items():
            tags[k] = tags.get(k, 0) + n
        if r.get("start", 9) < 3:
            samples += ["[%s] %s" % (v, x) for x in s["samples"][:2]]
    cov = dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=spec["rule"],
               samples=samples[:12], discarded=disc, distribution=tags,
               per_build={k: dict(evaluations=a, nontrivial=b) for k, (a, b) in per.items()},
               all_planned_cases_run=complete, build_s=round(t_build, 1))
    cov.update(extra)
    if unconfirmed:
        cov["unconfirmed_failures"] = unconfirmed
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
             assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1),
             violations=1 if violation else 0)
    if violation:
        name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(violation["choices"]).encode()).hexdigest()[:10])
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        cov["violation"] = dict(case=violation["desc"], message=violation["message"],
                                how=violation["how"], build=violation["variant"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded) in %.0f s (build %.0f s)%s"
          % (prop, tier, seed, ev, len(hashes), disc, time.time() - t0, t_build,
             "" if complete or violation else " -- not all planned cases were run"))
    for u in unconfirmed:
        print("unconfirmed (does not replay):", u)
    known(prop)
    if violation:
        print("  build:", violation["variant"])
        print("  case:", violation["desc"])
        print("  failure:", violation["message"] or violation["how"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def known(prop):
    """Findings that are recorded instead of repaired (none are suppressed here:
    the harnesses exclude them by construction)."""
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return
    with open(p) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, line.split(" ", 2)[2]))


if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as ex:
        print("build failed:\n" + str(ex))
        rc = 2
    sys.exit(rc)
