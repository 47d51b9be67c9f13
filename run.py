#!/usr/bin/env python3
"""Driver: compiles the harnesses of a property from /repo's working tree, explores,
replays what fails, and writes the evidence file.

  run.py check C01 [quick|thorough]     (tier also from VERIF_TIER)
  run.py replay out/replay/FILE.json
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(HERE, "src")
OUT = os.path.join(HERE, "out")
CXX = shutil.which("g++-14") or "g++"
NCPU = os.cpu_count() or 8

sys.path.insert(0, HERE)
import jobs  # noqa: E402


def compile_cmd(job, out, objs=()):
    cmd = [CXX, "-std=c++23", "-w", "-I", os.path.join(REPO, "include"), "-I", SRC]
    cmd += job.opt.split()
    if job.avx:
        cmd += ["-mavx2", "-mfma"]
    if job.ndebug:
        cmd += ["-DNDEBUG"]
    if job.asan:
        cmd += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
    for k, v in job.defs.items():
        cmd.append(f"-D{k}={v}" if v is not None else f"-D{k}")
    cmd += job.cflags
    cmd += [os.path.join(SRC, job.src)] + list(objs) + ["-o", out]
    cmd += job.ldflags
    return cmd


def bin_key(job):
    return json.dumps([job.src, job.defs, job.opt, job.avx, job.ndebug, job.asan,
                       job.cflags, job.ldflags, job.variants], sort_keys=True)


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "include"), SRC):
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    h.update(f.encode())
                    h.update(open(os.path.join(d, f), "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def build(job, bdir):
    key = hashlib.sha256(bin_key(job).encode()).hexdigest()[:16]
    out = os.path.join(bdir, key)
    cache = os.environ.get("MC_CACHE")
    if cache:
        os.makedirs(cache, exist_ok=True)
        c = os.path.join(cache, key + "-" + tree_hash()[:16])
        if os.path.exists(c):
            return c, ""
        out = c
    tmp = out + f".tmp{os.getpid()}"
    objs = []
    try:
        if job.variants:  # compiled side by side
            ps = []
            for i, (src, flags) in enumerate(job.variants):
                o = f"{tmp}.{i}.o"
                cxx = CXX
                if flags[0] == "clang":
                    cxx, flags = shutil.which("clang++-18"), flags[1:]
                    if cxx is None:
                        continue
                objs.append(o)
                ps.append(subprocess.Popen(
                    [cxx, "-std=c++23", "-w", "-I", os.path.join(REPO, "include"), "-I", SRC,
                     "-c", os.path.join(SRC, src), "-o", o] + flags,
                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
            errs = [p.communicate()[1] for p in ps]
            for p, e in zip(ps, errs):
                if p.returncode != 0:
                    return None, e
        return link(job, tmp, objs, out)
    finally:
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)


def link(job, tmp, objs, out):
    r = subprocess.run(compile_cmd(job, tmp, objs), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    os.rename(tmp, out)
    return out, ""


def env_for(job, inflight, budget):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=98:"
                         "alloc_dealloc_mismatch=1:allocator_may_return_null=1:"
                         "handle_abort=0:detect_stack_use_after_return=0")
    e["MC_INFLIGHT"] = inflight
    e["MC_TIME"] = str(budget)
    e.pop("MALLOC_PERTURB_", None)
    return e


def read_inflight(path):
    import struct
    try:
        b = open(path, "rb").read()
        (seq, ln) = struct.unpack_from("<QI", b, 0)
        return list(struct.unpack_from("<%dI" % ln, b, 12))
    except Exception:
        return None


def run_bin(cmd, env, timeout):
    """-> (result dict or None, failure text or None, case or None, timed_out)"""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         start_new_session=True, preexec_fn=lim)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, None, None, True
    so = so.decode("utf-8", "replace")
    se = se.decode("utf-8", "replace")
    notes = []
    for line in so.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "note" in d:
            notes.append(d["note"])
        if "hang" in d:
            return None, "a call does not return (20 s of CPU time)", None, False
        if "violation" in d:
            return None, d["violation"], d["case"], False
        if "result" in d and p.returncode == 0:
            return d, None, None, False
    what = f"exit status {p.returncode}"
    if p.returncode < 0:
        try:
            what = signal.Signals(-p.returncode).name
        except ValueError:
            pass
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", se)
    if m:
        what = "AddressSanitizer: " + m.group(1)
    m = re.search(r"[^\n]*Assertion [^\n]*", se)
    if m:
        what = m.group(0)[-300:]
    if notes:
        what = notes[-1] + " (" + what + ")"
    return None, what, None, False


def run_job(job, binary, wdir, idx, budget, timeout):
    infl = os.path.join(wdir, f"inflight{idx}")
    cmd = [binary, "explore"] + job.args
    res, fail, case, to = run_bin(cmd, env_for(job, infl, budget), timeout)
    if fail is not None and case is None:
        case = read_inflight(infl) or []
    try:
        os.unlink(infl)
    except OSError:
        pass
    return res, fail, case, to


def replay_case(job, binary, case, wdir, tag):
    f = os.path.join(wdir, f"case{tag}")
    with open(f, "w") as fh:
        fh.write(" ".join(map(str, case)) + "\n")
    cmd = [binary, "replay", f] + job.args
    res, fail, _, to = run_bin(cmd, env_for(job, os.path.join(wdir, "r" + tag), 600), 300)
    if to:
        fail = "a call does not return"
    return fail


def save_replay(prop, job, case, text):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    doc = {"property": prop, "job": job.to_dict(), "case": case, "what": text}
    h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(doc, f, indent=1)
    return p


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def check(prop, tier):
    t0 = time.time()
    spec = jobs.spec(prop, tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(OUT, "build", f"{prop}-{os.getpid()}")
    os.makedirs(bdir, exist_ok=True)
    limit = 780 if tier == "quick" else 4 * 3600
    job_timeout = spec.get("timeout", 500 if tier == "quick" else 3 * 3600)
    results, failures, broken = [], [], []
    bins = {}
    for j in spec["jobs"]:
        bins.setdefault(bin_key(j), []).append(j)
    # longest compilations and runs first is not known: keep the order given
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {}
        todo = []
        for key, js in bins.items():
            futs[ex.submit(build, js[0], bdir)] = ("build", js)
        n = 0
        pending = set(futs)
        while pending:
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                what, js = futs.pop(f)
                if what == "build":
                    b, err = f.result()
                    if b is None:
                        broken.append((js[0], err))
                        continue
                    for j in js:
                        n += 1
                        left = max(5, limit - (time.time() - t0))
                        g = ex.submit(run_job, j, b, bdir, n,
                                      min(j.budget or spec["budget"], left),
                                      min(job_timeout, left + 60))
                        futs[g] = (("run", b), j)
                        pending.add(g)
                else:
                    res, fail, case, to = f.result()
                    if fail is not None:
                        failures.append((js, what[1], fail, case))
                    else:
                        results.append((js, res, to))
    violations = []
    for (job, b, fail, case) in failures:
        r = [replay_case(job, b, case, bdir, str(i)) for i in range(2)]
        if all(x is not None for x in r):
            violations.append((job, case, r[0]))
        else:
            # does the whole exploration fail again?
            res2, fail2, case2, to2 = run_job(job, b, bdir, 9999, spec["budget"], job_timeout)
            if fail2 is not None:
                violations.append((job, case2 or case, fail2))
            else:
                broken.append((job, "failed once and not again: " + fail))
                results.append((job, res2, to2))
    # a program the property says must compile, and does not
    for (job, err) in list(broken):
        if job.must_compile and any(r[1] for r in results):
            first = next((x for x in err.splitlines() if "error" in x), err[:300])
            violations.append((job, [], "does not compile: " + first[:300]))
            broken.remove((job, err))
    kf = known_findings(prop)
    real = []
    for (job, case, text) in violations:
        hit = next((k for k in kf if k[0].search(text)), None)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[1]}")
        else:
            real.append((job, case, text))
    # evidence
    tot = {}
    samples = []
    exhaustive = True
    for (job, res, to) in results:
        if not res:
            exhaustive = False
            continue
        exhaustive = exhaustive and res["exhaustive"]
        for k, v in res["counters"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") or k.endswith("_depth") or k.endswith("_height") else tot.get(k, 0) + v
        for s in res["samples"][:1]:
            if len(samples) < 6:
                samples.append({"configuration": job.label(), "case": s})
    if broken:
        exhaustive = False
    cov = {"configurations": len(spec["jobs"]),
           "configurations_completed": len([r for r in results if r[1]]),
           "exhaustive": bool(exhaustive),
           "bounds": spec["bounds"], "samples": samples}
    level = spec["level"]
    cov.update(tot)
    if level == "model_checking":
        cov["states"] = tot.get("states", 0)
        cov["transitions"] = tot.get("transitions", 0)
        cov["traces_validated_against_impl"] = tot.get("histories", 0)
        cov.pop("histories", None)
    else:
        cov["evaluations"] = tot.get("histories", 0)
        cov["distinct_nontrivial"] = tot.get("faults_hit", tot.get("states", 0))
        cov["rule"] = spec["rule"]
        cov.pop("histories", None)
    # no count under two names
    main_keys = [k for k in ("states", "transitions", "traces_validated_against_impl",
                             "evaluations", "distinct_nontrivial") if k in cov]
    for k in list(tot):
        if k in cov and k not in main_keys and (cov[k] == 0 or any(
                cov[k] == cov[m] for m in main_keys)):
            del cov[k]
    if not samples:
        samples.append({"configuration": spec["jobs"][0].label(), "case": "see bounds"})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    for (job, case, text) in real[:5]:
        p = save_replay(prop, job, case, text)
        print(f"# {job.label()}: {text}")
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    for (job, err) in broken:
        print(f"# {job.label()}: no answer: " + "\n".join(err.splitlines()[:12]), file=sys.stderr)
        if rc == 0:
            rc = 2
    shutil.rmtree(bdir, ignore_errors=True)
    if rc == 0:
        print(f"OK property={prop} tier={tier} "
              f"states={cov.get('states', '-')} transitions={cov.get('transitions', '-')} "
              f"histories={tot.get('histories', 0)} exhaustive={exhaustive} "
              f"wall={ev['wall_s']}s")
    if os.environ.get("MC_VERBOSE"):
        for (job, res, to) in results:
            print(job.label(), job.args, res and res["counters"], res and res["exhaustive"], to)
    return rc


def replay(path):
    doc = json.load(open(path))
    job = jobs.Job.from_dict(doc["job"])
    bdir = os.path.join(OUT, "build", f"replay-{os.getpid()}")
    os.makedirs(bdir, exist_ok=True)
    b, err = build(job, bdir)
    if b is None:
        print(err)
        fail = "does not compile" if job.must_compile else None
    elif doc["case"]:
        fail = replay_case(job, b, doc["case"], bdir, "0")
    else:
        _, fail, _, _ = run_job(job, b, bdir, 0, 600, 900)
    shutil.rmtree(bdir, ignore_errors=True)
    if fail is not None:
        print(f"# {job.label()}: {fail}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("the case passes")
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)


main()
