#!/usr/bin/env python3
"""python3 run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of one property from /repo's working tree, searches for a violation with
generated cases, and writes evidence/ID.json.  Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken.  Exit 2: this check could not run."""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EVALROUND_REPO", "/repo")
CORES = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, HERE)
from specs import SPECS

CACHE = os.path.join(HERE, "build", "cache")
T0 = time.time()
# Once a case has failed, the other processes of the run get GRACE seconds more (none after a hang), and shrinking and
# replaying stay within DEADLINE, so that a change under which many cases hang is reported and not waited for.
GRACE, DEADLINE = 90, 800
first_failure = []
quick_run = [False]
listed_findings = []
_versions = {}


def version(cxx):
    if cxx not in _versions:
        _versions[cxx] = subprocess.run([cxx, "--version"], stdout=subprocess.PIPE, text=True).stdout
    return _versions[cxx]


def build_all(tier):
    units = [Unit(u) for pid in SPECS for u in SPECS[pid]["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda u: u.compile(), units))
    for u in units:
        if u.error:
            print(f"--- {u.name} does not build\n{u.error[-2000:]}")
    keep = {u.bin for u in units}
    for f in os.listdir(CACHE):
        p = os.path.join(CACHE, f)
        if p not in keep and time.time() - os.path.getmtime(p) > 6 * 3600:
            os.unlink(p)
    log(f"{len(units)} harness binaries, {sum(u.cached for u in units)} were there already")
    return 1 if any(u.error and not u.spec.get("optional") for u in units) else 0


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def limits():
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (hard, hard))
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Unit:
    """One binary: a source with its defines and flags."""

    def __init__(self, spec):
        self.name = spec["name"]
        self.spec = spec
        self.bin = None
        self.error = None
        self.cached = False

    def compile(self):
        s = self.spec
        cxx = s.get("cxx", "g++")
        cmd = [cxx, "-std=c++17", "-w", "-g1", *s.get("opt", ["-O1"]), f"-I{REPO}/include", f"-I{HERE}/harness"]
        if s.get("omp", True):
            cmd.append("-fopenmp")
        else:
            cmd.append(f"-I{HERE}/harness/noomp")
        cmd += [f"-D{d}" for d in s.get("defs", [])] + s.get("flags", [])
        src = os.path.join(HERE, "harness", s["src"])
        libs = s.get("libs", ["-lgmpxx", "-lgmp", "-lpthread"])
        # A binary is reused only if the compiler, the flags and the preprocessed text (the
        # harness with every header of the repository expanded) are the same to the byte.
        pre = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode:
            self.error = pre.stderr.decode(errors="replace")
            return self
        h = hashlib.sha256()
        h.update("\0".join([version(cxx)] + cmd + libs).encode())
        h.update(pre.stdout)
        os.makedirs(CACHE, exist_ok=True)
        self.bin = os.path.join(CACHE, h.hexdigest()[:32])
        if os.path.exists(self.bin):
            self.cached = True
            os.utime(self.bin)
            return self
        tmp = f"{self.bin}.{os.getpid()}.{self.name}"
        p = subprocess.run(cmd + ["-o", tmp, src] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            self.error = p.stdout
            return self
        os.rename(tmp, self.bin)
        return self


def run_env(spec, threads):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = str(threads)
    e["OMP_STACKSIZE"] = "256m"
    e["OMP_WAIT_POLICY"] = "passive"
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    e["MSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:strict_memcmp=0:check_printf=0" + "".join(
        f":intercept_{f}=0" for f in "strlen memcmp strstr strchr strndup strspn memmem strtok strpbrk strcmp".split())
    e["TSAN_OPTIONS"] = "halt_on_error=1"
    e.update(spec.get("env", {}))
    return e


def run_cmd(cmd, env, timeout):
    if quick_run[0]:
        timeout = min(timeout, max(5, DEADLINE - (time.time() - T0)))
    p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return p.returncode, out.decode(errors="replace"), True


def read_progress(path):
    try:
        b = open(path, "rb").read()
        return [int.from_bytes(b[8 * i:8 * i + 8], "little") for i in range(4)]
    except Exception:
        return None


def run_shard(unit, prop, shard, shards, tier, seed, work, hang_s):
    """One process, cases shard, shard+shards, ...; watched for death and for a case that hangs."""
    base = os.path.join(work, f"{unit.name}.{shard}")
    out, prog = base + ".json", base + ".progress"
    for f in (out, prog, out + ".replay"):
        if os.path.exists(f):
            os.unlink(f)
    scale = unit.spec.get("scale", {}).get(tier, "1/1")
    cmd = [unit.bin, "--out", out, "--progress", prog, "--tier", tier, "--seed", str(seed), "--shard", f"{shard}/{shards}",
           "--scale", scale]
    if unit.spec.get("only"):
        cmd += ["--only", unit.spec["only"]]
    if quick_run[0] and first_failure and time.time() > first_failure[0] and not listed_findings:
        return {"unit": unit, "shard": shard, "shards": shards, "rc": 0, "hung": False, "cut": True, "data": None, "secs": 0, "log": "", "progress": None}
    logf = open(base + ".log", "wb")
    p = subprocess.Popen(cmd, env=run_env(unit.spec, unit.spec.get("threads", 1)), stdin=subprocess.DEVNULL,
                         stdout=logf, stderr=subprocess.STDOUT, preexec_fn=limits, start_new_session=True)
    last, since, hung, cut, began = None, time.time(), False, False, time.time()
    while True:
        try:
            p.wait(timeout=0.1)
            break
        except subprocess.TimeoutExpired:
            cur = read_progress(prog)
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang_s:
                hung = True
                first_failure[:] = [time.time()]
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
            if quick_run[0] and first_failure and time.time() > first_failure[0] and not listed_findings:
                cut = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    logf.close()
    r = {"unit": unit, "shard": shard, "shards": shards, "rc": p.returncode, "hung": hung, "cut": cut, "data": None, "secs": time.time() - began}
    try:
        r["data"] = json.load(open(out))
    except Exception:
        pass
    r["log"] = open(base + ".log", "rb").read()[-6000:].decode(errors="replace")
    r["progress"] = read_progress(prog)
    if (r["data"] or {}).get("failure") or (not r["data"] and not cut):
        first_failure[:] = [min([time.time() + GRACE] + first_failure)]
    return r


def prop_names(unit):
    rc, out, _ = run_cmd([unit.bin, "--list"], run_env(unit.spec, 1), 60)
    return [l.split()[0] for l in out.splitlines() if l.strip()]


def choice_replay(path, prop, unit, seed, idx, shard, shards, tier, mode, choices=()):
    with open(path, "w") as f:
        f.write(f"prop {prop}\nmode {mode}\nseed {seed}\nindex {idx}\nshard {shard} {shards}\ntier {tier}\n")
        f.write(f"choices {len(choices)} {' '.join(map(str, choices))}\n")


def finish_replay(pid, unit, src, dst, extra):
    body = open(src).read() if os.path.exists(src) else ""
    with open(dst, "w") as f:
        f.write(f"check {pid}\nunit {unit.name}\n")
        for k, v in extra.items():
            f.write(f"note {k}: {str(v).strip()[:1500]!r}\n")
        f.write(body)


def handle_failure(pid, spec, r, tier, seed, work, hang_s):
    """Shrink a failing case, replay it, and return (replay path, message)."""
    unit = r["unit"]
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(work, f"{unit.name}.{r['shard']}.json.replay")
    died = r["data"] is None
    fail = None if died else r["data"].get("failure")
    if died:
        pr = r["progress"] or [0, 0, 0, 0]
        names = prop_names(unit)
        prop = names[pr[0]] if pr[0] < len(names) else (names or ["?"])[0]
        if unit.spec.get("only"):
            prop = unit.spec["only"]
        what = f"a case did not finish within {hang_s} s" if r["hung"] else f"the process died (status {r['rc']})"
        tail = [l for l in r["log"].splitlines() if l.strip()]
        hit = [l for l in tail if re.search(r"ERROR: |runtime error|Assertion|WARNING: ", l)]
        message = f"{what} in {prop} case {pr[1]}: {(hit or tail or [''])[0][:300]}"
        choice_replay(raw, prop, unit, seed, pr[1], r["shard"], r["shards"], tier, "history")
        mode = "history"
    else:
        message = f"{fail['prop']}: {fail['message']}"
        mode = "case"
    tag = hashlib.sha1(message.encode()).hexdigest()[:8]
    dst = os.path.join(rdir, f"{pid}-{unit.name}-{tag}.txt")
    if r["hung"]:
        finish_replay(pid, unit, raw, dst, {"message": message, "log": r["log"][-800:]})
        return dst, message
    env = run_env(unit.spec, 1)
    if mode == "case":
        small = os.path.join(work, f"{unit.name}.{r['shard']}.small")
        budget = spec.get("shrink_s", 45)
        rc, out, to = run_cmd([unit.bin, "--replay", raw, "--shrink-to", small, "--budget", str(budget), "--case-s", str(min(25, hang_s))], env, budget + 90)
        repro = 0
        src = raw
        if rc == 1 and os.path.exists(small):
            src = small
        if "NOT-REPRODUCED" not in out:
            for _ in range(3):
                rc, out2, to = run_cmd([unit.bin, "--replay", src], run_env(unit.spec, unit.spec.get("threads", 1)), hang_s)
                if rc not in (0, 3) or to:
                    repro += 1
                if to:
                    break
        if repro:
            finish_replay(pid, unit, src, dst, {"first message": message, "replays that failed": f"{repro} of 3" if not to else "the replay does not end"})
            m = re.search(r"^message (.*)$", open(src).read(), re.M)
            return dst, (m.group(1) if m else message)
        # depends on what ran before it in the same process: keep the whole history
        hist = os.path.join(work, f"{unit.name}.{r['shard']}.hist")
        choice_replay(hist, fail["prop"], unit, seed, fail["index"], r["shard"], r["shards"], tier, "history")
        raw = hist
    rc, out, to = run_cmd([unit.bin, "--replay", raw] + (["--only", unit.spec["only"]] if unit.spec.get("only") else []),
                          run_env(unit.spec, unit.spec.get("threads", 1)), 240)
    finish_replay(pid, unit, raw, dst, {"message": message, "history replay": "fails again" if rc not in (0, 3) or to else "did not fail again", "log": r["log"][-800:]})
    return dst, message


def fuzz_unit(unit, tier, seed, work):
    """A libFuzzer unit: the bytes are the choice sequence of one property."""
    s = unit.spec
    runs = s["runs"][tier]
    res = []

    def one(k):
        corpus = os.path.join(work, f"{unit.name}.corpus{k}")
        shutil.rmtree(corpus, ignore_errors=True)
        os.makedirs(corpus)
        rep = os.path.join(work, f"{unit.name}.{k}.fuzzreplay")
        if os.path.exists(rep):
            os.unlink(rep)
        env = run_env(s, 1)
        env["PBT_FUZZ_REPLAY"] = rep
        env["PBT_FUZZ_PROP_NAME"] = s["prop"]
        t = s["seconds"][tier]
        cmd = [unit.bin, f"-seed={seed * 100 + k + 1}", f"-runs={runs}", f"-max_total_time={t}", "-max_len=512", "-len_control=20",
               "-use_value_profile=1", "-rss_limit_mb=4000", "-timeout=60", f"-artifact_prefix={corpus}/", "-print_final_stats=1", corpus]
        rc, out, to = run_cmd(cmd, env, t + 120)
        n = re.search(r"number_of_executed_units:\s*(\d+)", out)
        shutil.rmtree(corpus, ignore_errors=True)
        return {"k": k, "rc": rc, "out": out, "execs": int(n.group(1)) if n else 0, "replay": rep}

    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(s.get("jobs", CORES))))
    return res


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.build_all:
        return build_all(a.tier)
    pid, tier, seed = a.id, a.tier, a.seed
    spec = SPECS[pid]
    quick_run[0] = tier == "quick"
    listed_findings[:] = known_findings(pid)
    work = os.path.join(HERE, "build", pid + ("-t" if tier == "thorough" else ""))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    units_spec = [u for u in spec["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    if a.replay:
        m = re.search(r"^unit (\S+)$", open(a.replay).read(), re.M)
        units_spec = [u for u in spec["units"] if u["name"] == m.group(1)]
    units = [Unit(u) for u in units_spec]
    log(f"{pid} tier={tier} seed={seed}: building {len(units)} harness binaries from {REPO}")
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda u: u.compile(), units))
    bad = [u for u in units if u.error]
    # a second compiler that does not accept the sources takes its own units away, nothing else
    left_out = [u for u in bad if u.spec.get("optional")] if len(bad) < len(units) else []
    for u in left_out:
        log(f"left out, does not build: {u.name}: {u.error[:200]}")
    units = [u for u in units if u not in left_out]
    bad = [u for u in bad if u not in left_out]
    # the form of the API that this unit instantiates must compile: if everything else builds, a
    # compiler error there is itself the violation, with the compiler's output as the replay file
    if bad and len(bad) < len(units) and all(u.spec.get("must_build") for u in bad):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{bad[0].name}-build.txt")
        with open(path, "w") as f:
            f.write(f"check {pid}\nunit {bad[0].name}\n{bad[0].error[:8000]}")
        print(bad[0].error[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if bad:
        for u in bad[:1]:
            print(f"--- {u.name} does not build\n{u.error[-3000:]}")
        print(f"ERROR: {pid}: the harness does not build against {REPO}")
        return 2
    log(f"built ({sum(u.cached for u in units)} unchanged since they were last built)")
    if a.replay:
        u = units[0]
        rc, out, to = run_cmd([u.bin, "--replay", a.replay] + (["--only", u.spec["only"]] if u.spec.get("only") else []),
                              run_env(u.spec, u.spec.get("threads", 1)), 600)
        print(out[-3000:])
        if rc != 0 or to:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0

    hang_s = spec.get("hang_s", 200)
    results, fuzz = [], []
    failures = []
    # committed regression cases first: shrunk failures of repaired defects and of planted bugs
    regress = 0
    rdir = os.path.join(HERE, "regress", pid)
    byname = {u.name: u for u in units}
    for f in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        path = os.path.join(rdir, f)
        m = re.search(r"^unit (\S+)$", open(path).read(), re.M)
        u = byname.get(m.group(1)) if m else None
        if not u:
            continue
        regress += 1
        rc, out, to = run_cmd([u.bin, "--replay", path], run_env(u.spec, u.spec.get("threads", 1)), hang_s)
        if rc not in (0, 3) or to:
            failures.append((path, "regression case: " + ("does not end" if to else out.strip()[-300:])))
            if to:
                break

    plain = [u for u in units if not u.spec.get("fuzz")]
    jobs = []
    for u in plain:
        n = u.spec.get("shards", CORES if len(plain) < CORES else max(1, (2 * CORES) // len(plain)))
        jobs += [(u, s, n) for s in range(n)]
    jobs.sort(key=lambda j: j[1])
    par = spec.get("parallel", CORES)
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda j: run_shard(j[0], pid, j[1], j[2], tier, seed, work, hang_s), jobs))
    slow = sorted(results, key=lambda r: -r["secs"])[:3]
    log(f"{len(results)} shards done, slowest " + ", ".join(f"{r['unit'].name}/{r['shard']} {r['secs']:.1f}s" for r in slow))
    for u in units:
        if u.spec.get("fuzz"):
            fr = fuzz_unit(u, tier, seed, work)
            fuzz.append((u, fr))
            log(f"fuzzing {u.name}: {sum(x['execs'] for x in fr)} executions")

    seen = set()
    for r in sorted(results, key=lambda r: (r["data"] is None, r["shard"])):
        if r.get("cut") or (r["data"] is not None and not r["data"].get("failure")):
            continue
        if r["data"] is None and r["rc"] == 3:
            print(r["log"])
            print(f"ERROR: {pid}: harness error in {r['unit'].name}")
            return 2
        key = (r["unit"].spec["src"], (r["data"] or {}).get("failure", {}).get("prop", "died"))
        if key in seen or len(failures) >= 3:
            continue
        seen.add(key)
        failures.append(handle_failure(pid, spec, r, tier, seed, work, hang_s))
    for u, fr in fuzz:
        for x in fr:
            if x["rc"] == 0:
                continue
            dst = os.path.join(HERE, "replays", f"{pid}-{u.name}-{x['k']}.txt")
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if x["rc"] == 77 and os.path.exists(x["replay"]):
                m = re.search(r"^message (.*)$", open(x["replay"]).read(), re.M)
                base = byname.get(u.spec.get("replay_unit", ""), u)
                finish_replay(pid, base, x["replay"], dst, {"found by": "libFuzzer " + u.name})
                failures.append((dst, m.group(1) if m else "fuzz failure"))
            elif re.search(r"ERROR: (Address|Memory|libFuzzer: deadly)|runtime error", x["out"]):
                hit = re.search(r".*(ERROR: |runtime error).*", x["out"])
                with open(dst, "w") as f:
                    f.write(f"check {pid}\nunit {u.name}\n{x['out'][-6000:]}")
                failures.append((dst, hit.group(0)[:300] if hit else "fuzz crash"))
            else:
                print(x["out"][-2000:])
                print(f"ERROR: {pid}: fuzzer {u.name} ended with {x['rc']}")
                return 2
            break

    # evidence
    ev = nt = cmpd = 0
    hashes, labels, per, tight, samples = set(), {}, {}, {}, []
    for r in results:
        d = r["data"]
        if not d:
            continue
        ev += d["evaluations"]
        cmpd += d["compared"]
        # a unit built with a sanitizer repeats cases of the plain unit: the same case counts once
        hashes.update(d["hashes"])
        for k, v in d["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in d["per_prop"].items():
            per[k] = per.get(k, 0) + v
        for k, v in d.get("tight", {}).items():
            tight[k] = max(v, tight.get(k, 0))
        samples += d["samples"]
    fexec = sum(x["execs"] for _, fr in fuzz for x in fr)
    uniq, got = [], set()
    for s in samples:
        k = s.split("#")[0]
        if k not in got:
            got.add(k)
            uniq.append(s[:700])
    uniq += [s[:700] for s in samples if s[:700] not in uniq][: max(0, 6 - len(uniq))]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev + fexec, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": uniq[:12],
            "generated_cases": ev, "coverage_guided_executions": fexec, "regression_replays": regress,
            "units_left_out": [u.name for u in left_out],
            "largest_error_over_its_bound": tight,
            "oracle_comparisons": cmpd, "cases_per_subproperty": per, "labels": labels,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(failures),
    }
    if evidence["coverage"]["evaluations"] == 0 or len(hashes) == 0:
        if not failures:
            print(f"ERROR: {pid}: nothing was explored")
            return 2
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if not os.environ.get("KEEP_WORK"):
        shutil.rmtree(work, ignore_errors=True)

    rc = 0
    listed = known_findings(pid)
    for path, msg in failures:
        k = next((k for k in listed if k[0] in msg), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[1]}")
            continue
        print(f"  {msg}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    log(f"{pid}: {ev} cases ({len(hashes)} distinct non-trivial), {fexec} fuzz executions, {cmpd} comparisons, "
        f"{len(failures)} violations")
    return rc


if __name__ == "__main__":
    sys.exit(main())
