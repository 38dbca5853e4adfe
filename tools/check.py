#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property.

Builds picotm from /repo's working tree, runs the monitored workloads that
tools/jobs.py lists for the property, and judges what the monitors reported.
Exit 0: held; 1: VIOLATION lines; 2: the check itself failed."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from concurrent.futures import ThreadPoolExecutor

VERIF = vbuild.VERIF
NCPU = os.cpu_count() or 4

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4096:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:"
                    "detect_deadlocks=0:allocator_may_return_null=1:suppressions=%s" % os.path.join(VERIF, "tools", "tsan.supp"),
    "LSAN_OPTIONS": "suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "tools", "lsan.supp"),
    "MSAN_OPTIONS": "exitcode=66:allocator_may_return_null=1:print_summary=1",
}

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")
FRAME_TSAN = re.compile(r"^\s+#\d+ (\S+) (\S+?)(?::\d+)* \(")

def repo_frame(lines):
    for l in lines:
        m = FRAME.search(l) or FRAME_TSAN.search(l)
        if m and vbuild.REPO + "/" in m.group(2):
            return m.group(1)
        if not l.strip():
            break
    for l in lines:
        m = FRAME.search(l) or FRAME_TSAN.search(l)
        if m and VERIF in m.group(2):
            return "harness:" + m.group(1)
    return "?"

def parse_stderr(text):
    """-> list of (signature, excerpt)"""
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", l)
        if m:
            out.append((f"asan:{m.group(1)}:{repo_frame(lines[i+1:i+60])}", "\n".join(lines[i:i+40])))
        m = re.search(r"ERROR: LeakSanitizer: detected memory leaks", l)
        if m:
            fr = repo_frame(lines[i+2:i+60])
            out.append((f"leak:{fr}", "\n".join(lines[i:i+60])))
        m = re.search(r"WARNING: MemorySanitizer: (\S+)", l)
        if m:
            out.append((f"msan:{repo_frame(lines[i+1:i+40])}", "\n".join(lines[i:i+40])))
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", l)
        if m:
            out.append((f"tsan:{m.group(1).replace(' ', '-')}:{repo_frame(lines[i+1:i+60])}", "\n".join(lines[i:i+60])))
        m = re.search(r"runtime error: (.*)", l)
        if m:
            kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
            out.append((f"ubsan:{kind}:{repo_frame(lines[i+1:i+30])}", "\n".join(lines[i:i+20])))
        m = re.search(r"([^:\s/]+):(\d+): (\S*?):? ?Assertion `(.*)' failed", l)
        if m:
            out.append((f"assert:{m.group(4)[:80]}", l))
        m = re.search(r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer): (nested bug|CHECK failed|DEADLYSIGNAL)", l)
    seen, res = set(), []
    for s, t in out:
        if s not in seen:
            seen.add(s)
            res.append((s, t))
    return res

class Result:
    def __init__(self):
        self.stats, self.viol, self.samples, self.errors = {}, [], [], []
        self.cases = 0
        self.notes = []

def big_tmp():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"

# Signatures that violate the property; others belong to other properties' checks and are ignored.
SIGS = [None]
def filtered(viol):
    if SIGS[0]:
        viol[:] = [v for v in viol if SIGS[0].match(v[0])]
# Once a violation is known, the other jobs get little more time.
FOUND = [None]
AFTER_FOUND = 45

def past_found():
    return FOUND[0] is not None and time.time() - FOUND[0] > AFTER_FOUND

def run_proc(cmd, env, timeout, cwd, preexec=None):
    outp = tempfile.NamedTemporaryFile(dir=cwd, prefix="out", delete=False)
    errp = tempfile.NamedTemporaryFile(dir=cwd, prefix="err", delete=False)
    p = subprocess.Popen(cmd, stdout=outp, stderr=errp, env=env, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    to = False
    rc = None
    end = time.time() + timeout
    while rc is None and not to:
        try:
            rc = p.wait(min(5, max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            to = time.time() >= end or past_found()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if rc is None:
        rc = p.wait()
    outp.close(); errp.close()
    with open(outp.name, errors="replace") as f: o = f.read()
    with open(errp.name, errors="replace") as f: e = f.read(4 << 20)
    os.unlink(outp.name); os.unlink(errp.name)
    return rc, o, e, to

def job_cmd(job, binary, seed, frm, n, cur, hashes, d):
    a = [binary, "--seed", str(seed), "--from", str(frm), "--cases", str(n), "--dir", d]
    if cur: a += ["--cur", cur]
    if hashes: a += ["--hashes", hashes]
    for k, v in job.get("args", {}).items():
        a += ["--" + k, str(v)]
    return a

def replay_text(prop, job, seed, case, tier):
    j = {k: v for k, v in job.items() if k in ("name", "harness", "variant", "args", "env", "extra")}
    return json.dumps(dict(property=prop, tier=tier, seed=seed, case=case, job=j))

def run_job(prop, job, tier, seed, work, deadline):
    res = Result()
    variant = job.get("variant", "asan")
    binary = vbuild.build_harness(job["harness"], variant, job.get("extra", ()))
    seed = seed + job.get("seedoff", 0)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("LC_"): del env[k]
    env["LANG"] = "C"
    env.update(SAN_ENV)
    for k, v in job.get("env", {}).items():
        env[k] = env[k] + ":" + v if k in SAN_ENV else v
    frm, end = job["range"]
    restarts = 0
    hang_retry = set()
    while frm < end:
        if res.viol and FOUND[0] is None and tier == "quick":
            FOUND[0] = time.time()
        if past_found():
            res.notes.append(f"{job['name']}: stopped at case {frm} of {end}: other violations found")
            break
        d = tempfile.mkdtemp(dir=work)
        cur = os.path.join(d, "cur")
        hashes = os.path.join(work, "h-%s-%d.bin" % (job["name"], id(res)))
        left = max(30, deadline - time.time())
        cmd = job_cmd(job, binary, seed, frm, end - frm, cur, hashes, d)
        rc, out, err, to = run_proc(cmd, env, min(job.get("timeout", 600), left), d)
        try:
            with open(cur, "rb") as f:
                case = int.from_bytes(f.read(8), "little")
        except OSError:
            case = frm
        done = hang = False
        for l in out.splitlines():
            if l.startswith("@VIOL "):
                sig, _, txt = l[6:].partition(" | ")
                m = re.match(r"case=(\d+)", txt)
                res.viol.append((sig, txt, replay_text(prop, job, seed, int(m.group(1)) if m else case, tier)))
            elif l.startswith("@STAT "):
                _, k, v = l.split()
                res.stats[k] = res.stats.get(k, 0) + int(v)
            elif l.startswith("@SAMPLE "):
                res.samples.append(l[8:])
            elif l.startswith("@DONE"):
                done = True
            elif l.startswith("@HANG"):
                hang = True
        san = parse_stderr(err)
        for sig, txt in san:
            res.viol.append((sig, txt, replay_text(prop, job, seed, case, tier)))
        filtered(res.viol)
        shutil.rmtree(d, ignore_errors=True)
        if done:
            res.cases += end - frm
            if rc not in (0,) and not san:
                if SIGS[0] and rc == 1:
                    pass            # violations of other properties
                elif rc == 66 or rc < 0:
                    res.viol.append((f"exit:{rc}", err[-3000:], replay_text(prop, job, seed, case, tier)))
                else:
                    res.errors.append(f"{job['name']}: exit {rc}: {err[-400:]}")
            break
        res.cases += max(0, case - frm)
        if hang or to:
            if past_found():
                res.notes.append(f"{job['name']}: stopped at case {case} of {end}: other violations found")
                break
            if time.time() >= deadline:
                res.notes.append(f"{job['name']}: stopped at case {case} of {end}: time is up")
                break
            if to and not hang and case > frm:
                frm = case                 # it was making progress
                continue
            if SIGS[0] and case in hang_retry:
                res.notes.append(f"{job['name']}: stopped at case {case} of {end}: no progress")
                break
            if case in hang_retry or len(hang_retry) >= 2:
                res.viol.append((f"hang:{job['name']}", f"no progress in case {case}; hangs seen in cases {sorted(hang_retry)} before",
                                 replay_text(prop, job, seed, case, tier)))
                break
            elif to and left < 60:
                res.notes.append(f"{job['name']}: stopped at case {case} of {end}: time is up")
                break
            else:
                hang_retry.add(case)
                res.notes.append(f"{job['name']}: case {case} timed out once (inconclusive), run again")
                frm = case
        else:
            if rc == 2:
                res.errors.append(f"{job['name']}: harness error: {err[-600:]}")
                break
            if not san:
                name = signal.Signals(-rc).name if rc < 0 else str(rc)
                res.viol.append((f"crash:{name}:{job['name']}", err[-3000:] or f"exit status {rc}",
                                 replay_text(prop, job, seed, case, tier)))
                filtered(res.viol)
            frm = case + 1
        restarts += 1
        if restarts > 6:
            res.notes.append(f"{job['name']}: gave up after {restarts} restarts at case {frm} of {end}")
            break
    if res.viol and FOUND[0] is None and tier == "quick":
        FOUND[0] = time.time()
    return res

def load_known():
    known = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) sig=\[(.*?)\] (.*)", l)
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import jobs as J
    spec = J.SPECS[a.prop]
    if spec.get("sigs"):
        SIGS[0] = re.compile(spec["sigs"])
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    jobs = [dict(j) for j in spec["jobs"]]
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j["name"])]
    for j in jobs:
        j["cases"] = [max(1, int(c * a.scale)) if c else 0 for c in j["cases"]]
    jobs = [j for j in jobs if j["cases"][0 if tier == "quick" else 1]]
    try:
        for v in sorted({j.get("variant", "asan") for j in jobs}):
            vbuild.build_lib(v)
        hs = sorted({(j["harness"], j.get("variant", "asan"), tuple(j.get("extra", ()))) for j in jobs})
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda h: vbuild.build_harness(*h), hs))
    except vbuild.BuildError as e:
        print("BUILD-ERROR", str(e)[-4000:])
        return 2
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vf-", dir=big_tmp())
    results = {}
    # weighted pool: each job takes `weight` of 2*NCPU units
    units = 2 * NCPU
    cv = threading.Condition()
    free = [units]
    def one(j):
        w = min(units, j.get("weight", 2))
        with cv:
            while free[0] < w:
                cv.wait()
            free[0] -= w
        try:
            t = time.time()
            r = run_job(a.prop, j, tier, a.seed, work, deadline)
            r.wall = time.time() - t
            return r
        finally:
            with cv:
                free[0] += w
                cv.notify_all()
    # Jobs of single-threaded cases are split into ranges of cases that run in parallel.
    parts = []
    for j in jobs:
        n = j["cases"][0 if tier == "quick" else 1]
        k = min(j.get("shards", 8 if j.get("weight", 2) <= 2 else 1), max(1, n // 20))
        for i in range(k):
            parts.append(dict(j, range=(n * i // k, n * (i + 1) // k)))
    try:
        with ThreadPoolExecutor(len(parts)) as ex:
            futs = [(j, ex.submit(one, j)) for j in sorted(parts, key=lambda j: -j.get("weight", 2))]
            for j, f in futs:
                results.setdefault(j["name"], []).append(f.result())
        hashes = set()
        import array
        for fn in os.listdir(work):
            if fn.startswith("h-"):
                arr = array.array("Q")
                with open(os.path.join(work, fn), "rb") as f:
                    b = f.read()
                arr.frombytes(b[:len(b) // 8 * 8])
                hashes.update(arr)
    except vbuild.BuildError as e:
        print("BUILD-ERROR", str(e)[-4000:])
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    stats, samples, errors, notes, viol = {}, [], [], [], {}
    evals = 0
    perjob = {}
    for name, rs in results.items():
        samples += rs[0].samples[:2]
        perjob[name] = dict(cases=sum(r.cases for r in rs), wall_s=round(max(r.wall for r in rs), 1))
        for r in rs:
            for k, v in r.stats.items():
                stats[k] = stats.get(k, 0) + v
            errors += r.errors
            notes += r.notes
            evals += r.cases
            for sig, txt, rep in r.viol:
                viol.setdefault(sig, (txt, rep))
    known = load_known()
    bad, kn = [], []
    for sig, (txt, rep) in viol.items():
        if (a.prop, sig) in known:
            kn.append((sig, known[(a.prop, sig)]))
        else:
            bad.append((sig, txt, rep))
    for s, t in kn:
        print(f"KNOWN-FINDING: property={a.prop} [{s}] {t}")
    missing = [] if a.only or bad else [k for k in spec.get("require", []) if not stats.get(k)]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, (sig, txt, rep) in enumerate(bad):
        path = os.path.join(VERIF, "replays", f"{a.prop}-{i}.json")
        d = json.loads(rep); d["signature"] = sig; d["observed"] = txt
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  [{sig}] {txt[:3000 if a.v else 700]}")
    ev = dict(property=a.prop, tier=tier, seed=a.seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=spec["rule"],
                            samples=samples[:8], observed=stats, jobs=perjob,
                            known_findings=[s for s, _ in kn]),
              wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=spec.get("assumptions", []) + notes)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{a.prop} {tier}: {evals} executions, {len(hashes)} distinct non-trivial, build {tb:.1f}s, total {time.time()-t0:.1f}s")
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(stats.items())))
    if a.v:
        for k, v in perjob.items(): print("   ", k, v)
    for n in notes: print("  note:", n)
    for e in errors: print("  ERROR:", e)
    if bad:
        return 1
    if errors:
        return 2
    if missing or not evals or not hashes:
        print("  ERROR: the monitors observed nothing for:", missing or "everything")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
