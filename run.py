#!/usr/bin/env python3
"""Decides one property:  run.py <ID>            (VERIF_SEED, VERIF_TIER from the environment)
                          run.py --replay FILE   runs one recorded failure again
                          run.py --build         builds every configuration (setup)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer
(build error, time limit, harness error).
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BINS = os.path.join(VERIF, "bins")

CONFIGS = {
    "simd": ["--features", "simd"],
    "plain": [],
    "par": ["--features", "parallel"],
    "parsimd": ["--features", "parallel,simd"],
    "asan": ["--features", "simd"],
}
# configurations in which a property is run (default: simd, the crate's default features)
PLAN = {p: ["simd"] for p in ["C%02d" % i for i in range(1, 100)]}
PLAN.update({p: ["simd", "plain"] for p in ("C06", "C07", "C08", "C33")})
PLAN.update({p: ["simd", "par"] for p in ("C15", "C17", "C18", "C21", "C22", "C23", "C27", "C34", "C35")})
PLAN["C32"] = ["asan"]
PEERS = [("without SIMD", "plain", ""), ("multithreaded, 1 thread", "par", "1"), ("multithreaded, 3 threads", "par", "3"),
         ("multithreaded, 8 threads", "par", "8"), ("SIMD and 4 threads", "parsimd", "4")]
ASSUMPTIONS = {
    "": ["x86-64 with AVX2; rustc of this sandbox; debug assertions and overflow checks on",
         "reference models in harness/src/refs.rs and the property modules, written from the documentation and formulas"],
    "C31": ["thread schedules are whatever rayon produced during the run, for 1, 3, 4 and 8 worker threads"],
    "C32": ["AddressSanitizer sees an access outside an allocation or in its redzone; buffers have exactly the image's length"],
    "C30": ["faults are cuts and changes of the bytes of PNG files whose checksums are not repaired; decoders of other formats are the image crate's"],
}


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build(configs):
    """{config: binary} built from the current sources"""
    os.makedirs(BINS, exist_ok=True)
    with open(os.path.join(BINS, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = source_hash()
        here = os.path.join(BINS, key)
        for old in os.listdir(BINS):
            if old not in (key, "lock"):
                shutil.rmtree(os.path.join(BINS, old), ignore_errors=True)
        os.makedirs(here, exist_ok=True)
        jobs = []
        for c in configs:
            out = os.path.join(here, "pbt-" + c)
            if os.path.exists(out):
                continue
            target = os.path.join(HARNESS, "target-" + c)
            env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
            env.pop("RUSTFLAGS", None)
            cargo, tail, sub = ["cargo"], [], "debug"
            if c == "asan":
                env["RUSTFLAGS"] = "-Zsanitizer=address"
                cargo, tail, sub = ["cargo", "+nightly"], ["--target", "x86_64-unknown-linux-gnu"], "x86_64-unknown-linux-gnu/debug"
            # cargo judges freshness by modification times; the key above judges by content
            for d in (os.path.join(target, sub, ".fingerprint"),):
                if os.path.isdir(d):
                    for f in os.listdir(d):
                        if f.startswith(("imgproc-rs-", "pbt-")):
                            shutil.rmtree(os.path.join(d, f), ignore_errors=True)
            log_path = os.path.join(here, "build-%s.log" % c)
            p = subprocess.Popen(cargo + ["build", "--offline", "--bin", "pbt"] + CONFIGS[c] + tail, cwd=HARNESS, env=env,
                                 stdout=open(log_path, "w"), stderr=subprocess.STDOUT)
            jobs.append((c, p, os.path.join(target, sub, "pbt"), out, log_path))
        for c, p, made, out, log_path in jobs:
            if p.wait() != 0:
                for j in jobs:
                    j[1].poll() is None and j[1].kill()
                tail = "".join(open(log_path).readlines()[-40:])
                log(tail)
                die("configuration %s does not build" % c)
            shutil.copy2(made, out + ".tmp")
            os.rename(out + ".tmp", out)
        if source_hash() != key:
            die("the sources changed during the build")
        return {c: os.path.join(here, "pbt-" + c) for c in configs}


def child_env(bins):
    env = dict(os.environ, RUST_BACKTRACE="0", ASAN_OPTIONS="detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=0")
    env.setdefault("RAYON_NUM_THREADS", "3")
    peers = [(n, bins[c], t) for n, c, t in PEERS if c in bins]
    if peers:
        env["PBT_CHILDREN"] = ",".join("%s=%s=%s" % (n.replace(",", " and"), b, t) for n, b, t in peers)
    return env


def execute(cmd, env, limit):
    """(return code or None at the time limit, tail of the standard error)"""
    with tempfile.TemporaryFile() as err, tempfile.TemporaryFile() as out:
        limits = None if "pbt-asan" in cmd[0] else lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env, start_new_session=True, preexec_fn=limits)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        for f in (err, out):
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 20000))
        return rc, err.read().decode("utf8", "replace"), out.read().decode("utf8", "replace")


def crashed(rc):
    return rc is not None and (rc < 0 and rc != -signal.SIGKILL or rc == 99)


def crash_text(rc, err):
    lines = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "memory allocation" in l or "corrupt" in l or "overflowed its stack" in l
             or "unsafe precondition" in l or re.match(r"(READ|WRITE) of size", l) or "free()" in l or "malloc" in l]
    what = "sanitizer report" if rc == 99 else "signal %d" % -rc
    text = re.sub(r"==\d+==|0x[0-9a-f]+|thread T\d+", "", "; ".join(lines[:3]))
    return ("the process ends with %s: %s" % (what, text)).strip()


def find_crash(binary, pid, seed, tier, env, slots, scratch):
    """The case that ends the process, from the announcements of the threads: (sub, choices, rc, err)"""
    cands = [tuple(l.split()) for l in slots.replace("\0", "").splitlines() if len(l.split()) == 2]
    for sub, index in cands:
        trace = os.path.join(scratch, "trace")
        rc, err, _ = execute([binary, "run", pid, "--seed", str(seed), "--tier", tier, "--sub", sub, "--index", index, "--trace", trace], env, 120)
        if crashed(rc):
            return sub, [int(x) for x in open(trace).read().split()], rc, err
    return None


HANG = 97  # a case ran for longer than the engine's limit
ALONE = 60  # seconds for a case that is run alone


def find_hang(binary, pid, seed, tier, env, err, scratch):
    """The case that did not end: (sub, choices, None), or the failure whose reduction did not end: (sub, choices, message)"""
    trace = os.path.join(scratch, "trace")
    m = re.findall(r"^HANG (\S+) (\d+)$", err, re.M)
    if not m:
        return None
    sub, index = m[-1]
    message = None
    if int(index) == 2 ** 64 - 1:
        m = re.findall(r"^FAILED (\S+) (\d+) (.*)$", err, re.M)
        if not m:
            return None
        sub, index, message = m[-1]
    rc, _, _ = execute([binary, "run", pid, "--seed", str(seed), "--tier", tier, "--sub", sub, "--index", index, "--trace", trace], env, ALONE)
    if message is None and rc is not None:
        return None
    return sub, [int(x) for x in open(trace).read().split()], message


def shrink_crash(binary, pid, sub, choices, tier, env, scratch, hang=False):
    """Reduces the choices of a case that ends the process (or, with hang, does not end) to a locally minimal one"""
    f = os.path.join(scratch, "choices")
    t0 = time.time()

    def bad(ch):
        open(f, "w").write(" ".join(map(str, ch)))
        rc, err, _ = execute([binary, "replay", pid, sub, f, "--tier", tier], env, 10 if hang else 60)
        return rc is None if hang else crashed(rc)

    best = list(choices)
    changed = True
    while changed and time.time() - t0 < 60:
        changed = False
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() - t0 < 60:
            i = 0
            while i < len(best) and time.time() - t0 < 60:
                c = best[:i] + best[i + k:]
                if bad(c):
                    best, changed = c, True
                else:
                    i += k
            k //= 2
        for i in range(len(best)):
            if time.time() - t0 > 60:
                break
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    c = best[:i] + [v] + best[i + 1:]
                    if bad(c):
                        best, changed = c, True
                        break
    return best


def find_history(binary, pid, seed, tier, env, f, scratch):
    """A failure that its choices alone do not bring back in a new process depends on what the process did before. The shortest
    sequence of cases found that ends in it: (choices of each case, message), or None (it depends on the schedule)."""
    t0 = time.time()
    base = [binary, "history", pid, f["sub"], "--tier", tier, "--seed", str(seed)]

    def fails(indices):
        rc, _, out = execute(base + ["--indices", ",".join(map(str, indices))], env, 120)
        m = re.search(r"^FAILS: (.*)", out, re.M | re.S)
        return m.group(1).strip() if rc == 1 and m else None

    alone = os.path.join(scratch, "alone.json")
    rc, _, _ = execute([binary, "run", pid, "--seed", str(seed), "--tier", tier, "--sub", f["sub"], "--threads", "1", "--noshrink",
                        "--out", alone], env, 150)
    if rc != 1 or not os.path.exists(alone):
        return None
    hit = [s["failure"] for s in json.load(open(alone))["subs"] if s.get("failure")]
    if not hit:
        return None
    last = hit[0]["index"]
    before, message, k = None, None, 0
    while time.time() - t0 < 240:
        k = 1 if k == 0 else k * 2
        cand = list(range(max(0, last - min(k, 4000)), last))
        message = fails(cand + [last])
        if message:
            before = cand
            break
        if k >= 4000 or k >= last:
            return None
    if before is None:
        return None
    k = max(1, len(before) // 2)
    while time.time() - t0 < 300:
        i = 0
        while i < len(before) and time.time() - t0 < 300:
            cand = before[:i] + before[i + k:]
            m = fails(cand + [last])
            if m:
                before, message = cand, m
            else:
                i += k
        if k == 1:
            break
        k //= 2
    out = []
    for i in before + [last]:
        trace = os.path.join(scratch, "trace")
        execute([binary, "run", pid, "--seed", str(seed), "--tier", tier, "--sub", f["sub"], "--index", str(i), "--trace", trace], env, 60)
        out.append([int(x) for x in open(trace).read().split()])
    return out, message


def confirm(binary, pid, seed, tier, env, f, scratch):
    """(choices or list of choices, message) that bring the failure back in a new process"""
    path = os.path.join(scratch, "choices")
    for choices in (f["choices"], f["original"]):
        open(path, "w").write(" ".join(map(str, choices)))
        rc, err, out = execute([binary, "replay", pid, f["sub"], path, "--tier", tier], env, 120)
        if rc != 0:
            m = re.search(r"^FAILS: (.*)", out, re.M | re.S)
            return choices, m.group(1).strip() if m else f["message"]
    h = find_history(binary, pid, seed, tier, env, f, scratch)
    if h:
        return h[0], h[1] + " (after %d other cases in the same process)" % (len(h[0]) - 1)
    return f["original"], f["message"] + " (seen during the run; depends on the schedule of the threads)"


def write_replay(pid, config, sub, choices, tier, message, notes):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s-%s.json" % (pid, config, sub, hashlib.sha256(json.dumps([sub, choices]).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    json.dump({"property": pid, "config": config, "sub": sub, "tier": tier, "choices": choices, "message": message, "notes": notes,
               "how": "python3 /verif/run.py --replay " + path}, open(path, "w"), indent=1)
    return path


def needed(pid):
    return ["simd", "plain", "par", "parsimd"] if pid == "C31" else PLAN[pid]


def replay(path):
    r = json.load(open(path))
    bins = build(needed(r["property"]))
    env = child_env(bins if r["property"] == "C31" else {})
    if r["sub"] == "whole-run":
        for _ in range(3):
            rc, err, out = execute([bins[r["config"]], "run", r["property"], "--seed", str(r["choices"][0]), "--tier", r["tier"]], env, 3600)
            if crashed(rc):
                log(crash_text(rc, err))
                log("VIOLATION property=%s replay=%s" % (r["property"], path))
                return 1
        return 0
    with tempfile.NamedTemporaryFile("w", suffix=".choices") as f:
        many = bool(r["choices"]) and isinstance(r["choices"][0], list)
        f.write("\n".join(" ".join(map(str, c)) for c in (r["choices"] if many else [r["choices"]])))
        f.flush()
        rc, err, out = execute([bins[r["config"]], "history" if many else "replay", r["property"], r["sub"], f.name, "--tier", r["tier"]], env, 300)
    log(out)
    if rc == 0:
        return 0
    if rc == 1 or rc is None or crashed(rc):
        if rc is None:
            log("the case does not end within 300 s")
        elif rc != 1:
            log(crash_text(rc, err))
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 2


def main():
    if sys.argv[1] == "--build":
        build(list(CONFIGS))
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed0 = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    bins = build(needed(pid))
    built = time.time() - t0
    evaluations = distinct = comparisons = 0
    per, samples, rule, labels = [], [], "", {}
    violation = None
    limit = 840 - built if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix="pbt-run-")
    os.environ["TMPDIR"] = scratch
    try:
        for k, config in enumerate(PLAN[pid]):
            seed = seed0 + 1000003 * k
            env = child_env(bins if pid == "C31" else {})
            out, slots = os.path.join(scratch, "out-%s.json" % config), os.path.join(scratch, "slots-%s" % config)
            cmd = [bins[config], "run", pid, "--seed", str(seed), "--tier", tier, "--out", out, "--announce", slots]
            rc, err, _ = execute(cmd, env, limit - (time.time() - t0))
            if rc is None:
                die("time limit reached in configuration %s" % config)
            if rc == HANG:
                hit = find_hang(bins[config], pid, seed, tier, env, err, scratch)
                if not hit:
                    log(err[-3000:])
                    die("a case did not end, but does when it is run alone")
                sub, choices, message = hit
                if message is None:
                    message = "the case does not end within %d s" % ALONE
                    choices = shrink_crash(bins[config], pid, sub, choices, tier, env, scratch, hang=True)
                violation = (config, sub, choices, message, [])
                break
            if crashed(rc):
                text = open(slots, errors="replace").read() if os.path.exists(slots) else ""
                hit = find_crash(bins[config], pid, seed, tier, env, text, scratch)
                if not hit:
                    # memory damaged by one case can end the process in a later one: such a run is repeated as a whole
                    first = crash_text(rc, err)
                    rc, err, _ = execute(cmd, env, limit - (time.time() - t0))
                    if not crashed(rc):
                        log(err[-3000:])
                        die("the process ended (%s), but neither a single case nor another run reproduces it" % first)
                    violation = (config, "whole-run", [seed], first + " (no single case does this in a new process, the whole run does)", [])
                    break
                sub, choices, rc, err = hit
                message = crash_text(rc, err)
                small = shrink_crash(bins[config], pid, sub, choices, tier, env, scratch)
                violation = (config, sub, small, message, [])
                break
            if rc not in (0, 1) or not os.path.exists(out):
                log(err[-3000:])
                die("configuration %s ended with code %s" % (config, rc))
            r = json.load(open(out))
            rule = r["rule"]
            for s in r["subs"]:
                evaluations += s["evaluations"]
                distinct += s["distinct_nontrivial"]
                comparisons += s["comparisons"]
                per.append({"config": config, "sub": s["name"], "evaluations": s["evaluations"], "nontrivial": s["nontrivial_evaluations"],
                            "distinct_nontrivial": s["distinct_nontrivial"], "enumerated": s["enumerated"], "wall_s": s["wall_s"], "labels": s["labels"]})
                if k == 0 or not samples:
                    samples += s["samples"][:2]
                if s.get("failure") and violation is None:
                    f = s["failure"]
                    if "harness:" in f["message"]:
                        log(f["message"])
                        die("harness error")
                    choices, message = confirm(bins[config], pid, seed, tier, env, f, scratch)
                    violation = (config, f["sub"], choices, message, f["notes"])
            if violation:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule, "samples": samples[:10] or ["(none: the run ended early)"],
           "configurations": PLAN[pid], "subchecks": per}
    if comparisons:
        cov["comparisons"] = comparisons
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": ASSUMPTIONS[""] + ASSUMPTIONS.get(pid, []), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        log("%s %-8s %-14s %9d cases %9d distinct non-trivial %6.1f s" % (pid, p["config"], p["sub"], p["evaluations"], p["distinct_nontrivial"], p["wall_s"]))
    if violation:
        config, sub, choices, message, notes = violation
        path = write_replay(pid, config, sub, choices, tier, message, notes)
        log("%s (%s, %s): %s" % (pid, config, sub, message))
        for n in notes[:3]:
            log("  case:", n[:600])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("%s holds on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)" % (pid, evaluations, distinct, wall, built))
    return 0


if __name__ == "__main__":
    sys.exit(main())
