#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Builds the monitors of one property from /repo's working tree, runs them, judges what they report.
Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: no verdict.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from jobs import TARGETS, CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
NCPU = max(2, os.cpu_count() or 2)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=0:print_summary=1:symbolize=1:fast_unwind_on_malloc=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=68:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


class NoVerdict(Exception):
    pass


class Rejected(Exception):
    """The headers compile, but a use of the public interface that the property covers does not."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---- build -------------------------------------------------------------------------------------------------------------
def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_headers():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in (".git", "build", "out")]
        out += [os.path.join(d, f) for f in files if f.endswith((".hpp", ".h", ".inl", ".ipp"))]
    return out


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def build(names):
    """Builds the given targets; returns {name: path}; targets in which the headers themselves do not compile (an older standard, say) are left out
    if they are marked "may_reject"."""
    base = os.path.join(ROOT, "build")
    os.makedirs(base, exist_ok=True)
    inputs = repo_headers() + [os.path.join(HARNESS, f) for f in os.listdir(HARNESS)]
    paths, objs, links, target_of, left_out = {}, {}, [], {}, set()
    for n in names:
        t = TARGETS[n]
        key = digest(inputs, json.dumps(t, sort_keys=True) + REPO)
        d = os.path.join(base, n + "-" + key)
        exe = os.path.join(d, n)
        paths[n] = exe
        if os.path.exists(exe):
            continue
        for old in os.listdir(base):  # at most one build per target is kept
            if old.startswith(n + "-") and old != os.path.basename(d) and len(old) == len(os.path.basename(d)):
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        os_list = []
        for src in t["sources"]:
            flags, cxx = t["flags"], t["cxx"]
            if isinstance(src, (list, tuple)):
                cxx = src[2] if len(src) > 2 else cxx
                src, flags = src[0], src[1]
            o = os.path.join(d, "%d-%s.o" % (len(os_list), os.path.basename(src)))
            os_list.append(o)
            target_of[o] = n
            objs[o] = [cxx] + flags + ["-I" + REPO, "-I" + HARNESS, "-c", os.path.join(HARNESS, src), "-o", o]
        # Only C25 is about definitions that collide when several files include the headers.
        links.append((n, exe, [t["cxx"]] + t.get("ldflags", t["flags"]) + os_list + t.get("libs", []) + ([] if t.get("collide") else ["-Wl,-z,muldefs"])))
    with ThreadPoolExecutor(NCPU) as ex:
        for o, (rc, txt) in zip(objs, ex.map(run_cc, objs.values())):
            if rc and TARGETS[target_of[o]].get("may_reject"):
                left_out.add(target_of[o])
                continue
            if rc:
                # The driver compiles against the unchanged library. If the compiler works and the headers compile on their own, the
                # change took away (for some type or kind of callable) what the property promises.
                cmd = objs[o]
                stub = subprocess.run(cmd[:cmd.index("-c")] + ["-fsyntax-only", "-x", "c++", "-"], input="#include <signals.hpp>\nint main() { sig::signal<void()> s; s(); }\n",
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if stub.returncode == 0 and re.search(r"(?:signals|optional)\.hpp:\d+:\d+: (?:error|note)", txt) and re.search(r": error: ", txt):
                    raise Rejected(os.path.basename(o), " ".join(cmd), txt)
                raise NoVerdict("compiling %s failed:\n%s" % (o, txt[-6000:]))
    for n, exe, cmd in links:
        if n in left_out:
            del paths[n]
            continue
        tmp = exe + ".tmp%d" % os.getpid()
        rc, txt = run_cc(cmd + ["-o", tmp])
        if rc:
            if TARGETS[n].get("collide") and re.search(r"multiple definition of `(?:sig|opt)::", txt):
                raise Rejected(n, " ".join(cmd), txt)
            raise NoVerdict("linking %s failed:\n%s" % (exe, txt[-4000:]))
        os.rename(tmp, exe)
        for f in os.listdir(os.path.dirname(exe)):
            if f.endswith(".o"):
                os.unlink(os.path.join(os.path.dirname(exe), f))
    return paths


# ---- run ---------------------------------------------------------------------------------------------------------------
def run_proc(cmd, cpu, wall, env=None, stop=None):
    """Returns (returncode, stdout, stderr, state); state: '' | 'cpu' (cpu budget used up) | 'wall'."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)

    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=e, preexec_fn=limits)
        state = ""
        end = time.time() + wall
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                if stop is not None and stop.is_set():
                    state = "stopped"
                    break
                if time.time() > end:
                    state = "wall"
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.seek(0)
        err.seek(0)
        so, se = out.read().decode("utf8", "replace"), err.read().decode("utf8", "replace")
    if not state and p.returncode == -signal.SIGXCPU:
        state = "cpu"
    return p.returncode, so, se, state


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)")


def classify(rc, so, se, state):
    """None: held; ('violation', key, headline) or ('none', reason)."""
    if state == "stopped":
        return ("stopped", "another process found a violation")
    if state == "wall":
        return ("none", "wall-clock limit reached")
    if state == "cpu":
        return ("hang", "the workload does not terminate (cpu budget used up)", "hang")
    if "HARNESS-ERROR" in se:
        return ("none", re.search(r"HARNESS-ERROR.*", se).group(0))
    m = re.search(r"^MISMATCH (?:case=-?\d+ )?(.*)$", se, re.M)
    if m:
        return ("violation", re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:160], m.group(1))
    m = re.search(r"^(?:==\d+==)?\s*(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer): ?(.*)$", se, re.M) \
        or re.search(r"^(?:==\d+==)(?:ERROR|WARNING): (\w+Sanitizer): (.*)$", se, re.M)
    if m:
        if "failed to allocate" in m.group(2) or "out of memory" in m.group(2):
            return ("none", m.group(0))
        kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2)).split(" on ")[0].strip()
        fn = "?"
        for f in FRAME.finditer(se):
            if REPO + "/" in f.group(2) or f.group(2).endswith(("signals.hpp", "optional.hpp")):
                fn = re.sub(r"<.*", "", f.group(1)) + "@" + os.path.basename(f.group(2))
                break
        return ("violation", "%s %s in %s" % (m.group(1), kind[:60], fn), m.group(0).strip()[:200])
    m = re.search(r"^(.*): runtime error: (.*)$", se, re.M)
    if m:
        return ("violation", "UBSan " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2))[:120], m.group(0)[:240])
    if rc == 0:
        return None if "SUMMARY {" in so else ("none", "no summary")
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGABRT):
        t = re.search(r"terminate called.*(?:\n.*what.*)?", se)
        return ("violation", "crash %s %s" % (signal.Signals(-rc).name, t.group(0)[:80] if t else ""), "the process died with " + signal.Signals(-rc).name)
    return ("none", "exit %d: %s" % (rc, (se or so)[-400:]))


def known_findings(prop):
    """Lines 'finding: property=<id> key=<substring of the violation key> | <what fails>'. 'fixed:' lines suppress nothing."""
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE") or 1))
    a = ap.parse_args()
    if a.prop not in CHECKS:
        log("unknown property", a.prop)
        return 2
    chk = CHECKS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        paths = build(sorted({j["target"] for j in chk["jobs"] if j.get(tier) != 0}))
        t_build = time.time() - t0
        return explore(a, chk, tier, paths, t0, t_build)
    except Rejected as e:
        path = os.path.join(ROOT, "replays", "%s-build-%s.txt" % (a.prop, e.args[0]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("property %s: a use of the interface that the property covers does not compile\n\n%s\n\n%s" % (a.prop, e.args[1], e.args[2][:40000]))
        with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
            json.dump({"property": a.prop, "tier": tier, "seed": a.seed, "level": chk.get("level", "exploration"),
                       "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": []},
                       "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}, f, indent=1)
        print("what failed: a use of the interface that the property covers does not compile: %s" % re.search(r"^.*: (?:error: |multiple definition of ).*$", e.args[2], re.M).group(0)[:300])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    except NoVerdict as e:
        log("NO VERDICT:", e)
        return 2


def explore(a, chk, tier, paths, t0, t_build):
    scratch = tempfile.mkdtemp(prefix="verif-")
    work, left_out = [], []  # (job, index, cmd, cpu, wall)
    for ji, j in enumerate(chk["jobs"]):
        n = j.get(tier, j["quick"])
        if n == 0:
            continue
        if j["target"] not in paths:
            left_out.append(j["target"])
            continue
        shards = j.get("shards", NCPU) if n >= j.get("min_shard", 16) else 1
        if not j.get("fixed"):
            n = max(1, int(n * a.scale))
        per = (n + shards - 1) // shards
        for s in range(shards):
            hf = os.path.join(scratch, "h%d-%d" % (ji, s))
            cmd = [paths[j["target"]], "--seed", str(a.seed * 64 + s), "--cases", str(per), "--hashes", hf] + j.get("args", [])
            if j.get("sharded"):
                cmd += ["--extra", "%d/%d" % (s, shards)]
            cpu = int(j.get("cpu", 150) * (10 if tier == "thorough" else 1))
            work.append((j, s, cmd, cpu, cpu * 4, hf))
    stop = threading.Event()
    results = []

    def one(w):
        j, s, cmd, cpu, wall, hf = w
        if stop.is_set():
            return None
        r = run_proc(cmd, cpu, wall, j.get("env"), stop)
        v = classify(*r)
        if v and v[0] == "hang":  # run again before reporting
            r = run_proc(cmd, cpu, wall, j.get("env"), stop)
            v = classify(*r)
            if v and v[0] == "hang":
                v = ("violation", v[1], v[1])
        if v and v[0] == "none" and not stop.is_set():
            r = run_proc(cmd, cpu, wall, j.get("env"), stop)
            v = classify(*r)
            if v and v[0] == "hang":
                v = ("none", v[1])
        if v and v[0] == "violation":
            stop.set()
        return (w, r, v)

    known, violations, noverdict = known_findings(a.prop), [], []
    seen_known = set()
    with ThreadPoolExecutor(chk.get("parallel", NCPU)) as ex:
        for res in ex.map(one, work):
            if res is None:
                continue
            results.append(res)
    evaluations, counters, samples = 0, {}, []
    distinct = set()
    per_job = {}
    for w, r, v in results:
        if v is None:
            s = json.loads(re.search(r"^SUMMARY (.*)$", r[1], re.M).group(1))
            evaluations += s["evaluations"]
            name = w[0].get("name", w[0]["target"])
            pj = per_job.setdefault(name, {"evaluations": 0})
            pj["evaluations"] += s["evaluations"]
            for k, n in s["counters"].items():
                counters[k] = counters.get(k, 0) + n
            if len(samples) < 6:
                samples += [{"job": name, "case": x[:1500]} for x in s["samples"][:1]]
            salt = zlib.crc32(name.encode())
            try:
                with open(w[5], "rb") as f:
                    data = f.read()
                distinct.update((int.from_bytes(data[i:i + 8], "little") ^ salt) for i in range(0, len(data), 8))
            except FileNotFoundError:
                pass
        elif v[0] == "violation":
            k = next((x for x in known if x[0] in v[1]), None)
            if k:
                seen_known.add(k)
            else:
                violations.append((w, r, v))
        elif v[0] != "stopped":
            noverdict.append((w, v))
    shutil.rmtree(scratch, ignore_errors=True)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[1]))
    empty = [c for c in chk.get("must_observe", []) if not counters.get(c)]
    if left_out:
        counters["configurations_left_out"] = len(left_out)
        log("left out, the headers do not compile there:", " ".join(sorted(left_out)))
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": chk["rule"], "samples": samples,
            "observed": counters, "jobs": per_job, "processes": len(results), "build_s": round(t_build, 1),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        w, r, v = violations[0]
        path = os.path.join(rd, "%s-%s.txt" % (a.prop, hashlib.sha1((" ".join(w[2][1:5]) + v[1]).encode()).hexdigest()[:10]))
        m = re.search(r"(?:MISMATCH |^)case=(-?\d+)|^CASE (-?\d+)", r[2], re.M)
        case = next((g for g in m.groups() if g is not None), None) if m else None
        cmd = [c for c in w[2]]
        i = cmd.index("--hashes")
        del cmd[i:i + 2]
        with open(path, "w") as f:
            f.write("property %s\n%s\n\nreplay (after this check has built): %s%s\n\n" % (a.prop, v[2], " ".join(cmd), " --only %s -v" % case if case else ""))
            f.write(r[2][-20000:])
        print("what failed: %s" % v[2])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if noverdict:
        for w, v in noverdict:
            log("NO VERDICT: %s: %s" % (" ".join(w[2]), v[1]))
        return 2
    if evaluations == 0 or not distinct or empty:
        log("NO VERDICT: nothing observed", empty)
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        a.prop, tier, a.seed, evaluations, len(distinct), time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # a defect of this script is no verdict about the library
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
