"""Building, running and judging: shared by all checks."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
JOBS = max(2, min(8, os.cpu_count() or 8))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # gcc, AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions
    "asan": dict(cxx="g++", flags=["-O1", "-g1"] + SAN),
    # the optimised code users run
    "o2": dict(cxx="g++", flags=["-O2", "-g1"]),
    # the same, configured as for release: without the define that softens the library's abort macros
    "prod": dict(cxx="g++", flags=["-O2", "-g1", "-UBUILD_TESTS"]),
    # race detector
    "tsan": dict(cxx="g++", flags=["-O0", "-g1", "-fsanitize=thread"]),
    # second compiler, with the checks only clang has
    "clang": dict(cxx="clang++", flags=["-O2", "-g1", "-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow,local-bounds",
                                        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    # for valgrind: no inlined SIMD surprises, uninitialised reads visible
    "vg": dict(cxx="g++", flags=["-O0", "-g"]),
}
BASE = ["-std=gnu++14", "-DBUILD_TESTS", "-I" + REPO + "/include", "-I" + VERIF + "/stub", "-I" + VERIF + "/harness", "-w", "-pthread"]
RUNENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:malloc_fill_byte=202:max_malloc_fill_size=1073741824:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=5",
    "OMP_NUM_THREADS": "1",
    "LC_ALL": "C",
}


class CheckError(Exception):
    """The check itself could not run (never a verdict about the code)."""


class Violation:
    def __init__(self, key, msg, replay=None):
        self.key, self.msg, self.replay = key, msg, replay or {}


def sh(cmd, timeout=600, env=None, cwd=None, stdout=None):
    """Run a command in its own process group; returns (rc, output, timed_out)."""
    e = dict(os.environ)
    e.update(RUNENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, (out or b"").decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, _ = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out = b""
        return -9, (out or b"").decode("utf-8", "replace"), True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


# ------------------------------------------------------------------------------------------------ building
def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".cpp", ".hpp", ".cu", ".inl")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def lib_sources():
    return sorted(glob.glob(REPO + "/src/cpu/**/*.cc", recursive=True))


def compile_one(cxx, flags, src, obj, extra=()):
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d" % os.getpid()
    rc, out, to = sh([cxx] + flags + list(extra) + ["-c", src, "-o", tmp], timeout=600)
    if rc or to:
        raise CheckError("cannot compile %s:\n%s" % (src, out[-3000:]))
    os.rename(tmp, obj)


def prune(keep):
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime) if os.path.isdir(BUILD) else []
    for d in ds[:-6]:
        if os.path.basename(d) != keep:
            shutil.rmtree(d, ignore_errors=True)


def build_harness(variant, sources, extra_flags=(), lib=True, libs=("-lyaml-cpp",), extra_objs=()):
    """Compile the library sources of the working tree and the given harness sources; returns the executable."""
    v = VARIANTS[variant]
    flags = BASE + v["flags"]
    lkey = hashlib.sha256((tree_hash([REPO + "/include", REPO + "/src/cpu", REPO + "/applications", VERIF + "/stub"]) + repr(flags) + repr(extra_flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, lkey)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune(lkey)
    jobs, objs = [], []
    common = b"".join(open(p, "rb").read() for p in sorted(glob.glob(VERIF + "/harness/*.h")))
    hkey = hashlib.sha256(common)
    for s in sources:
        s = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
        with open(s, "rb") as fh:
            txt = fh.read()
        hkey.update(txt)
        o = os.path.join(d, "h_%s_%s.o" % (re.sub(r"\W", "_", os.path.basename(s)), hashlib.sha256(common + txt).hexdigest()[:10]))
        objs.append(o)
        jobs.append((s, o))
    if lib:
        for s in lib_sources():
            o = os.path.join(d, "l_" + re.sub(r"\W", "_", os.path.relpath(s, REPO)) + ".o")
            objs.append(o)
            jobs.append((s, o))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_one, v["cxx"], flags, s, o, extra_flags) for s, o in jobs]:
            f.result()
    exe = os.path.join(d, "exe_%s_%s" % (re.sub(r"\W", "_", "_".join(os.path.basename(s) for s in sources)), hkey.hexdigest()[:10]))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out, to = sh([v["cxx"]] + flags + list(extra_flags) + objs + list(extra_objs) + ["-o", tmp] + list(libs))
        if rc or to:
            raise CheckError("cannot link %s:\n%s" % (exe, out[-3000:]))
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------------ sanitizer reports
SANRE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: LeakSanitizer[^\n]*|"
                   r"Assertion '[^\n]*' failed[^\n]*|terminate called[^\n]*|==\d+== (?:Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param)[^\n]*)")


def sanitizer_report(text):
    m = SANRE.search(text)
    if not m:
        return None
    line = re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))
    line = re.sub(r"\(pid=\d+\)", "", line)
    loc = re.search(r"(?:#\d+ [^\n]*?|at [^\n]*?)(/repo/[^\s:]+:\d+|\([\w.-]+\.(?:h|cc|cpp):\d+\))", text[m.start():])
    return line.strip() + (" at " + loc.group(1) if loc else "")


# ------------------------------------------------------------------------------------------------ context of one run
class Stop(Exception):
    """Ends a check early: nothing can be learned from further runs that would only use up the time."""


class Ctx:
    def __init__(self, prop, tier, seed, scratch, replay):
        self.prop, self.tier, self.seed, self.scratch, self.replay = prop, tier, seed, scratch, replay
        self.evals = 0
        self.fps = set()
        self.extra_distinct = 0
        self.samples = []
        self.counters = {}
        self.violations = []
        self.reduced = False  # a part of the workload does not apply to the code as it is written now
        self.notes = []
        self.assumptions = []
        self.hung = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def eval(self, fp, n=1):
        self.evals += n
        self.fps.add(hashlib.sha256(str(fp).encode()).digest()[:8])

    def fail(self, key, msg, **replay):
        self.violations.append(Violation(key, msg, replay))

    # run a harness executable, split over processes, and read its log
    def run_harness(self, exe, variant, shards=JOBS, timeout=260, args=(), env=None, wrapper=(), records=None, evals=True, tag=""):
        one = None
        if self.replay and self.replay.get("case") is not None and self.replay.get("variant") == variant:
            one = self.replay["case"]
            shards = 1
        elif self.replay and self.replay.get("variant") not in (None, variant):
            return {}
        jobs = []
        with cf.ThreadPoolExecutor(max(1, min(JOBS, shards))) as ex:
            for k in range(shards):
                jobs.append(ex.submit(self._shard, exe, variant, k, shards, timeout, args, env, wrapper, one, tag))
            res = [j.result() for j in jobs]
        table = {}
        for r in res:
            self._absorb(variant, r, records, table, evals)
        if any(r["to"] for r in res):
            raise Stop()
        return table

    def _shard(self, exe, variant, k, n, timeout, args, env, wrapper, one, tag):
        tag = "%s-%s%s-%d" % (os.path.basename(exe), variant, tag, k)
        for share in (0.6, 1.4):
            log = os.path.join(self.scratch, tag + ".log")
            scr = os.path.join(self.scratch, tag + ".d")
            shutil.rmtree(scr, ignore_errors=True)
            os.makedirs(scr)
            cmd = list(wrapper) + [exe, "--out", log, "--seed", str(self.seed * 16 + list(VARIANTS).index(variant)), "--tier", self.tier, "--scratch", scr]
            cmd += ["--case", str(one)] if one is not None else ["--shard", str(k), "--shards", str(n)]
            cmd += list(args)
            e = {"VF_FS_ROOT": scr}
            if variant == "prod":
                e["VF_PROD"] = "1"
            e.update(env or {})
            rc, out, to = sh(cmd, timeout=timeout * share * (8 if self.thorough else 1), env=e, cwd=scr)
            if not to and rc != -9:  # killed from outside (memory taken by others): once more
                break
        return dict(rc=rc, out=out, to=to, log=log, shard=k)

    def _absorb(self, variant, r, records=None, table=None, evals=True):
        lines = []
        if os.path.exists(r["log"]):
            with open(r["log"], errors="replace") as f:
                lines = [l.rstrip("\n").split("\t") for l in f]
        case, done, fails = None, False, 0
        for l in lines:
            if l[0] == "CASE" and len(l) > 2:
                case = l[1:]
            elif l[0] == "FAIL" and len(l) > 3:
                fails += 1
                self.fail(l[2], l[3], case=int(l[1]), variant=variant)
            elif l[0] == "SAMPLE":
                self.sample(l[1])
            elif records and l[0] == records and len(l) > 2:
                table[l[1]] = l[2]
            elif l[0] == "EVALS":
                self.evals += int(l[1]) if evals else 0
            elif l[0] == "COUNTER" and len(l) > 2:
                self.count(l[1], int(l[2]))
            elif l[0] == "DONE":
                done = True
        if evals and os.path.exists(r["log"] + ".fp"):
            with open(r["log"] + ".fp", "rb") as f:
                b = f.read()
            self.fps.update(b[i:i + 8] for i in range(0, len(b), 8))
        where = "case %s (%s)" % tuple(case[:2]) if case else "before the first case"
        rc = r["rc"]
        if "HARNESS-ERROR" in r["out"]:
            raise CheckError(r["out"][-2000:])
        if r["to"]:
            self.fail("hang", "no termination within the time limit, twice, in " + where, case=int(case[0]) if case else None, variant=variant)
            return
        san = sanitizer_report(r["out"])
        if rc in (0, 3) and done and not san:
            return
        if san:
            self.fail("sanitizer:" + san, san + " in " + where, case=int(case[0]) if case else None, variant=variant, report=r["out"][-6000:])
        elif fails == 0 or not done:
            what = "signal %d" % -rc if rc < 0 else "exit status %d" % rc
            self.fail("crash:" + what, "the code under test ended the process (%s) in %s: %s" % (what, where, r["out"][-400:]),
                      case=int(case[0]) if case else None, variant=variant, report=r["out"][-6000:])


def known_findings(prop):
    """Entries of KNOWN_FINDINGS.txt: 'open: property=<id> key=<regex> ... -- text' suppress; 'fixed:' entries do not."""
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"open: property=(\S+) key=(\S+) match=(.*?) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def run_check(prop, check, tier, seed, replay_path, keep):
    t0 = time.time()
    replay = None
    if replay_path:
        replay = json.load(open(replay_path))
        seed, tier = replay.get("seed", seed), replay.get("tier", tier)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    outdir = os.path.join(OUT, prop)
    os.makedirs(outdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-", dir=outdir)
    ctx = Ctx(prop, tier, seed, scratch, replay)
    try:
        check["run"](ctx)
    except Stop:
        pass
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % prop)
        return 2
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    seen_known, fresh = {}, []
    for v in ctx.violations:
        for key, rx, text in known:
            if re.fullmatch(key, v.key) and rx.search(v.msg):
                seen_known[text] = seen_known.get(text, 0) + 1
                break
        else:
            fresh.append(v)
    for text in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    ev = dict(property=prop, tier=tier, seed=seed, level=check.get("level", "exploration"),
              coverage=dict(evaluations=ctx.evals, distinct_nontrivial=len(ctx.fps), rule=check["rule"], samples=ctx.samples[:8],
                            observed=dict(sorted(ctx.counters.items()))),
              assumptions=check.get("assumptions", []) + ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, seed, ctx.evals, len(ctx.fps), time.time() - t0))
    for k, n in sorted(ctx.counters.items()):
        print("   %-40s %d" % (k, n))
    if fresh:
        by = {}
        for v in fresh:
            by.setdefault(v.key, []).append(v)
        for i, (key, vs) in enumerate(list(by.items())[:12]):
            v = vs[0]
            rp = os.path.join(outdir, "replay-%d.json" % i)
            d = dict(property=prop, tier=tier, seed=seed, key=key, message=v.msg, count=len(vs))
            d.update(v.replay)
            with open(rp, "w") as f:
                json.dump(d, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("   %s: %s" % (key, v.msg[:600]))
        return 1
    if not replay and not ctx.reduced and ctx.evals < check.get("min_evals", 1):
        print("CHECK-ERROR property=%s only %d evaluations, expected at least %d" % (prop, ctx.evals, check.get("min_evals", 1)))
        return 2
    return 0
