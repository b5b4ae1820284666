"""C26-C28: the reference programs (serial, OpenMP, MPI, MPI+OpenMP) on generated settings.

The sources are compiled as they are; only the settings, which the programs keep as source text, are read from the
environment instead. MPI is the monitoring stand-in of stub/ref; OpenMP is gcc's own runtime for the optimised build and
the pthread runtime of harness/gomp_shim.cc under the sanitizers."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, signal, socket, subprocess
import core

REF = core.REPO + "/src/reference"
NUM = ["xlim1", "xlim2", "nx", "ylim1", "ylim2", "ny", "dt", "Tfinal", "T_period", "option", "printstep"]
UNS = {"nx", "ny", "option", "printstep"}
TXT = ["psischeme", "backtrace_scheme"]
FILES = ["phi", "psix", "psiy", "psixy", "Velocity_x", "Velocity_y"]
SETTING = "".join("%s %s = vf_num(\"%s\");\n" % ("unsigned int" if k in UNS else "double", k, k) for k in NUM)
SETTING += "".join("char %s[64]; vf_text(\"%s\", %s);\n" % (k, k, k) for k in TXT)
PROGRAMS = {"serial": ("SerialCode", "GALS_Advection.cpp"), "omp": (".", "GALS_Advection_OpenMP.cpp"), "mpi": (".", "GALS_Advection_MPI.cpp"),
            "mpiomp": (".", "GALS_Advection_MPI_OpenMP.cpp"), "cuda": ("CUDA", "GALS_Advection.cu")}
SANF = {"asan": ["-O1", "-g1"] + core.SAN, "tsan": ["-O0", "-g1", "-fsanitize=thread"], "o2": ["-O2", "-g1"], "vg": ["-O1", "-g"],
        "o3": ["-O3", "-g1"]}


def build_dir():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REF + "/*.*") + glob.glob(REF + "/SerialCode/*.*") + glob.glob(REF + "/CUDA/*.*") + glob.glob(core.VERIF + "/stub/ref/*") + glob.glob(core.VERIF + "/harness/*") + [__file__]):
        if os.path.isfile(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
    d = os.path.join(core.BUILD, "ref" + h.hexdigest()[:14])
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    core.prune(os.path.basename(d))
    return d


def number(t, k, kind):
    """The initialiser of the variable k, in whatever form it is declared, replaced by the value in the environment."""
    decl = r"((?:\b(?:const|static|constexpr)\s+)*\b(?:unsigned\s+int|unsigned\s+long|unsigned|std::size_t|size_t|double|float|int|long|auto)\s+(?:const\s+)?(?:\w+\s*(?:=[^;,{}]+|\{[^;,(){}]+\})\s*,\s*)*)"
    return re.subn(decl + r"\b%s\s*(?:=\s*[^;,]+|\{[^;{}]+\}|\([^;()]+\))(\s*[;,])" % k, lambda m: "%s%s = (%s)vf_num(\"%s\")%s" % (m.group(1).replace("constexpr", "const"), k, kind, k, m.group(2)), t)


def variable(t):
    """Source text with the settings taken from the environment, and the settings for which that failed."""
    bad = []
    for k in NUM:
        t, n = number(t, k, "unsigned int" if k in UNS else "double")
        if n != 1:
            bad.append(k)
    for k in TXT:
        t, n = re.subn(r"\b(?:const\s+|static\s+)*char\s+(?:const\s+)?%s\s*\[\s*\d*\s*\]\s*(?:=\s*)?\{?\s*\"[^\"]*\"\s*\}?\s*;" % k, "char %s[64]; vf_text(\"%s\", %s);" % (k, k, k), t)
        if n != 1:
            t, n = re.subn(r"\b%s\s*(?:=\s*\"[^\"]*\"|\{\s*\"[^\"]*\"\s*\}|\(\s*\"[^\"]*\"\s*\))\s*;" % k, "%s = vf_str(\"%s\");" % (k, k), t)
        if n != 1:
            bad.append(k)
    return t, bad


def prepared(d):
    """Copies of the sources with the settings taken from the environment; says which programs could be prepared."""
    src = os.path.join(d, "src")
    mark = os.path.join(src, "ok.json")
    if not os.path.exists(mark):
        shutil.rmtree(src, ignore_errors=True)
        ok = {}
        os.makedirs(src + "/SerialCode")
        os.makedirs(src + "/CUDA")
        for sub in (".", "SerialCode", "CUDA"):
            for p in sorted(os.listdir(os.path.join(REF, sub))):
                q = os.path.join(REF, sub, p)
                if os.path.isfile(q) and p.endswith((".h", ".cpp", ".hpp")):
                    shutil.copyfile(q, os.path.join(src, sub, p))
                if os.path.isfile(q) and sub == "CUDA" and p.endswith((".h", ".cu", ".cuh")):
                    t = open(q, errors="replace").read()
                    t = re.sub(r"\b((?:\w+::)*\w+(?:<[^<>;()]*>)?)\s*<<<(.*?)>>>\s*\(", lambda m: "vf_cuda::launch(\"%s\", %s, %s)(" % (m.group(1), m.group(1), m.group(2)), t, flags=re.S)
                    open(os.path.join(src, sub, p), "w").write(t)
            p = os.path.join(src, sub, "Setting.h")
            t, bad = variable(open(p, errors="replace").read()) if os.path.exists(p) else ("", NUM)
            open(p, "w").write(SETTING if bad else t)
        for name, (sub, main) in PROGRAMS.items():
            p = os.path.join(src, sub, main)
            t = open(p, errors="replace").read()
            if not re.search(r'#\s*include\s*"Setting\.h"', t):
                t, bad = variable(t)
                t, n = number(t, "TileSize", "unsigned int")
                open(p, "w").write(t)
                ok[name] = not bad
            else:
                ok[name] = True
        json.dump(ok, open(mark, "w"))
    return src, json.load(open(mark))


def compiled(cmd):
    """The Makefile's language standard, or the compiler's default."""
    rc, out, to = core.sh(cmd[:1] + ["-std=gnu++14"] + cmd[1:])
    if rc:
        rc, out2, to = core.sh(cmd[:1] + ["-std=gnu++17"] + cmd[1:])
    return rc, out, to


def build(name, variant, shim=True):
    """The executable of a program, or None if its settings could not be made variable or (with the shim) it does not link."""
    d = build_dir()
    src, ok = prepared(d)
    if not ok[name]:
        return None
    sub, main = PROGRAMS[name]
    exe = os.path.join(d, "%s-%s-%d" % (name, variant, shim))
    if os.path.exists(exe):
        return exe
    omp = [] if name in ("serial", "mpi", "cuda") else ["-fopenmp"]
    cmd = ["g++", "-w", "-pthread"] + SANF[variant] + omp + ["-include", core.VERIF + "/harness/ref_pre.h", "-I" + core.VERIF + "/stub/ref", "-I" + os.path.join(src, sub)]
    if name == "cuda":
        blocks = any(re.search(r"__shared__|__sync", open(f, errors="replace").read()) for f in glob.glob(src + "/CUDA/*"))
        cmd += ["-x", "c++", "-include", "cuda.h"] + (["-DVF_CUDA_BLOCKS"] if blocks else [])
    obj = exe + ".o"
    rc, out, to = compiled(cmd + ["-c", os.path.join(src, sub, main), "-o", obj])
    if rc or to:
        raise core.CheckError("cannot compile %s:\n%s" % (main, out[-3000:]))
    objs = [obj]
    link = ["g++", "-pthread"] + SANF[variant]
    if omp and shim:
        so = os.path.join(d, "shim-%s.o" % variant)
        if not os.path.exists(so):
            core.compile_one("g++", ["-std=gnu++17", "-w", "-pthread"] + SANF[variant], core.VERIF + "/harness/gomp_shim.cc", so)
        objs.append(so)
    elif omp:
        link.append("-fopenmp")
    tmp = exe + ".tmp"
    rc, out, to = core.sh(link + objs + ["-o", tmp])
    if rc or to:
        if omp and shim:
            return None
        raise core.CheckError("cannot link %s:\n%s" % (main, out[-3000:]))
    os.rename(tmp, exe)
    return exe


def build_model():
    d = build_dir()
    exe = os.path.join(d, "model")
    if not os.path.exists(exe):
        rc, out, to = core.sh(["g++", "-std=gnu++17", "-O2", "-w", "-I" + core.VERIF + "/harness", core.VERIF + "/harness/ref_model_main.cc", "-o", exe + ".tmp"])
        if rc or to:
            raise core.CheckError("cannot compile the model:\n" + out[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe


# ------------------------------------------------------------------------------------------------ settings
def settings(r, big=False, threads=False):
    s = {}
    top = r.choice([40, 40, 70, 150]) if big else 14
    s["nx"], s["ny"] = r.choice([(r.randint(3, top), r.randint(3, top)), (r.randint(3, 6), r.randint(3, 6)), (2 * r.randint(2, top // 2) + 1, r.randint(3, top)), (r.randint(3, 4), r.randint(8, top)),
                                 (r.randint(8, top), r.randint(3, 4))])
    if big and r.random() < 0.5:
        s["nx"], s["ny"] = r.sample([r.randint(41, 150), r.randint(3, 60)], 2)
    kind = r.choice(["unit", "unit", "two", "dyadic", "any"])
    if kind == "unit":
        s["xlim1"], s["xlim2"], s["ylim1"], s["ylim2"] = 0.0, 1.0, 0.0, 1.0
    elif kind == "two":
        s["xlim1"], s["xlim2"], s["ylim1"], s["ylim2"] = -1.0, 1.0, -1.0, 1.0
    elif kind == "dyadic":
        hx, hy = 2.0 ** -r.randint(2, 5), 2.0 ** -r.randint(2, 5)
        s["xlim1"], s["ylim1"] = r.randint(-8, 6) / 8, r.randint(-8, 6) / 8
        s["xlim2"], s["ylim2"] = s["xlim1"] + hx * (s["nx"] - 1), s["ylim1"] + hy * (s["ny"] - 1)
    else:
        s["xlim1"], s["ylim1"] = r.uniform(-1, 0.5), r.uniform(-1, 0.5)
        s["xlim2"], s["ylim2"] = s["xlim1"] + r.uniform(0.3, 1.4), s["ylim1"] + r.uniform(0.3, 1.4)
    h = min((s["xlim2"] - s["xlim1"]) / (s["nx"] - 1), (s["ylim2"] - s["ylim1"]) / (s["ny"] - 1))
    s["dt"] = r.choice([h * r.uniform(0.1, 0.9), 2.0 ** -r.randint(4, 8), h * r.uniform(0.5, 3)])
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 11] if s["nx"] * s["ny"] > 200 else [0, 1, 2, 3, 4, 5, 6, 8, 11, 24, 60, 130] + ([260, 300] if s["nx"] * s["ny"] < 50 else []))
    if big:
        n = max(n, 1)
    s["Tfinal"] = (n + r.choice([0.5, 0.25, 0.9])) * s["dt"]
    s["T_period"] = r.choice([1.0, 1.0, s["Tfinal"] + s["dt"], r.uniform(0.2, 8)])
    s["option"] = r.choice([1, 1, 1, 2])
    s["printstep"] = r.choice([1, 1, 2, 3, max(1, n), n + 3])
    s["psischeme"] = r.choice(["SuperConsistent", "SuperConsistent", "Heuns"])
    s["backtrace_scheme"] = r.choice(["RK3", "RK3", "Euler"])
    return s


def large(r):
    """A grid of the size the programs come with, or larger, and few steps."""
    s = settings(r)
    s["nx"], s["ny"] = r.choice([(128, 128), (r.randint(90, 140), r.randint(90, 140)), (r.randint(33, 70), r.randint(33, 70)), (257, r.randint(32, 60)), (r.randint(32, 60), 257)])
    s["xlim1"], s["xlim2"], s["ylim1"], s["ylim2"] = r.choice([(0.0, 1.0, 0.0, 1.0), (-1.0, 1.0, -1.0, 1.0), (0.1, 0.9, 0.05, 1.2)])
    s["dt"] = r.uniform(0.3, 0.9) * min((s["xlim2"] - s["xlim1"]) / (s["nx"] - 1), (s["ylim2"] - s["ylim1"]) / (s["ny"] - 1))
    s["Tfinal"], s["option"], s["printstep"] = r.choice([1.5, 2.5]) * s["dt"], 1, 1
    return s


def env_of(s):
    return {"VF_SET_" + k: (v if isinstance(v, str) else repr(v)) for k, v in s.items()}


def text(s):
    return "%dx%d nodes on [%r,%r]x[%r,%r] dt %r Tfinal %r period %r option %d printstep %d %s %s" % (
        s["nx"], s["ny"], s["xlim1"], s["xlim2"], s["ylim1"], s["ylim2"], s["dt"], s["Tfinal"], s["T_period"], s["option"], s["printstep"], s["psischeme"], s["backtrace_scheme"])


# ------------------------------------------------------------------------------------------------ running
HUNG = []  # after a run without end, further ones are not started


def fresh(d, r):
    """A working directory with leftovers of an earlier run and a bystander."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if r.random() < 0.6:
        for f in FILES + ["details"]:
            if r.random() < 0.7:
                open(os.path.join(d, f + ".txt"), "w").write("1,2,3\n" * 5)
    open(os.path.join(d, "keep.txt"), "w").write("keep me\n")
    return d


def outputs(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


def run_single(exe, args, s, d, env=None, wrapper=(), timeout=80):
    e = env_of(s)
    e.update({"VF_MPI_RANK": "0", "VF_MPI_SIZE": "1", "VF_MPI_FD": "-1"})
    e.update(env or {})
    for k in (1, 3):
        if HUNG:
            return dict(skip=True, rc=[0])
        rc, out, to = core.sh(list(wrapper) + [exe] + args, timeout=timeout * k, env=e, cwd=d)
        if not to and rc != -9:
            break
    if to:
        HUNG.append(1)
    return dict(rc=[rc], out=out, to=to, files=outputs(d), log=[])


def run_pair(exe, args, s, d, seed, sync, env=None, wrapper=()):
    """Two processes joined by a socket pair."""
    for timeout in (80, 240):
        if HUNG:
            return dict(skip=True, rc=[0])
        res = run_pair_once(exe, args, s, d, seed, sync, env, wrapper, timeout)
        if not res["to"] and -9 not in res["rc"]:
            return res
    if res["to"]:
        HUNG.append(1)
    return res


def run_pair_once(exe, args, s, d, seed, sync, env, wrapper, timeout):
    for f in FILES + ["details"]:
        if os.path.exists(os.path.join(d, f + ".txt")) and timeout > 80:
            os.remove(os.path.join(d, f + ".txt"))
    a, b = socket.socketpair()
    logs = [d + ".mpi%d" % k for k in (0, 1)]
    ps, outs = [], []
    try:
        for k, sock in ((0, a), (1, b)):
            e = dict(os.environ)
            e.update(core.RUNENV)
            e.update(env_of(s))
            e.update({"VF_MPI_RANK": str(k), "VF_MPI_SIZE": "2", "VF_MPI_FD": str(sock.fileno()), "VF_MPI_SYNC": str(int(sync)), "VF_MPI_SEED": str(seed), "VF_MPI_LOG": logs[k]})
            e.update(env or {})
            o = open(d + ".out%d" % k, "wb")
            outs.append(o)
            ps.append(subprocess.Popen(list(wrapper) + [exe] + args, stdout=o, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=d, pass_fds=[sock.fileno()], start_new_session=True))
    finally:
        a.close(), b.close()
    to = False
    import time
    end = time.time() + timeout
    for p in ps:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            to = True
    for p in ps:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    for o in outs:
        o.close()
    out = "".join("[rank %d]\n%s\n" % (k, open(d + ".out%d" % k, errors="replace").read()) for k in (0, 1))
    log = [[l.rstrip("\n").split("\t") for l in open(p, errors="replace")] if os.path.exists(p) else [] for p in logs]
    return dict(rc=[p.returncode for p in ps], out=out, to=to, files=outputs(d), log=log)


def healthy(ctx, what, res, rp, key="run"):
    if res.get("skip"):
        return False
    if res["to"]:
        ctx.fail("hang", what + ": no end within the time limit", **rp)
        return False
    san = core.sanitizer_report(res["out"])
    if "HARNESS-ERROR" in res["out"]:
        raise core.CheckError(res["out"][-1000:])
    if san:
        ctx.fail("sanitizer:" + san, what + ": " + san, report=res["out"][-6000:], **rp)
        return False
    err = [l for lg in res["log"] for l in lg if l[0] == "ERROR"]
    if err:
        ctx.fail("mpi_use", "%s: rank %s: %s" % (what, err[0][1], err[0][2]), **rp)
        return False
    if any(res["rc"]):
        ctx.fail("exit_status", "%s: exit status %s: %s" % (what, res["rc"], res["out"][-400:]), report=res["out"][-4000:], **rp)
        return False
    return True


# ------------------------------------------------------------------------------------------------ judging
def parse(data):
    """Snapshots of a file: list of lists of rows of numbers."""
    snaps, cur = [], []
    for l in data.decode("utf-8", "replace").split("\n"):
        if l == "":
            if cur:
                snaps.append(cur)
            cur = []
        else:
            cur.append([float(v) for v in l.split(",")])
    if cur:
        snaps.append(cur)
    return snaps


def steps_of(s):
    n = int(s["Tfinal"] / s["dt"])
    return n, (s["printstep"] if s["option"] == 1 else n)


def judge_shape(ctx, what, files, s, rp):
    """Everything about the output that needs no model: which files, how many snapshots, their shape, details.txt."""
    want = {f + ".txt" for f in FILES} | {"details.txt", "keep.txt"}
    if set(files) != want:
        ctx.fail("output_files", "%s: files %s, expected %s" % (what, sorted(files), sorted(want)), **rp)
        return None
    if files["keep.txt"] != b"keep me\n":
        ctx.fail("bystander", what + ": another file was changed", **rp)
    n, ps = steps_of(s)
    snaps = 1 + (n // ps if n and ps else 0)
    res = {}
    for f in FILES:
        try:
            p = parse(files[f + ".txt"])
        except ValueError as e:
            ctx.fail("output_format", "%s: %s.txt: %s" % (what, f, e), **rp)
            return None
        shape = [(len(q), sorted({len(row) for row in q})) for q in p]
        if shape != [(s["ny"], [s["nx"]])] * snaps:
            ctx.fail("output_shape", "%s: %s.txt has snapshots %s, expected %d of %d rows of %d" % (what, f, shape[:4], snaps, s["ny"], s["nx"]), **rp)
            return None
        res[f] = p
    dx, dy = (s["xlim2"] - s["xlim1"]) / (s["nx"] - 1), (s["ylim2"] - s["ylim1"]) / (s["ny"] - 1)
    exp = [s["nx"], s["ny"], dx, dy, s["xlim1"], s["xlim2"], s["ylim1"], s["ylim2"], n, s["dt"], ps]
    try:
        got = [float(v) for v in files["details.txt"].decode().strip().split(",")]
    except ValueError:
        got = []
    if len(got) != len(exp) or any(abs(a - b) > 6e-11 for a, b in zip(got, exp)):
        ctx.fail("details", "%s: details.txt '%s', expected %s" % (what, files["details.txt"].decode("utf-8", "replace")[:200], exp), **rp)
    ctx.count("snapshots", snaps)
    ctx.count("steps", n)
    return res


_asked = {}


def ask_model(s):
    """What the model computes for these settings: fields, whether rounding decides a branch, tolerances per field and snapshot."""
    k = text(s)
    if k in _asked:
        return _asked[k]
    rc, out, to = core.sh([build_model()], timeout=120, env=env_of(s))
    if rc or to:
        raise core.CheckError("the model failed: " + out[-500:])
    want, cur, amb, spread, kinds = {}, None, False, {}, {}
    for l in out.split("\n"):
        t = l.split(" ")
        if t[0] == "FIELD":
            cur = want.setdefault(t[1], [])
            cur.append([])
        elif t[0] == "AMBIGUOUS":
            amb = t[1] == "1"
        elif t[0] == "TRACKER":
            kinds[t[1]] = int(t[2])
        elif t[0] == "SPREAD":
            spread.update({(f, int(t[1])): float(v) for f, v in zip(FILES, t[2:])})
        elif t[0] in ("STEPS", "PRINTSTEP", ""):
            pass
        else:
            cur[-1].append([float(v) for v in l.split(",")])
    tol = {}
    for f in FILES:
        for q, b in enumerate(want[f]):
            # rounding errors grow with the field itself where the boundary treatment is unstable: the model run a second
            # time with every intermediate result disturbed shows how much
            scale = max(1.0, max(abs(v) for row in b for v in row))
            e = 6e-11 + 1e-9 * scale + 20 * spread.get((f, q), 0.0)
            tol[f, q] = e if e <= 1e-5 * scale else None
    _asked[k] = want, amb, tol, kinds
    return _asked[k]


def judge_model(ctx, what, got, s, rp):
    want, amb, tol, kinds = ask_model(s)
    for t, n in kinds.items():
        ctx.count("model_nodes_kind_" + t, n)
    if amb:
        ctx.count("settings_skipped_ambiguous")
        return
    for f in FILES:
        for q, (a, b) in enumerate(zip(got[f], want[f])):
            e = tol[f, q]
            if e is None:
                ctx.count("snapshots_skipped_unstable")
                continue
            for i, (ra, rb) in enumerate(zip(a, b)):
                for j, (x, y) in enumerate(zip(ra, rb)):
                    if not abs(x - y) <= e:
                        ctx.fail("field_" + f, "%s: %s snapshot %d row %d column %d is %.10f, expected %.12f" % (what, f, q, i, j, x, y), **rp)
                        return
        ctx.count("values_compared_with_model", sum(len(r) for p in got[f] for r in p))
    ctx.count("settings_compared_with_model")


def same(ctx, key, what, a, b, rp, s=None):
    """Output files of two runs: the same bytes, or (settings given) the same up to rounding."""
    for f in sorted(set(a) | set(b)):
        x, y = a.get(f), b.get(f)
        if x == y:
            continue
        if x is None or y is None:
            ctx.fail(key, "%s: %s is missing in one of them" % (what, f), **rp)
            return False
        if s and f[:-4] in FILES:
            try:
                p, q = parse(x), parse(y)
            except ValueError:
                p, q = [[]], [[[]]]
            if [[len(row) for row in z] for z in p] == [[len(row) for row in z] for z in q]:
                want, amb, tol, kinds = ask_model(s)
                if amb:
                    ctx.count("settings_skipped_ambiguous")
                    continue
                flat = lambda z: [v for row in z for v in row]
                if all(tol.get((f[:-4], k), 0) is None or all(abs(c - d) <= 2 * tol.get((f[:-4], k), 0) for c, d in zip(flat(u), flat(v))) for k, (u, v) in enumerate(zip(p, q))):
                    ctx.count("equal_within_rounding")
                    continue
        d = next((k for k, (c, e) in enumerate(zip(x, y)) if c != e), min(len(x), len(y)))
        ctx.fail(key, "%s: %s differs at byte %d: '%s' and '%s'" % (what, f, d, x[max(0, d - 12):d + 20].decode("utf-8", "replace"), y[max(0, d - 12):d + 20].decode("utf-8", "replace")), **rp)
        return False
    ctx.count("outputs_identical")
    return True


def judge_trace(ctx, what, res, rp):
    """Offline checker: what one rank sent is, in order and bit for bit, what the other received."""
    for a, b in ((0, 1), (1, 0)):
        sent = [tuple(l[3:]) for l in res["log"][a] if l[0] == "SEND"]
        recv = [tuple(l[3:]) for l in res["log"][b] if l[0] == "RECV"]
        ctx.count("messages_sent", len(sent))
        ctx.count("messages_received", len(recv))
        if sorted(sent) != sorted(recv):
            ctx.fail("messages", "%s: rank %d sent %d messages, rank %d received %d; first difference %s" % (
                what, a, len(sent), b, len(recv), next(((x, y) for x, y in zip(sent, recv) if x != y), "length")), **rp)
    for k in (0, 1):
        kinds = [l[0] for l in res["log"][k]]
        if kinds.count("INIT") != 1 or kinds.count("FINALIZE") != 1 or kinds[-1] != "FINALIZE":
            ctx.fail("mpi_lifetime", "%s: rank %d did not initialise and finalise once: %s" % (what, k, kinds[:2] + kinds[-2:]), **rp)


# ------------------------------------------------------------------------------------------------ the checks
def plan(ctx, tag, n, make):
    """Generated cases; a replay names one."""
    ids = range(n)
    if ctx.replay:
        if ctx.replay.get("part") != tag:
            return []
        ids = [ctx.replay["case"]]
    return [(k, random.Random("%d-%s-%d" % (ctx.seed, tag, k))) for k in ids]


def each(ctx, tag, n, f):
    todo = plan(ctx, tag, n, None)
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        for done in ex.map(lambda kr: f(*kr), todo):
            for act in done:
                act()


def omp_logs(ctx, path, fp):
    if os.path.exists(path):
        t = open(path).read()
        ctx.count("parallel_regions", t.count("REGION"))
        ctx.eval(fp + t)


def c26(ctx):
    """OpenMP: no data race, and the same output whatever the number of threads."""
    quick = not ctx.thorough
    serial = build("serial", "o2")
    real = build("omp", "o2", shim=False)
    fast = build("omp", "o3", shim=False)
    tsan, asan = build("omp", "tsan"), build("omp", "asan")
    hybrid = build("mpiomp", "tsan")
    if not tsan:
        ctx.notes.append("no race detection: the OpenMP runtime stand-in does not provide what the program uses")

    def race(k, r, make=settings):
        s = make(r)
        acts, rp = [], dict(case=k, part="race" if make is settings else "large")
        base = None
        for q, th in enumerate([1] + [r.choice([2, 3, 4, 5, 7, 8]) for _ in range(2)]):
            d = fresh(os.path.join(ctx.scratch, "%s-%d-%d" % (rp["part"], k, q)), r)
            log = d + ".omp"
            res = run_single(tsan, [str(th)], s, d, env={"VF_OMP_SEED": str(r.randint(1, 10**6)), "VF_OMP_LOG": log})
            what = "OpenMP program, %d threads, race detector, %s" % (th, text(s))

            def act(res=res, what=what, log=log, th=th, q=q):
                nonlocal base
                omp_logs(ctx, log, text(s) + str(th))
                ctx.count("runs_race_detector")
                if k == 0:
                    ctx.sample(what)
                if not healthy(ctx, what, res, rp):
                    return
                if q == 0:
                    base = res["files"]
                elif base is not None:
                    same(ctx, "thread_count", what + " against one thread", base, res["files"], rp)
            acts.append(act)
        return acts

    def parity(k, r):
        s = settings(r, big=k % 3 == 0)
        acts, rp = [], dict(case=k, part="parity")
        todo = [("one thread", real, 1), ("%d threads", real, r.choice([2, 3])), ("%d threads", real, r.choice([4, 5, 7, 8])), ("%d threads -O3", fast, r.choice([2, 3, 8]))]
        if asan:
            todo.append(("%d threads, address sanitizer", asan, r.choice([2, 3, 5])))
        todo.append(("%d threads, more than nodes", real, 33)) if k % 7 == 0 else None
        ref = None
        if serial:
            d = fresh(os.path.join(ctx.scratch, "par-%d-s" % k), r)
            ref = run_single(serial, [], s, d)
        runs = []
        for q, (name, exe, th) in enumerate(todo):
            d = fresh(os.path.join(ctx.scratch, "par-%d-%d" % (k, q)), r)
            runs.append((("OpenMP program, " + name) % th if "%" in name else "OpenMP program, " + name, exe, run_single(exe, [str(th)], s, d, env={"VF_OMP_SEED": str(k + 1)})))

        def act():
            ctx.eval(text(s))
            base = None
            for name, exe, res in runs:
                what = name + ", " + text(s)
                if not healthy(ctx, what, res, rp):
                    continue
                ctx.count("runs_parity")
                judge_shape(ctx, what, res["files"], s, rp)
                if base is None:
                    base = res["files"]
                else:
                    same(ctx, "thread_count", what + " against one thread", base, res["files"], rp, None if exe is real else s)
            if ref and base is not None and healthy(ctx, "serial program, " + text(s), ref, rp):
                same(ctx, "serial_parity", "OpenMP and serial program, " + text(s), base, ref["files"], rp, s)
                ctx.count("settings_compared_with_serial")
        return [act]

    def both(k, r):
        s = settings(r) if k % 4 else large(r)
        rp = dict(case=k, part="hybrid")
        d = fresh(os.path.join(ctx.scratch, "hyb-%d" % k), r)
        th = r.choice([2, 3, 5])
        res = run_pair(hybrid, [str(th)], s, d, k, k % 2)

        def act():
            what = "MPI+OpenMP program, 2 x %d threads, race detector, %s" % (th, text(s))
            ctx.eval(what)
            ctx.count("runs_race_detector_hybrid")
            healthy(ctx, what, res, rp)
        return [act]

    if tsan:
        each(ctx, "race", 24 if quick else 300, race)
        each(ctx, "large", 6 if quick else 60, lambda k, r: race(k, r, large))
    each(ctx, "parity", 24 if quick else 300, parity)
    if hybrid:
        each(ctx, "hybrid", 8 if quick else 80, both)


def c27(ctx):
    """The numerics: routines one by one, and whole runs, against the independent model."""
    d = build_dir()
    src, ok = prepared(d)
    for sub, tag in ((".", "ref"), ("SerialCode", "serial")):
        for v in ("asan",) if not ctx.thorough else ("asan", "o2", "clang"):
            if ctx.replay and ctx.replay.get("part") is not None:
                continue
            exe = os.path.join(d, "c27-%s-%s" % (tag, v))
            if not os.path.exists(exe):
                cxx = core.VARIANTS[v]["cxx"]
                rc, out, to = compiled([cxx, "-w", "-pthread"] + core.VARIANTS[v]["flags"] + ["-I" + core.VERIF + "/harness", "-I" + os.path.join(src, sub), core.VERIF + "/harness/c27.cc", "-o", exe + ".tmp"])
                if rc or to:
                    ctx.count("routines_not_callable_one_by_one_" + tag)  # judged through the programs only
                    ctx.reduced = True
                    continue
                os.rename(exe + ".tmp", exe)
            ctx.run_harness(exe, v, tag=tag)
    build_model()

    def e2e(name, variant, tag):
        exe = build(name, variant, shim=True)
        if not exe:
            return None

        def f(k, r):
            s = settings(r, big=k % 4 == 0) if k % 30 != 29 else large(r)
            rp = dict(case=k, part=tag)
            wd = fresh(os.path.join(ctx.scratch, "%s-%d" % (tag, k)), r)
            res = run_single(exe, [] if name == "serial" else ["2"], s, wd)

            def act():
                what = "%s program, %s" % (name, text(s))
                ctx.eval(what)
                if k < 2:
                    ctx.sample(what)
                if not healthy(ctx, what, res, rp):
                    return
                got = judge_shape(ctx, what, res["files"], s, rp)
                if got:
                    judge_model(ctx, what, got, s, rp)
            return [act]
        return f
    for name, variant, n in (("serial", "asan", 120), ("serial", "o2", 60), ("omp", "asan", 60)):
        tag = "%s-%s" % (name, variant)
        f = e2e(name, variant, tag)
        if f:
            each(ctx, tag, n if not ctx.thorough else n * 12, f)
        else:
            ctx.count("programs_not_configurable")
            ctx.reduced = True


def c28(ctx):
    """Two communicating ranks: same output as the shared-memory program, every message received, no deadlock."""
    quick = not ctx.thorough
    base = build("omp", "o2", shim=False)
    progs = [("mpi", "asan"), ("mpiomp", "asan"), ("mpi", "o2"), ("mpiomp", "o2")]
    exes = {p: build(*p) for p in progs}
    vg = {n: build(n, "vg") for n in ("mpi", "mpiomp")}
    tsan = build("mpiomp", "tsan")

    def f(k, r):
        s = settings(r, big=k % 3 == 0) if k % 18 != 17 else large(r)
        rp = dict(case=k, part="pair")
        if base:
            d0 = fresh(os.path.join(ctx.scratch, "pair-%d-b" % k), r)
            b = run_single(base, ["1"], s, d0)
        else:
            b = None
        runs = []
        for q, (p, exe) in enumerate(exes.items()):
            if not exe:
                continue
            for sync in (0, 1):
                if q >= 2 and sync != k % 2:
                    continue
                d = fresh(os.path.join(ctx.scratch, "pair-%d-%d-%d" % (k, q, sync)), r)
                th = r.choice([1, 2, 3])
                res = run_pair(exe, [] if p[0] == "mpi" else [str(th)], s, d, r.randint(1, 10**6), sync, env={"VF_OMP_SEED": str(k + 1)})
                runs.append(("%s program (%s, %s sends%s)" % (p[0], p[1], "synchronous" if sync else "buffered", "" if p[0] == "mpi" else ", %d threads" % th), res))
        if tsan and k % 6 == 5:
            th = r.choice([2, 3, 4])
            d = fresh(os.path.join(ctx.scratch, "pair-%d-tsan" % k), r)
            runs.append(("mpiomp program (race detector, %d threads)" % th, run_pair(tsan, [str(th)], s, d, k, k % 2, env={"VF_OMP_SEED": str(k + 1)})))
        if k % 12 == 0:
            for n, exe in vg.items():
                if exe:
                    d = fresh(os.path.join(ctx.scratch, "pair-%d-vg%s" % (k, n)), r)
                    t = dict(s, nx=min(s["nx"], 7), ny=min(s["ny"], 7))
                    t["Tfinal"] = min(t["Tfinal"], 2.5 * t["dt"])
                    res = run_pair(exe, [] if n == "mpi" else ["2"], t, d, k, k % 2, wrapper=["valgrind", "-q", "--error-exitcode=97", "--leak-check=no"])
                    res["vg"] = t
                    runs.append(("%s program under valgrind" % n, res))

        def act():
            for name, res in runs:
                what = name + ", " + text(res.get("vg", s))
                ctx.eval(what + json.dumps([[l[0] for l in lg] for lg in res.get("log", ())]))
                ctx.count("pair_runs")
                if k == 0:
                    ctx.sample(what)
                if not healthy(ctx, what, res, rp):
                    continue
                judge_trace(ctx, what, res, rp)
                if judge_shape(ctx, what, res["files"], res.get("vg", s), rp) is None:
                    continue
                if b and not b.get("skip") and "vg" not in res and not any(b["rc"]):
                    same(ctx, "program_parity", what + " against the OpenMP program", b["files"], res["files"], rp, s)
        return [act]
    each(ctx, "pair", 54 if quick else 400, f)


def c29(ctx):
    """The CUDA program on the monitored stand-in device: output, memory, order of device threads, races."""
    quick = not ctx.thorough
    exes = {v: build("cuda", v) for v in ("asan", "o2", "tsan")}
    if not exes["asan"]:
        ctx.count("programs_not_configurable")
        ctx.reduced = True
        return
    serial = build("serial", "o2")
    build_model()

    def device_log(path):
        for l in open(path) if os.path.exists(path) else ():
            k, v = l.split()
            ctx.count(("device_launches_of_" + k[7:]) if k.startswith("kernel:") else "device_" + k, int(v))

    def f(k, r):
        s = settings(r, big=k % 4 == 0) if k % 20 != 19 else large(r)
        s["psischeme"], s["backtrace_scheme"] = "SuperConsistent", "RK3"  # the only ones this program has
        s["TileSize"] = r.choice([16, 16, 8, 4, r.randint(1, 5), r.randint(2, 32), s["nx"], max(s["nx"], s["ny"])])
        s["TileSize"] = min(s["TileSize"], 32)
        rp = dict(case=k, part="device")
        runs = []
        for v, lazy, workers in (("asan", k % 2, 1), ("o2", 1 - k % 2, 1), ("tsan", r.randint(0, 1), r.choice([2, 3, 4]))):
            if v == "tsan" and k % 3:
                continue
            d = fresh(os.path.join(ctx.scratch, "dev-%d-%s" % (k, v)), r)
            env = {"VF_CUDA_LAZY": str(lazy), "VF_CUDA_WORKERS": str(workers), "VF_CUDA_SEED": str(r.randint(1, 10**9)), "VF_CUDA_LOG": d + ".log"}
            runs.append(("CUDA program on the stand-in device (%s, %s launches, %d workers, tile %d), " % (v, "deferred" if lazy else "immediate", workers, s["TileSize"]), run_single(exes[v], [], s, d, env=env), d + ".log"))
        ref = None
        if serial:
            ref = run_single(serial, [], s, fresh(os.path.join(ctx.scratch, "dev-%d-serial" % k), r))

        def act():
            base = None
            for name, res, log in runs:
                what = name + text(s)
                ctx.eval(what)
                ctx.count("device_runs")
                device_log(log)
                if k < 2:
                    ctx.sample(what)
                if not healthy(ctx, what, res, rp):
                    continue
                got = judge_shape(ctx, what, res["files"], s, rp)
                if not got:
                    continue
                judge_model(ctx, what, got, s, rp)
                if base is None:
                    base = res["files"]
                else:
                    same(ctx, "schedule", what + " against another order of launches and threads", base, res["files"], rp, s)
            if base is not None and ref and not ref.get("skip") and not any(ref["rc"]):
                same(ctx, "serial_parity", "CUDA and serial program, " + text(s), base, ref["files"], rp, s)
                ctx.count("settings_compared_with_serial")
        return [act]
    each(ctx, "device", 60 if quick else 700, f)
