"""C25: the advection application, end to end, on generated input files, with the online monitor linked in."""
import concurrent.futures as cf
import glob, math, os, random, re
import core

LSC = "_ZN4GALS17ANALYTICAL_FIELDS8LevelsetINS_3CPU4GridIdLi2EEEdE7computeERKNS2_5ArrayIS4_NS2_4Vec3IdEEEERNS2_8LevelsetIS4_dEE"
VEC = "_ZN4GALS17ANALYTICAL_FIELDS8VelocityINS_3CPU4GridIdLi2EEEdE7computeERKNS2_5ArrayIS4_NS2_4Vec3IdEEEEdRNS2_16LevelsetVelocityIS4_dEE"
SLC = "_ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEE7computeEdRKNS3_16LevelsetVelocityIS5_dEERNS3_8LevelsetIS5_dEE"
SLO = "_ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEEclEdRKNS3_16LevelsetVelocityIS5_dEERNS3_8LevelsetIS5_dEE"
TMC = "_ZN4GALS3CPU8TemporalIdNS0_4GridIdLi2EEENS_16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdS3_EEE7computeEdRKNS0_16LevelsetVelocityIS3_dEERNS0_8LevelsetIS3_dEE"
COEFF = math.pi / 3.15


def build(variant):
    src = sorted(glob.glob(core.REPO + "/applications/advection/*.c*"))  # as the build file takes them
    return core.build_harness(variant, src + ["app_mon.cc"],
                              extra_flags=["-UBUILD_TESTS"] + ["-Wl,--wrap=" + s for s in (LSC, VEC, SLC, SLO, TMC)])


def num(r, x):
    return r.choice(["%.17g", "%.16e"]) % x


def make(r, n):
    """A run the application is meant for: departure points stay within the two ghost layers."""
    c = {}
    c["nx"], c["ny"] = r.choice([(r.randint(4, 12), r.randint(4, 12)), (r.randint(1, 30), r.randint(1, 30)), (r.randint(1, 4), r.randint(10, 40)), (r.randint(10, 40), r.randint(1, 4))])
    big = n % 16
    if big == 9:  # more than a byte counts
        c["nx"], c["ny"] = r.sample([r.randint(257, 400), r.randint(3, 9)], 2)
    if big == 13:
        c["nx"], c["ny"] = r.randint(3, 8), r.randint(3, 8)
    c["nz"] = r.choice([1, 1, 1, 3])
    sx, sy = r.uniform(0.5, 3), r.uniform(0.5, 3)
    ox, oy = (0, 0) if n % 3 == 0 else (r.uniform(-20, 20), r.uniform(-20, 20))
    c["x"] = (ox - sx / 2, ox + sx / 2)
    c["y"] = (oy - sy / 2, oy + sy / 2)
    if n % 6 == 0:
        c["x"], c["y"] = (-1.0, 1.0), (-1.0, 1.0)
        sx = sy = 2.0
    c["z"] = r.choice([(-1.0, 1.0), (0.0, 0.0), (-5.0, 20.0)])
    c["vc"] = [r.uniform(c["x"][0], c["x"][1]), r.uniform(c["y"][0], c["y"][1]), r.uniform(-1, 1)][:r.choice([2, 3, 3])]
    c["lc"] = [r.uniform(c["x"][0], c["x"][1]), r.uniform(c["y"][0], c["y"][1]), r.choice([0, 0, r.uniform(-1, 1)])]
    c["radius"] = r.uniform(0, 0.6) * min(sx, sy)
    dx, dy = (c["x"][1] - c["x"][0]) / c["nx"], (c["y"][1] - c["y"][0]) / c["ny"]
    umax = COEFF * max(abs(c["y"][0] - c["vc"][1]), abs(c["y"][1] - c["vc"][1]))
    vmax = COEFF * max(abs(c["x"][0] - c["vc"][0]), abs(c["x"][1] - c["vc"][0]))
    limit = 1.8 * min(dx / umax, dy / vmax)
    c["constant"] = "NO" if n % 3 == 1 else "YES"
    auto = 0.5 * min(dx, dy)
    if c["constant"] == "NO" and auto > limit:
        c["constant"] = "YES"
    c["dt_in"] = r.uniform(0.05, 1) * limit
    if r.random() < 0.2 and limit > 1e-2:
        c["dt_in"] = 10 ** -r.randint(2, 4)
    if n % 9 == 4:  # steps close to the resolution of the clock
        c["dt_in"], c["constant"] = min(c["dt_in"], 10 ** -r.uniform(5, 8)), "YES"
    c["dt"] = c["dt_in"] if c["constant"] == "YES" else auto
    c["start"] = 0.0 if r.random() < 0.4 else r.uniform(-3, 3)
    c["steps"] = r.choice([1, 2, r.randint(3, 30), r.randint(3, 60)])
    if big == 9:
        c["steps"] = r.randint(1, 3)
    if big == 13:  # many steps
        c["steps"] = r.randint(130, 600)
    c["end"] = c["start"] + (c["steps"] - r.choice([0, 0.5, r.uniform(0.05, 0.95)])) * c["dt"]
    if n % 11 == 5:  # nothing to do: one step is taken all the same
        c["steps"], c["end"] = 1, c["start"] - r.uniform(0, 1)
    c["scheme"] = r.choice(["ANALYTICAL", "ANALYTICAL", "ANALYTICAL", "NONE"])
    c["outdir"] = r.choice(["out", "project-1/case-1", "a/b/c/d", "with space/x", "%ABS%/here/there", "out/", "pre-existing"])
    return c


def text(r, c, outdir):
    L = lambda v: "[" + ", ".join(num(r, x) for x in v) + "]"
    sec = {
        "general": ["   output_directory:   \"%s\"" % outdir],
        "grid": ["   box:", "      x_min: " + num(r, c["x"][0]), "      x_max: " + num(r, c["x"][1]), "      y_min: " + num(r, c["y"][0]),
                 "      y_max: " + num(r, c["y"][1]), "      z_min: " + num(r, c["z"][0]), "      z_max: " + num(r, c["z"][1]),
                 "   cells: [%d, %d, %d]" % (c["nx"], c["ny"], c["nz"])],
        "time": ["   start: " + num(r, c["start"]), "   end: " + num(r, c["end"]), "   dt: " + num(r, c["dt_in"]), "   constant_dt: " + c["constant"]],
        "velocity": ["   name: CIRCULAR", "   vector: [1., 0, 0]", "   center: " + L(c["vc"]), "   gradient:", "      scheme: " + c["scheme"]],
        "levelset": ["   name: CIRCLE", "   center: " + L(c["lc"]), "   radius: " + num(r, c["radius"]), "   gradient:", "      scheme: CENTRAL"],
    }
    keys = list(sec)
    if r.random() < 0.5:
        r.shuffle(keys)
    return "".join(k + ":   # section\n" + "\n".join(sec[k]) + "\n" for k in keys)


def snapshot(d):
    res = {}
    for root, ds, fs in os.walk(d):
        for x in ds:
            res[os.path.relpath(os.path.join(root, x), d) + "/"] = None
        for x in fs:
            with open(os.path.join(root, x), "rb") as f:
                res[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return res


def judge_file(ctx, key, data, c, rp):
    lines = data.decode("utf-8", "replace").splitlines()
    want = c["nx"] * c["ny"] * c["nz"]
    dx, dy = (c["x"][1] - c["x"][0]) / c["nx"], (c["y"][1] - c["y"][0]) / c["ny"]
    if len(lines) != want:
        ctx.fail("velocity_file", "%s: %d lines, expected %d" % (key, len(lines), want), **rp)
        return
    q = 0
    for i in range(c["nx"]):
        for j in range(c["ny"]):
            for k in range(c["nz"]):
                try:
                    v = [float(t) for t in lines[q].split()]
                except ValueError:
                    v = []
                x, y = c["x"][0] + (i + 0.5) * dx, c["y"][0] + (j + 0.5) * dy
                e = [x, y, 0, COEFF * (c["vc"][1] - y), COEFF * (x - c["vc"][0]), 0]
                tol = lambda w: 5.1e-6 * abs(w) + 1e-10
                if len(v) != 6 or any(abs(a - b) > tol(b) for a, b in zip(v, e)):
                    ctx.fail("velocity_file", "%s: line %d '%s', expected %s" % (key, q + 1, lines[q], e), **rp)
                    return
                q += 1
    ctx.count("velocity_lines", q)


def one(ctx, exe, variant, n, seed):
    r = random.Random("%d-%d-%s" % (seed, n, variant))
    d = os.path.join(ctx.scratch, "app-%s-%d" % (variant, n))
    os.makedirs(d)
    c = make(r, n)
    rp = dict(case=n, variant=variant)
    outdir = c["outdir"].replace("%ABS%", d)
    kind = n % 10
    mode = "run"
    args = ["inputs"]
    if kind == 7:
        mode = r.choice(["noargs", "missing", "badname", "malformed", "badshape"])
    t = text(r, c, outdir)
    if mode == "badname":
        t = t.replace("CIRCULAR", r.choice(["circular", "UNIFORM", "X"]))
    if mode == "badshape":
        t = t.replace("CIRCLE", r.choice(["circle", "SQUARE", "X"]))
    if mode == "malformed":
        t = r.choice([t.replace("radius", "radios"), t.replace("cells: [%d, " % c["nx"], "cells: ["), t.replace("x_max: ", "x_max: q"), t + "\n  ]["])
    if mode == "run":  # relative paths are seen from the working directory, wherever the input lies
        args = [r.choice(["inputs", "inputs", "./inputs", "cases/first/inputs.yml", os.path.join(d, "cases", "x y")])]
    os.makedirs(os.path.dirname(os.path.join(d, args[0])), exist_ok=True)
    with open(os.path.join(d, args[0]), "w") as f:
        f.write(t)
    if c["outdir"] == "pre-existing" or r.random() < 0.3:
        os.makedirs(os.path.join(d, outdir), exist_ok=True)
        with open(os.path.join(d, outdir, "velocity"), "w") as f:
            f.write("old line\n" * 4000)
        with open(os.path.join(d, outdir, "keep"), "w") as f:
            f.write("keep me")
    if mode == "noargs":
        args = []
    if mode == "missing":
        args = ["no-such-file"]
    before = snapshot(d)
    log = os.path.join(ctx.scratch, "mon-%s-%d.log" % (variant, n))
    env = {"VF_FS_ROOT": d}
    if mode == "run":
        env.update({"VF_MON_LOG": log, "VF_NX": str(c["nx"]), "VF_NY": str(c["ny"]), "VF_XMIN": repr(c["x"][0]), "VF_XMAX": repr(c["x"][1]), "VF_YMIN": repr(c["y"][0]),
                    "VF_YMAX": repr(c["y"][1]), "VF_START": repr(c["start"]), "VF_END": repr(c["end"]), "VF_DT": repr(c["dt"]), "VF_LCX": repr(c["lc"][0]), "VF_LCY": repr(c["lc"][1]),
                    "VF_LCZ": repr(c["lc"][2]), "VF_RADIUS": repr(c["radius"]), "VF_VCX": repr(c["vc"][0]), "VF_VCY": repr(c["vc"][1]),
                    "VF_ANALYTICAL": "1" if c["scheme"] == "ANALYTICAL" else "0", "VF_STEPS": str(c["steps"])})
    if ctx.hung:
        return None
    rc, out, to = core.sh([exe] + args, timeout=60, env=env, cwd=d)
    if to or rc == -9:
        rc, out, to = core.sh([exe] + args, timeout=200, env=env, cwd=d)
        ctx.hung = ctx.hung or to
    what = "case %d (%s, %dx%d cells, start %.17g end %.17g dt %.17g %s)" % (n, mode, c["nx"], c["ny"], c["start"], c["end"], c["dt_in"], c["constant"])
    return dict(n=n, mode=mode, c=c, rc=rc, out=out, to=to, before=before, after=snapshot(d), log=log, what=what, rp=rp, outdir=os.path.relpath(os.path.join(d, outdir), d), text=t)


def absorb(ctx, r):
    mode, c, what, rp = r["mode"], r["c"], r["what"], r["rp"]
    ctx.eval(r["text"] + mode)
    ctx.count("runs_" + mode)
    if r["n"] < 3:
        ctx.sample(what)
    san = core.sanitizer_report(r["out"])
    if r["to"]:
        ctx.fail("hang", what + " did not end", **rp)
        return
    uncaught = "terminate called" in r["out"]
    if san and not (uncaught and mode == "malformed"):
        ctx.fail("sanitizer:" + san, what + ": " + san, report=r["out"][-5000:], **rp)
        return
    vel = os.path.normpath(os.path.join(r["outdir"], "velocity"))
    before, after = dict(r["before"]), dict(r["after"])
    if mode == "run":
        if r["rc"] != 0:
            ctx.fail("exit_status", "%s: exit status %d: %s" % (what, r["rc"], r["out"][-300:]), **rp)
            return
    if mode == "run":
        if vel not in after:
            ctx.fail("velocity_file", what + ": no velocity file in " + r["outdir"], **rp)
            return
        judge_file(ctx, what, after[vel], c, rp)
        made = set(after) - set(before)
        allowed = {vel}
        p = os.path.normpath(r["outdir"])
        while p and p != ".":
            allowed.add(p + "/")
            p = os.path.dirname(p)
        if made - allowed:
            ctx.fail("stray_files", "%s: also created %s" % (what, sorted(made - allowed)), **rp)
        before.pop(vel, None)
        for k in before:
            if k not in after or after[k] != before[k]:
                ctx.fail("bystander", "%s: %s changed or vanished" % (what, k), **rp)
    elif mode not in ("badshape", "badname"):  # unknown names leave the fields alone: only crashes are judged
        if after != before:
            ctx.fail("output_without_input", "%s: files changed: %s" % (what, sorted(set(after) ^ set(before)) or "contents"), **rp)
        if mode in ("noargs", "missing") and not r["out"].strip():
            ctx.fail("silent", what + ": no message", **rp)
    if mode == "run":
        done = False
        if os.path.exists(r["log"]):
            for l in open(r["log"], errors="replace"):
                l = l.rstrip("\n").split("\t")
                if l[0] == "FAIL" and len(l) > 3:
                    ctx.fail("trace_" + l[2], what + ": " + l[3], **rp)
                elif l[0] == "COUNTER" and len(l) > 2:
                    ctx.count(l[1], int(l[2]))
                elif l[0] == "DONE":
                    done = True
        if not done:
            raise core.CheckError("the monitor left no log for " + what)


def run(ctx):
    plan = [("asan", 160), ("o2", 80)] if not ctx.thorough else [("asan", 1500), ("clang", 400), ("o2", 800)]
    for variant, n in plan:
        if ctx.replay and ctx.replay.get("variant") != variant:
            continue
        exe = build(variant)
        ids = [ctx.replay["case"]] if ctx.replay else range(n)
        with cf.ThreadPoolExecutor(core.JOBS) as ex:
            for r in ex.map(lambda k: one(ctx, exe, variant, k, ctx.seed), ids):
                if r:
                    absorb(ctx, r)
        if ctx.hung:
            return
