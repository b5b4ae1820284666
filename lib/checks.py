"""The registry: how each property is decided."""
import core, app, reference


def harness(sources, variants_quick=("asan",), variants_thorough=("asan", "o2", "clang"), **kw):
    def run(ctx):
        for v in variants_thorough if ctx.thorough else variants_quick:
            exe = core.build_harness(v, sources)
            ctx.run_harness(exe, v, **kw)
    return run


def setup():
    core.build_harness("asan", ["c01.cc"])
    return 0



VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=no", "--track-origins=no", "--undef-value-errors=yes"]


def determinism(ctx):
    """C22: the same programs under different memory contents and another build, and under valgrind."""
    runs = [("asan", {"VF_FILL": "0"}, {}), ("asan", {"VF_FILL": "255", "ASAN_OPTIONS": core.RUNENV["ASAN_OPTIONS"].replace("malloc_fill_byte=202", "malloc_fill_byte=7")}, {}),
            ("o2", {"VF_FILL": "0", "MALLOC_PERTURB_": "1"}, {}), ("o2", {"VF_FILL": "127", "MALLOC_PERTURB_": "165"}, {})]
    tables = []
    for n, (v, env, kw) in enumerate(runs):
        exe = core.build_harness(v, ["c22.cc"])
        tables.append((v, env, ctx.run_harness(exe, v, env=env, records="HASH", evals=(n == 0), tag="run%d" % n)))
    for v in ("asan", "o2"):
        ts = [t for t in tables if t[0] == v]
        for k in ts[0][2]:
            ctx.count("programs_compared_over_fills")
            if k in ts[1][2] and ts[0][2][k] != ts[1][2][k]:
                ctx.fail("memory_content", "program %s: hash %s with fill %s, %s with fill %s" % (k, ts[0][2][k], ts[0][1]["VF_FILL"], ts[1][2][k], ts[1][1]["VF_FILL"]),
                         variant=v, program=k)
    exe = core.build_harness("vg", ["c22.cc"])
    ctx.run_harness(exe, "vg", env={"VF_FILL": "85", "VF_SLOW": "1"}, evals=False, tag="vg", wrapper=VALGRIND)
    ctx.count("valgrind_runs")


def memory(ctx):
    """C20: random programs under ASan and UBSan, and fewer of them under valgrind for uses of uninitialised memory."""
    harness(["c20.cc"])(ctx)
    exe = core.build_harness("vg", ["c20.cc"])
    ctx.run_harness(exe, "vg", env={"VF_SLOW": "1"}, evals=False, tag="vg", wrapper=VALGRIND)
    ctx.count("valgrind_runs")


CHECKS = {
    "C01": dict(run=harness(["c01.cc"]), min_evals=300,
                rule="a case is a grid specification (dimension, cell counts, padding, box), fresh or regenerated; distinct by its full specification, non-trivial if it has more than one stored cell"),
    "C02": dict(run=harness(["c02.cc"]), min_evals=100, rule="a case is a random grid specification all of whose indices are enumerated; distinct by specification"),
    "C03": dict(run=harness(["c03.cc"]), min_evals=10000, rule="a case is a grid and a position (inside a cell, near a node, in ghosts); distinct by specification and coordinates"),
    "C04": dict(run=harness(["c04.cc"]), min_evals=50, rule="a case is a grid specification over which every element type and field is written and read; distinct by specification"),
    "C05": dict(run=harness(["c05.cc"]), min_evals=1000, rule="a case is a scheme, call form, data kind and grid with fresh random data; distinct by all of these"),
    "C06": dict(run=harness(["c06.cc"]), min_evals=500, rule="a case is a scheme, call form, data kind and grid with fresh random vector data; distinct by all of these"),
    "C07": dict(run=harness(["c07.cc"]), min_evals=100, rule="a case is a grid and a random tensor-cubic polynomial evaluated at many points; distinct by grid and coefficients"),
    "C08": dict(run=harness(["c08.cc"]), min_evals=100, rule="a case is a grid with unrelated random nodal data, examined at nodes, faces and interior points; distinct by grid and data"),
    "C09": dict(run=harness(["c09.cc"]), min_evals=100, rule="a case is a set of nodal values and gradients given to the limiter, directly or through a field; distinct by data"),
    "C10": dict(run=harness(["c10.cc"]), min_evals=100, rule="a case is a level set grid, a query grid and random query positions; distinct by both grids"),
    "C11": dict(run=harness(["c11.cc"]), min_evals=100, rule="a case is a 1D grid with random data and query points; distinct by grid"),
    "C12": dict(run=harness(["c12.cc"], ("asan", "prod"), ("asan", "o2", "prod", "clang")), min_evals=500, rule="a case is one step on a random grid with random data, velocities of six kinds and time step; distinct by grid, step and velocity"),
    "C13": dict(run=harness(["c13.cc"]), min_evals=200, rule="a case is one explicit step on a random grid with random data; distinct by grid and step"),
    "C14": dict(run=harness(["c14.cc"]), min_evals=50, rule="a case is a history of operations on one or several level sets; distinct by grid and operations"),
    "C15": dict(run=harness(["c15.cc"], ("asan", "prod"), ("asan", "o2", "prod", "clang")), min_evals=500, rule="a case is a shape description and a set of positions; distinct by description and grid"),
    "C16": dict(run=harness(["c16.cc"], ("asan", "prod"), ("asan", "o2", "prod", "clang")), min_evals=500, rule="a case is a velocity description and a set of positions; distinct by description, time and grid"),
    "C17": dict(run=harness(["c17.cc"], ("asan", "prod"), ("asan", "o2", "prod", "clang")), min_evals=500, rule="a case is a generated input file; distinct by its text, non-trivial if not empty"),
    "C18": dict(run=harness(["c18.cc"]), min_evals=500, rule="a case is a damaged input file; distinct by its text"),
    "C19": dict(run=harness(["c19.cc"]), min_evals=500, rule="a case is a tuple of vectors, matrices and scalars; distinct by their values"),
    "C20": dict(run=memory, min_evals=500, rule="a case is a random program over the public interface run three times in one process; distinct by the hash of what it observed"),
    "C21": dict(run=harness(["c21.cc"], ("tsan",), ("tsan", "o2")), min_evals=100,
                rule="a case is a set of programs run by 2-8 threads; distinct by the recorded interleaving of operation ends, non-trivial if threads alternated"),
    "C22": dict(run=determinism, min_evals=100, rule="a case is a random program run under several memory contents and builds; distinct by its seed"),
    "C23": dict(run=harness(["c23.cc"]), min_evals=100, rule="a case is a field written to a file and read back; distinct by grid and values"),
    "C24": dict(run=harness(["c24.cc"]), min_evals=100, rule="a case is a history of file and directory operations on a scratch tree; distinct by the history"),
    "C25": dict(run=app.run, min_evals=100, rule="a case is an input file and a directory state given to the application; distinct by the text of the file and the way of running"),
    "C26": dict(run=reference.c26, min_evals=20, rule="a case is a settings block with a thread count; under the race detector distinct by the order in which the threads of every parallel region were started, otherwise by the settings"),
    "C27": dict(run=reference.c27, min_evals=500, rule="a case is a cell, point, node or grid given to one routine, or the settings of a whole run; distinct by its values"),
    "C28": dict(run=reference.c28, min_evals=50, rule="a case is a settings block, program and send mode; distinct by these and the recorded order of sends and receives of both ranks"),
    "C29": dict(run=reference.c29, min_evals=50, rule="a case is a settings block with a tile size, build, launch mode and number of workers; distinct by these"),
}
