#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (edit here, then run)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook),
                  _t=technique, _n=note))


I = "include/gals/"
S = "src/cpu/"
TESTS = "The unit tests look at a few cells of one or two small fixed grids with one hand-picked data set"

prop("C01", "Grid geometry follows the box, cell counts and padding",
     "A generated grid of any dimension has uniform spacing equal to extent divided by cell count on each active axis, its interior cell centres lie half a spacing inside the box and one spacing apart, and ghost cells continue the same lattice outside the box for whatever padding was set before generation. Inactive axes contribute exactly one cell. Generating again with another box or padding leaves no trace of the earlier generation.",
     ["inputs", "configurations"], "every dimension 1-3, cell counts, padding >= 1, box (any sign, scale and offset), fresh or regenerated grids",
     TESTS + "; padding other than 1 and regeneration are not tried.",
     [I + "utilities/grid.h", S + "grid.cc"], [("generate", S + "grid.cc Grid::generate"), ("accessors", S + "grid.cc Grid::x, dX, oneOverDX, numCells, size, totalCells")],
     ["Grid::generate", "Grid::x", "Grid::dX", "Grid::oneOverDX", "Grid::totalCells"],
     "online geometry monitor on generated grids under ASan+UBSan",
     "Every stored cell of every generated grid is compared with the lattice in long double; sampled over grid specifications.")

prop("C02", "Cell indices address distinct storage and all accessors agree",
     "The map from (i,j,k) over interior and ghost cells to the linear storage position is a bijection onto 0..size-1, x varying fastest, then y, then z. Indices on inactive axes are ignored, and every way of reading a cell's position or an array element (by indices, by node id, by linear index) gives the same answer.",
     ["inputs", "configurations"], "every grid and every interior or ghost index of it",
     TESTS + "; collisions appear only for particular non-cubic counts and paddings.",
     [I + "utilities/grid.h", S + "grid.cc", I + "utilities/array.h"], [("index", S + "grid.cc Grid::index"), ("strides", S + "grid.cc Grid::generate")],
     ["Grid::index", "Grid::x", "Array::operator()"],
     "exhaustive index enumeration per random grid, monitored for collisions, under ASan+UBSan",
     "All indices of each sampled grid are enumerated; grids are sampled.")

prop("C03", "Base node lookup returns the enclosing lattice cell",
     "For every position, the base node is the cell whose centre is the lower corner of the lattice cell enclosing the position on each active axis, also for ghost regions and negative coordinates. A position that differs from a lattice centre by rounding only is given one of the two adjacent cells.",
     ["inputs", "configurations"], "every grid, and every position inside the range covered by cell centres including ghosts",
     TESTS + "; positions below the box or exactly on nodes are not tried.",
     [S + "grid.cc", I + "utilities/grid.h"], [("baseNodeId", S + "grid.cc Grid::baseNodeId")], ["Grid::baseNodeId"],
     "oracle comparison of base nodes on generated positions under ASan+UBSan", "Sampled grids and positions, dense near nodes and box faces.")

prop("C04", "Arrays and fields are independent zero-initialised storage",
     "A new array, level set or velocity field over a grid holds zero everywhere, ghosts included, and a value written at one cell of one field is read back there by every accessor and changes no other cell and no other field. Copies are independent of their original.",
     ["inputs", "histories"], "every grid, element type, field and sequence of reads, writes and copies",
     TESTS + " and never check that other cells and other fields stay untouched.",
     [I + "utilities/array.h", S + "array.cc", I + "cpu/levelset.h", S + "levelset.cc", I + "cpu/levelset-velocity.h", S + "levelset-velocity.cc"],
     [("storage", S + "array.cc"), ("fields", S + "levelset.cc, " + S + "levelset-velocity.cc")],
     ["Array::operator()", "Array::operator[]", "Levelset accessors", "LevelsetVelocity accessors"],
     "write/read-back monitor with shadow copies under ASan+UBSan", "All cells and fields of sampled grids, shadow-compared after writes.")

prop("C05", "Scalar gradient schemes are exact to their order at every interior cell",
     "Each gradient scheme writes, at every interior cell and for every active axis, the finite-difference derivative of the scalar field along that axis (second order: central, exact for quadratics; third order: one node ahead and two behind, exact for cubics), whichever call form is used. The input field, the ghost cells of the output and its components along inactive axes are left as they were.",
     ["inputs", "configurations"], "every grid with enough padding, every field, both schemes and both call forms",
     TESTS + "; they check a single analytic function to a loose tolerance.",
     [I + "cpu/gradient.h", S + "gradient.cc", S + "gradient/second-order-central.cc", S + "gradient/third-order.cc"],
     [("second order stencil", S + "gradient/second-order-central.cc"), ("third order stencil", S + "gradient/third-order.cc")], ["Gradient::compute"],
     "differential monitor against polynomial and stencil models under ASan+UBSan", "All interior cells of sampled grids; polynomial exactness, stencil model, purity.")

prop("C06", "Vector gradient is the full Jacobian at every interior cell",
     "For a vector field, the computed gradient at every interior cell has entry (row c, column d) equal to the finite-difference derivative of component c along axis d, the same value the scalar scheme gives for that component alone. The input field, the ghost cells of the output and its rows and columns of inactive axes are left as they were.",
     ["inputs", "configurations"], "every grid with enough padding, every vector field, both schemes and call forms",
     TESTS + "; the tested vector field does not distinguish rows from columns or axes.",
     [S + "gradient.cc", S + "gradient/second-order-central.cc", S + "gradient/third-order.cc"], [("vector overloads", S + "gradient/*.cc")], ["Gradient::compute"],
     "differential monitor against component-wise models under ASan+UBSan", "All interior cells of sampled grids.")

prop("C07", "Hermite interpolation reproduces tensor-product cubics",
     "With nodal values, gradients and mixed derivatives taken from a polynomial of degree at most three in each coordinate, unlimited Hermite interpolation returns that polynomial's value and gradient at every position inside the node lattice, in one, two and three dimensions, up to rounding.",
     ["inputs", "configurations"], "every grid (anisotropic spacing, offsets, scales), every such polynomial, every position",
     TESTS + "; the tested function is smooth and the tolerance hides wrong mixed-derivative terms.",
     [S + "interpolation/hermite-1d.cc", S + "interpolation/hermite-2d.cc", S + "interpolation/hermite-3d.cc", I + "cpu/interpolation/hermite.h"],
     [("control points", S + "interpolation/hermite-*.cc computeControlPoints")], ["interpolation::Hermite::interpolate", "interpolation::Hermite::linearInterpolation"],
     "polynomial reproduction monitor under ASan+UBSan", "Sampled grids, polynomials and positions, with a rounding bound derived from the data's magnitude.")

prop("C08", "Hermite interpolant matches nodal data, is C1 and local",
     "For arbitrary nodal values, gradients and mixed derivatives the unlimited interpolant takes the given value and gradient at each node, has continuous value and gradient across cell faces, depends on the data of the enclosing cell's nodes only, and is linear in that data.",
     ["inputs", "configurations"], "every grid, every data set, every position",
     TESTS + "; random unrelated data and cell faces are never tried.",
     [S + "interpolation/hermite-1d.cc", S + "interpolation/hermite-2d.cc", S + "interpolation/hermite-3d.cc"],
     [("control points", S + "interpolation/hermite-*.cc"), ("Bernstein basis", I + "cpu/interpolation/hermite.h")], ["interpolation::Hermite"],
     "continuity, locality and model-comparison monitors under ASan+UBSan", "Independent tensor-product Hermite model in long double on sampled data.")

prop("C09", "Gradient limiting applies the published criterion and nothing more",
     "Along an edge of the node lattice, interpolation with gradient limiting is the cubic with the published control-point correction: it takes the nodal values at both ends, and equals the unlimited cubic wherever the criterion finds nothing to limit. A cell none of whose edges needs limiting is interpolated as without limiting, affine data is always reproduced, results are finite, and limiting is off unless requested.",
     ["inputs", "configurations"], "every pair of nodal values, slopes and spacing, every grid and position",
     "The unit tests use data the limiter does not touch.",
     [I + "cpu/interpolation/hermite.h", S + "interpolation/hermite-1d.cc", S + "interpolation/hermite-2d.cc", S + "interpolation/hermite-3d.cc"],
     [("limiter", S + "interpolation/hermite-1d.cc")], ["computeControlPoints with limiting", "interpolation::Hermite"],
     "range and model monitors on generated slopes under ASan+UBSan", "Sampled data around every branch boundary of the limiter.")

prop("C10", "Field interpolation is the pointwise interpolant and touches nothing else",
     "Interpolating a level set (Hermite) or, in one dimension, a scalar array (linear) on a set of query positions writes, for every interior cell of the query grid, exactly the value (and, for a level set, gradient) of the pointwise interpolant at that cell's position. Results do not depend on the order or on other query points, and nodal data, query positions and ghost cells are left unmodified.",
     ["inputs", "configurations"], "every level set grid and data, every query grid no larger than it, every set of positions inside the lattice",
     TESTS + "; side effects are never checked.",
     [S + "interpolate.cc", I + "cpu/interpolate.h", I + "cpu/interpolation/hermite.h"], [("compute", S + "interpolate.cc")], ["Interpolate::compute", "interpolation::Hermite::compute"],
     "snapshot/compare monitor of all inputs and outputs under ASan+UBSan", "All cells of sampled query grids, bitwise purity comparison.")

prop("C11", "Linear interpolation is the piecewise linear interpolant",
     "Linear interpolation in one dimension returns, for every position inside the node lattice, the value on the straight segment between the two neighbouring nodes, so it is exact at nodes, exact for affine data and always within the range of the two nodal values.",
     ["inputs"], "every 1D grid, data set and position", TESTS + ".",
     [S + "interpolation/linear-1d.cc", I + "cpu/interpolation/linear.h"], [("linear 1D", S + "interpolation/linear-1d.cc")], ["interpolation::Linear"],
     "model and range monitors under ASan+UBSan", "Sampled grids and positions.")

prop("C12", "A semi-Lagrangian step evaluates the old interpolant at departure points",
     "One semi-Lagrangian step sets, at every interior cell, the new value to the previous field's Hermite interpolant at the departure point x - u dt and the new gradient to the chain rule of the departure map applied to the interpolated gradient (component i is the sum over j of (delta_ji - dt du_j/dx_i) times interpolated component j, with the velocity gradient supplied), for any velocity and time step whose departure points stay inside the stored lattice. Zero velocity reproduces the previous field; the previous field, the velocity and ghost cells are not modified.",
     ["inputs", "configurations"], "every grid, previous data, velocity, velocity gradient and admissible time step, dimensions 1-3",
     "The unit tests check one step in 1D/2D of one analytic field to a loose tolerance.",
     [S + "temporal-schemes/semi-lagrangian/euler.cc", S + "temporal.cc", I + "cpu/temporal.h"],
     [("advect", S + "temporal-schemes/semi-lagrangian/euler.cc"), ("interpolation", S + "interpolate.cc")], ["Temporal::compute", "SemiLagrangian::Euler::compute"],
     "step-by-step differential monitor against an independent model, ASan+UBSan and release build", "All interior cells of sampled steps.")

prop("C13", "An explicit Euler step is phi - dt u.grad phi",
     "One explicit Euler step sets the new value at every interior cell to the previous value minus the time step times the velocity dotted with the previous gradient, in one, two and three dimensions. Other fields and cells are not modified.",
     ["inputs", "configurations"], "every grid, data, velocity and time step", "The unit tests run it on one 1D field.",
     [S + "temporal-schemes/euler.cc", I + "cpu/temporal-schemes/euler.h"], [("advect", S + "temporal-schemes/euler.cc")], ["TemporalSchemes::Euler::compute"],
     "differential monitor against the update formula under ASan+UBSan", "All cells and fields of sampled steps.")

prop("C14", "Histories of steps compose, and simulations are independent",
     "Over any sequence of level set operations (initialise, advance, copy current to previous, gradient and mixed-derivative updates) every field holds exactly what the sequence of documented effects gives. Polynomial level sets carried by constant or linear flows stay exact over many steps, and simulations run alternately in one process give the same results as run alone.",
     ["histories", "inputs"], "every sequence of operations and steps on one or several level sets and grids",
     "The unit tests run at most one step after another on a single level set.",
     [S + "levelset.cc", I + "cpu/levelset.h", S + "temporal.cc", S + "temporal-schemes/semi-lagrangian/euler.cc", S + "interpolate.cc", S + "gradient.cc"],
     [("prev copies", I + "cpu/levelset.h"), ("static scheme dispatch", S + "temporal.cc")], ["Temporal::compute", "Levelset fields"],
     "online trace-specification monitor over random operation histories under ASan+UBSan", "Sampled histories of up to dozens of operations.")

prop("C15", "Analytical level set is the signed distance to the configured shape",
     "The analytical level set evaluated at any positions gives, at every interior cell, the signed distance to the configured circle or sphere (negative inside, zero on the surface) using the configured centre and radius. Positions, ghost cells and every other field are not modified, and an unknown shape name changes nothing.",
     ["inputs", "configurations"], "every centre, radius, grid, set of positions and dimension",
     TESTS + " with one centre and radius.",
     [S + "analytical-fields/levelset.cc", I + "analytical-fields/levelset.h"], [("compute", S + "analytical-fields/levelset.cc")], ["AnalyticalFields::Levelset::compute"],
     "closed-form oracle monitor, ASan+UBSan and release build", "All interior cells of sampled grids.")

prop("C16", "Analytical velocity and its gradient describe the configured rotation",
     "The analytical circular velocity field is, at every interior cell, the steady counter-clockwise rigid rotation about the configured centre in the x-y plane with angular speed pi/3.15, and, when the analytical gradient is requested, the gradient written beside it at every interior cell is the exact Jacobian of that field. Positions and ghost cells are not modified, an unknown field name changes nothing, and a centre without two coordinates is refused.",
     ["inputs", "configurations"], "every centre, grid, set of positions, time and dimension 2-3",
     TESTS + " with a centre whose coordinates coincide.",
     [S + "analytical-fields/velocity.cc", I + "analytical-fields/velocity.h"], [("compute", S + "analytical-fields/velocity.cc")], ["AnalyticalFields::Velocity::compute"],
     "closed-form and finite-difference oracle monitor, ASan+UBSan and release build", "All interior cells of sampled grids.")

prop("C17", "Parsing an input file yields exactly what it says",
     "Every setting in a well-formed input file (general, grid, time, velocity, level set) is delivered with exactly its written value whatever the order of sections and keys, and keys that are not settings are ignored. Sections that are absent leave the defaults (zero, empty) or the values parsed into the same object earlier, and parsing into one object does not affect another or the file.",
     ["inputs", "histories"], "every well-formed file, in every order, style and subset of sections, and every sequence of files",
     "The unit tests parse one fixed document.",
     [S + "input-parser.cc", S + "input-parser/*.cc", I + "input-fields/*.h", S + "input-fields/input-fields.cc"], [("parsers", S + "input-parser/*.cc"), ("defaults", I + "input-fields/*.h")],
     ["InputParser::parse", "InputFields"],
     "round-trip monitor on generated documents, ASan+UBSan and release build", "Sampled documents; exact comparison of every setting.")

prop("C18", "Malformed input is refused with an exception, never a crash",
     "For any input text, parsing either succeeds or ends in a C++ exception: there is no crash, out-of-bounds access, undefined behaviour, hang or process exit. An unreadable file, a missing required key, a value of the wrong type, or a list too short for what it describes is refused, and after a refusal the fields object can still be used to parse a good file.",
     ["inputs", "fault_sequences"], "every damaged, truncated, mistyped or random input text",
     "No test feeds malformed input.",
     [S + "input-parser.cc", S + "input-parser/*.cc"], [("type conversion", S + "input-parser/*.cc"), ("list length checks", S + "input-parser/grid.cc")], ["InputParser::parse"],
     "fault injection on documents with sanitizers as oracle", "Sampled mutations of valid documents plus systematic damage of every leaf.")

prop("C19", "Small vector and matrix algebra obeys its definitions",
     "Arithmetic, comparison (exact for integers, within 1e-10 per component for reals), matrix-vector product, norm, minimum, indexing, construction, printing and assignment of the small vector and matrix types give the componentwise or textbook result for all finite operands whose result (for a norm of reals: whose squares) is representable, never modify their const operands, and work when operands alias, an object assigned to itself included.",
     ["inputs"], "all finite values, operand combinations and aliasings", TESTS + ".",
     [I + "utilities/vec3.h", S + "vec3.cc", I + "utilities/mat3.h", S + "mat3.cc", I + "utilities/vec_n.h", S + "vec_n.cc"], [("operators", S + "vec3.cc, " + S + "mat3.cc, " + S + "vec_n.cc")],
     ["Vec3", "Mat3", "VecN"],
     "algebraic-law monitor on generated operands under ASan+UBSan", "Sampled operands including ties, signs, zeros and extreme magnitudes.")

prop("C20", "No memory error, undefined behaviour or leak in valid API use",
     "No sequence of valid uses of the library (grids, fields, gradients, interpolation, time steps, analytical fields, parsing, file output), in any order and with any object lifetimes, reads or writes outside an object, uses freed or uninitialised memory, triggers undefined behaviour, or leaks memory after its objects are destroyed.",
     ["programs", "inputs", "histories"], "every program over the public interface within documented preconditions",
     "The tests are run without sanitizers and use each object once.",
     [I + "utilities/array.h", S + "array.cc", S + "grid.cc", S + "interpolate.cc", S + "gradient/*.cc", S + "input-parser.cc"], [("ownership", "std::vector members, destructors")], ["whole public interface"],
     "random API programs under ASan+UBSan with allocator balance monitor", "Sampled programs; sanitizers plus per-program allocation balance.")

prop("C21", "Independent objects and shared reads are safe across threads",
     "Threads that use different objects, or that only read shared grids, fields and settings, never race and obtain the same results as the same work done sequentially.",
     ["schedules", "programs"], "every interleaving of threads running library operations on disjoint objects or reading shared ones",
     "All tests are single threaded.",
     [S + "analytical-fields/*.cc", S + "input-parser.cc", S + "temporal.cc", S + "interpolate.cc", S + "gradient.cc"], [("stateless static compute functions", S + "*.cc")], ["all compute functions"],
     "ThreadSanitizer with injected delays plus sequential-equivalence monitor", "Sampled schedules; races are detected by happens-before on every observed access.")

prop("C22", "Results depend on nothing but the inputs",
     "Running the same program of library operations again, in another process, after other work, or with different prior contents of heap and stack memory gives bit-identical results; no result or branch depends on uninitialised memory.",
     ["programs", "configurations"], "every program over the public interface and every prior memory content",
     "A test sees one memory content, usually zero.",
     [I + "utilities/array.h", I + "input-fields/*.h", I + "utilities/vec3.h", I + "utilities/mat3.h", I + "utilities/grid.h"], [("initialisation", "constructors")], ["whole public interface"],
     "repeat-run hash comparison under varied memory fills, and valgrind memcheck", "Sampled programs under four fill/build combinations.")

prop("C23", "Written fields can be read back completely",
     "Writing a field to a file produces one line per interior cell, in index order with x outermost and z innermost, each holding the cell's position and values with at least six significant digits, and nothing else. An earlier longer file of the same name leaves no remnant, and nothing besides the named file is touched.",
     ["inputs", "histories"], "every grid, field type, values and earlier file contents",
     "The unit tests do not read the files back.",
     [S + "file-utils.cc", I + "utilities/file-utils.h", I + "utilities/array.h"], [("write", I + "utilities/file-utils.h FileUtils::write")], ["FileUtils::write"],
     "write/read-back monitor under ASan+UBSan", "Sampled fields, each file parsed and compared completely.")

prop("C24", "File and directory utilities act on the named path only",
     "Creating, removing and testing files and directories reports existence truthfully and changes exactly the named entry (creating the missing parents of a directory), for any history of calls and any spelling of the path; all other files keep their contents, and the answer tells whether the call succeeded (removing what is not there does not). A root directory that is set is remembered per object.",
     ["histories", "inputs"], "every history of utility calls over a directory tree", "The unit tests make one directory and remove it.",
     [S + "file-utils.cc", I + "utilities/file-utils.h"], [("FileUtils", S + "file-utils.cc")], ["FileUtils"],
     "model-based history monitor over a scratch tree under ASan+UBSan", "Sampled histories; whole-tree comparison after every call. The filesystem helper library is a stand-in, as its submodule is absent.")

prop("C25", "The advection application runs the configured simulation to its end",
     "Given a valid input file, the advection application sets up the configured grid, starts at the configured start time, advances with the configured (or automatically chosen, stable and positive) time step until the end time, writes the velocity field of the configured grid to its output file, and ends with success; it performs no invalid memory access. Given missing, malformed or unsupported input it ends without a crash, and in no case modifies files other than its outputs.",
     ["inputs", "configurations", "fault_sequences"], "every 2D input file, valid or damaged, and every way of starting the application",
     "No test runs the application.",
     ["applications/advection/main.cc", S + "input-parser.cc", S + "temporal.cc", S + "analytical-fields/*.cc", S + "file-utils.cc", I + "utilities/utilities.h"], [("main", "applications/advection/main.cc")],
     ["applications/advection/main.cc (link-time wrapped library calls)", "output files"],
     "online monitor of the application's library calls (link-time wrappers), output-file oracle, ASan+UBSan and release build", "Sampled input files and fault modes.")

exec(open(os.path.join(V, "tools", "gen_reference.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_reference.py")) else None

NA = []

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
import sys
sys.path.insert(0, os.path.join(V, "lib"))
import checks
claimed = [p for p in P if p["id"] in checks.CHECKS]
assert len(claimed) == len(P), set(p["id"] for p in P) - set(checks.CHECKS)
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
                      technique="runtime monitoring and sanitizers: " + p["_t"], level="exploration", level_note=p["_n"]) for p in claimed],
         not_applicable=NA, notes="No hooks in /repo: monitors are linked or wrapped from /verif.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
