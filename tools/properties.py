"""Writes properties.jsonl and MANIFEST.json (python3 tools/properties.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def p(pid, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["electrode/"+f for f in files.split()],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("E01", "Polygon electrodes give the exact surface-electrode potential and derivatives",
  "The potential of a polygonal pixel electrode held at unit voltage in a grounded z=0 plane is the solid angle it subtends "
  "divided by 2 pi, for both sides of the plane, any simple polygons, holes (opposite orientation) and any number of paths; it tends to the electrode's voltage inside and to zero outside as the plane is approached. "
  "Its partial derivatives up to order 5 are the exact derivatives of that potential, and describing the same shape "
  "differently (start vertex, redundant vertices, splitting, orientation sign, translation, scaling) changes nothing but "
  "what geometry dictates.",
  "inputs", "all polygon sets, all evaluation points off the plane, all derivative orders 0..5",
  "The tests compare a few points of one or two hand-made traps with stored numbers; derivative orders, point positions "
  "(above vertices, edges, edge extensions, far away) and shapes are unbounded.",
  "electrode.py expressions.py cexpressions.pyx",
  [("polygon pixel edge sums", "electrode/cexpressions.pyx, electrode/expressions.py"),
   ("path handling and scaling", "electrode/electrode.py PolygonPixelElectrode")])
p("E02", "Point pixel electrodes give the exact small-patch potential and derivatives",
  "A point pixel electrode contributes at every point off the plane the dipole-layer potential of its pixels weighted by "
  "their areas, with exact partial derivatives up to order 5. A polygon electrode seen from afar has the potential of the point "
  "pixel with its area and centroid, which the conversion keeps.",
  "inputs", "all pixel positions, areas, evaluation points and orders",
  "Unit tests sample one point electrode at one or two points and low orders.",
  "electrode.py expressions.py cexpressions.pyx",
  [("point kernel", "electrode/cexpressions.pyx, electrode/expressions.py"), ("to_points", "electrode/electrode.py")])
p("E03", "Cover plates act as the documented image sum and linear capacitor",
  "An electrode with a cover at height h and n images has the potential of itself plus its periodic images at distances "
  "2hk, |k| <= n, evaluated live from the current cover attributes. The cover electrode itself contributes V z/h with its exact derivatives.",
  "inputs configurations", "all electrodes, cover heights, image counts, points and orders",
  "Tests use one cover configuration.", "electrode.py",
  [("image loop", "electrode/electrode.py PixelElectrode"), ("CoverElectrode", "electrode/electrode.py")])
p("E04", "Potentials superpose linearly and per point, whatever batch or buffer is used",
  "The dc or rf potential of a system is the sum over its electrodes of voltage times unit potential, independent of the "
  "order or grouping of electrodes. Each point's result is independent of the other points evaluated with it and of the "
  "memory layout or number type of the arguments, and a given output buffer is accumulated into without the system or the arguments changing.",
  "inputs configurations", "all systems, voltages, point batches, array layouts and prior buffer contents",
  "Tests use a handful of points in one layout with few electrodes.",
  "system.py electrode.py cexpressions.pyx",
  [("electrical_potential/individual_potential", "electrode/system.py"), ("potential(..., out)", "electrode/electrode.py")])
p("E05", "Compiled and pure Python potential kernels agree",
  "For identical valid arguments the compiled and the pure Python implementation of every potential kernel return the same values, "
  "including accumulation into an existing buffer and potential scaling.",
  "inputs", "all arguments valid for both implementations",
  "The tests compare one polygon at one point.", "expressions.py cexpressions.pyx",
  [("kernels", "electrode/expressions.py, electrode/cexpressions.pyx")])
p("E06", "Mesh electrodes reproduce the potential of the polygons they mesh",
  "A mesh electrode whose faces carry voltages has the potential, to every supported order, of the polygon electrodes of the same faces "
  "and voltages, however vertices are numbered and edges are listed or shared.",
  "inputs", "all planar meshes and face voltages", "One mesh of one trap is tested at one point.",
  "electrode.py expressions.py cexpressions.pyx",
  [("from_polygon_system and mesh kernel", "electrode/electrode.py, electrode/cexpressions.pyx")])
p("E07", "Grid electrodes interpolate their samples linearly, with consistent derivatives",
  "A grid electrode reproduces its samples at the nodes, is linear along each axis in between, and constant beyond the grid. "
  "Derivative orders that are not given are finite differences of the given data (traceless, in the documented component order) and given data stay untouched.",
  "inputs configurations", "all grid shapes, origins, spacings, data orders and points",
  "Tests load one stored grid.", "electrode.py",
  [("interpolation and generate", "electrode/electrode.py GridElectrode")])
p("E08", "Grid electrodes loaded from field solvers keep values, positions and axes",
  "Potentials and fields given by a solver result or a VTK structured-points file appear in the grid electrode at the positions and in the "
  "axis and derivative order that the source states.",
  "inputs", "all grid sizes, origins, spacings, field sets",
  "Only one file with equal symmetric data is loaded by tests (or none at all).", "electrode.py grid.py",
  [("from_result/from_vtk", "electrode/electrode.py")])

p("U01", "Reduced and full derivative tensors convert into each other without loss",
  "Expanding the 2n+1 independent components of an order-n harmonic derivative gives the full symmetric traceless tensor, selecting the components back is the "
  "identity, and every derivative name refers to the component (or its Laplace combination) it spells.",
  "inputs", "all orders 0..5, all component values and batch shapes, all derivative names",
  "Tests check a few tensors of low order.", "utils.py",
  [("expand_tensor/select_tensor", "electrode/utils.py"), ("derivative names", "electrode/utils.py")])
p("U02", "Rotating derivative tensors is the change of coordinates",
  "Rotating a derivative tensor of any order into another orthonormal frame gives the derivatives along the new axes, composes like the rotations, keeps norm, trace and symmetry, "
  "and works for any batch of tensors.",
  "inputs", "all orders, rotations (proper and improper) and batches", "Tests check one rotation.", "utils.py",
  [("rotate_tensor", "electrode/utils.py")])
p("U03", "Cartesian derivatives and real spherical harmonics convert exactly",
  "Converting cartesian derivatives of a harmonic function to real spherical harmonic coefficients and back is the identity, and the conversion is linear for every order offered.",
  "inputs", "all orders and coefficient vectors", "Tests check one or two coefficient vectors.", "utils.py",
  [("cartesian_to_spherical_harmonics", "electrode/utils.py")])
p("U04", "Polygon areas, centroids and norms are exact",
  "The signed area and the centroid of a simple polygon are the exact ones, invariant under start vertex and additive under splitting; vector norms are taken over the requested axis.",
  "inputs", "all simple polygons; arrays of any shape", "Tests check one polygon and one axis.", "utils.py",
  [("area_centroid, norm", "electrode/utils.py")])

p("S01", "The pseudopotential is the squared rf field, with exact derivatives",
  "The pseudopotential at a point equals the rf coefficient squared times the squared gradient of the rf potential, and its derivatives of every offered order are exact derivatives of it. "
  "It is quadratic in rf voltage, independent of dc voltages, and never negative.",
  "inputs configurations", "all rf electrode sets, voltages, coefficients, points and orders 0..4",
  "Tests check low orders at one or two points of one trap.", "system.py utils.py",
  [("pseudo_potential", "electrode/system.py")])
p("S02", "Combined and time-dependent potentials are the documented sums",
  "The total potential is dc plus pseudopotential, the instantaneous potential is dc plus rf times the cosine of the phase, and the individual contributions are each electrode's unit potential, in electrode order. "
  "Trajectory integration hands a user's integrator exactly the scaled instantaneous gradient, for every time.",
  "inputs", "all systems, points, orders, times", "Tests only check shapes or one sample.", "system.py",
  [("potential, time_potential, individual_potential, trajectory", "electrode/system.py")])
p("S03", "Temporary voltages apply inside their scope and are restored on every exit",
  "Inside a temporary voltage scope every evaluation uses the given dc/rf voltages, and on any exit (normal, exception, nesting, failing to set them) every electrode has its previous voltages. "
  "Name, dc and rf accessors of a system always mirror its electrodes.",
  "histories fault_sequences", "all nestings, exceptions and interleaved accessor writes",
  "Tests do one nested scope without faults.", "system.py",
  [("with_voltages", "electrode/system.py")])
p("S04", "Electrodes are found by name, and grouping keeps the potential",
  "Looking an electrode up by name finds exactly the first one of that name or fails, for any list history; grouping electrodes by voltage thresholds or names produces "
  "a system whose electrodes contain exactly the paths of the grouped ones with the documented representative voltages.",
  "inputs histories", "all name lists, list operations, voltages and thresholds", "Tests look up one name.", "system.py",
  [("__getitem__, electrodes, group", "electrode/system.py")])
p("S05", "Minimum and saddle searches return stationary points of the right kind",
  "A reported potential minimum is a point where the total potential gradient vanishes along the searched axes and the curvature is non-negative; a reported saddle point is stationary with exactly one unstable direction, and its value is the potential there. "
  "Frozen axes keep their start values, searches in rotated coordinates find the same points, the start and the system are unchanged, the recorded walk starts at the start, keeps to the step limit and ends at the result, and failure is reported as an error.",
  "inputs configurations", "all traps, starts near an extremum, axis subsets, coordinate frames, search methods",
  "Tests find one minimum and one saddle of one trap.", "system.py saddle.py",
  [("minimum, saddle", "electrode/system.py"), ("rfo", "electrode/saddle.py")])
p("S06", "Secular modes are the curvature eigenvectors of the potential",
  "Reported modes are the ascending eigenvalues of the total curvature at the point with orthonormal eigenvectors, and the analysis report states trap height, depth, frequencies, voltages and displacements that agree with the potentials of the system; it can be closed early and leaves the system unchanged.",
  "inputs configurations", "all traps, points, ions and rf frequencies",
  "Tests compare a single trap's frequencies.", "system.py",
  [("modes, analyze_static", "electrode/system.py")])
p("S07", "Floquet exponents and vectors solve the equations of motion",
  "The exponents and coefficient vectors reported for a generalised Mathieu equation and for a system's curvatures reconstruct motion that satisfies the differential equation, come in the documented layout, and converge to the secular frequencies for weak drive.",
  "inputs", "all coefficient matrices in the resolved range, truncation orders, dimensions",
  "Tests check one scalar case.", "utils.py system.py",
  [("mathieu", "electrode/utils.py, electrode/system.py")])
p("S08", "Optimised voltages meet all constraints and are optimal; shims do not cross-talk",
  "Voltages found for a set of constraints and objectives satisfy every range and value constraint, have objective values exactly proportional to the requested ones, and reach the largest strength allowed. "
  "Shim vectors have unit effect on their own objective, none on the others, and use least effort. Options handed to the solver reach it and do not outlast the call.",
  "inputs", "all electrode patterns, objective sets, rotations, limits",
  "Tests optimise one pattern with one objective list.", "system.py pattern_constraints.py",
  [("optimize, shims", "electrode/system.py"), ("constraints", "electrode/pattern_constraints.py")])
p("S09", "Voltage waveforms satisfy all local and global constraints at minimum cost",
  "A solved sequence of voltage sets satisfies each set's local constraints and the global voltage-derivative constraints, and its total weighted cost over all objectives is minimal; contradictory constraints raise an error instead of an answer. "
  "Each constraint's row is the requested (rotated) derivative of each electrode's unit potential.",
  "inputs", "all local/global constraint combinations, set counts, orders, norms, weights",
  "Tests solve one waveform with one global constraint.", "system.py pattern_constraints.py",
  [("solve", "electrode/system.py"), ("VoltageDerivativeConstraint", "electrode/pattern_constraints.py")])
p("S10", "Plots show the system's own geometry, names, voltages and potentials",
  "Plotting electrodes draws every polygon of every electrode with its name at its centroid and a colour scale that follows the plotted voltages, contour plots draw the potential values of the requested plane, and plotting changes neither the system nor its inputs.",
  "inputs", "all systems, voltages, planes, label and colour options",
  "Tests only check that plotting does not raise.", "system.py electrode.py",
  [("plot, plot_voltages, plot_contour", "electrode/system.py, electrode/electrode.py")])
p("S11", "Results depend only on current state: no hidden caches, copies or thread effects",
  "Any sequence of evaluations, edits of electrodes, copies, pickling and list operations leaves a system that answers exactly like one freshly built with the same electrodes, and copies are independent of the original. "
  "Concurrent evaluations from several threads return the same values as sequential ones.",
  "histories schedules", "all operation histories; all thread schedules of concurrent evaluations",
  "Tests never edit then re-evaluate, copy, pickle or run threads.", "system.py electrode.py cexpressions.pyx",
  [("mutable electrode attributes; nogil kernels", "electrode/electrode.py, electrode/cexpressions.pyx")])

p("S12", "Several trapped ions: equilibria and normal modes are those of the crystal",
  "The positions returned for several ions are an equilibrium of the trap's total potential plus the Coulomb interaction of all pairs, the returned eigenvalues are the ascending curvatures of that energy "
  "at those positions with orthonormal mode vectors in the documented layout, and the printed analysis of several ions states separations and mode frequencies that agree with them in SI units.",
  "inputs", "all stable traps, ion numbers, charges, start positions",
  "There is no test of several ions at all.", "system.py",
  [("ions", "electrode/system.py"), ("analyze_static(ions=)", "electrode/system.py")])
p("T01", "Compiled and pure Python transformations agree",
  "Every transformation function that exists both compiled and in pure Python returns the same result for the same valid arguments (up to sign of equivalent quaternions), including argument containers, optional outputs and error cases.",
  "inputs", "all functions with two implementations and their valid arguments",
  "The doctests run a few random samples on whichever implementation was imported.", "transformations.py transformations.c",
  [("C functions and their Python twins", "electrode/transformations.c, electrode/transformations.py")])
p("T02", "Euler angles, quaternions and rotation matrices describe the same rotation",
  "For all 24 axis conventions, converting angles to a matrix or a quaternion applies the elementary rotations in the stated order and frame, and conversions back return angles or quaternions of the same rotation, also at gimbal lock.",
  "inputs", "all 24 conventions, all angles including singular ones, all rotations",
  "Doctests sample single angles per convention.", "transformations.py transformations.c",
  [("euler/quaternion conversions", "electrode/transformations.py, electrode/transformations.c")])
p("T03", "Homogeneous transformations do what their parameters say and decompose back",
  "Translation, rotation, reflection, scaling, projection, clipping, shear and composed matrices map points as geometry prescribes, decomposing recovers parameters of the same matrix, and registration of point sets recovers the transformation that maps them.",
  "inputs", "all parameters in their documented domains", "Doctests check single random samples.", "transformations.py transformations.c",
  [("matrix constructors and *_from_matrix", "electrode/transformations.py")])
p("T04", "The native extensions are free of memory errors and leaks",
  "With valid arguments the compiled modules never read or write out of bounds, use freed memory, run into undefined behaviour or lose references, and with malformed arguments they raise Python errors instead of crashing or leaking.",
  "inputs histories", "all calls with valid arguments and all malformed argument types, shapes, sizes and indices",
  "Plain tests do not see out-of-bounds reads or reference leaks.", "transformations.c cexpressions.pyx",
  [("argument parsing and reference handling", "electrode/transformations.c"), ("kernels without bounds checks", "electrode/cexpressions.pyx")])

p("P01", "Systems and polygon collections convert into each other without changing shapes",
  "Converting polygon electrodes to a polygon collection and back keeps every electrode's name, order and point set (holes, nested islands, several parts), and so its potential.",
  "inputs", "all valid polygon electrodes with holes and nested islands", "Tests convert one trap and check areas.", "polygons.py",
  [("from_system/to_system", "electrode/polygons.py")])
p("P02", "Overlap removal, gaps and simplification keep the documented geometry",
  "Removing overlaps keeps the union and leaves each electrode minus its predecessors; adding gaps leaves exactly the points further than half the gap from the boundary (around a reflex corner, the arc is replaced by chords); simplification keeps shapes within its tolerance, and smoothing within its own (for each loop, the weighted sum of squared distances of the original vertices, straight and corner ones with the weights given for them).",
  "inputs", "all polygon collections, gap sizes and tolerances", "Tests check an area or two.", "polygons.py",
  [("remove_overlaps, add_gaps, simplify", "electrode/polygons.py")])
p("P03", "Polygon extraction from drawings partitions the field",
  "Polygons, gaps, routes and bridges given as drawing data produce fragments that do not overlap, lie inside the square field, cover it up to the gap width, keep named polygons as they were drawn and separate exactly where gaps separate.",
  "inputs", "all layouts of non-overlapping polygons, gap lines, routes, bridges and names", "Tests load one drawing.", "polygons.py",
  [("from_data", "electrode/polygons.py")])
p("P04", "GDS files round-trip names and shapes at grid resolution",
  "Writing polygons to a GDS library and loading it keeps every electrode's name and shape up to one database unit, with the stated physical scale, layers and clipping square; routes and bridges drawn in the file cut and heal the loaded polygons.",
  "inputs configurations", "all hole-free polygon collections, scales, units, layers, edges", "Tests write one file without reading it back.", "polygons.py",
  [("to_gds/from_gds", "electrode/polygons.py")])
p("P05", "Selecting, naming and merging polygons follows geometry",
  "Pads are assigned to polygons that contain them, each at most once and every polygon exactly once; filters keep exactly the parts that pass; unions by electrode or name keep the covered point set; "
  "restricting intersects; invalid polygons are reported; pad rings are equally spaced on the square.",
  "inputs", "all polygon collections, pads, tests, windows", "Tests do not exercise these or only once.", "polygons.py",
  [("assign_to_pad, filter, unify, unify_by_name, restrict, gaps_union, validate, square_pads", "electrode/polygons.py")])

p("G01", "Grid coordinate maps agree with each other",
  "Points, slices, meshes, origin, and coordinate arrays of a grid describe the same positions in the same order, for any shape, step and centre.",
  "inputs", "all grid shapes, steps and centres", "Tests use a few equal-sided grids.", "grid.py",
  [("Grid", "electrode/grid.py")])
p("G02", "Spherical harmonic analysis and synthesis invert each other",
  "Decomposing samples of a band-limited function on the grid gives its coefficients in the documented layout, synthesis gives the function's values, and spherical/cartesian coordinate transforms and their field transforms are mutually inverse.",
  "inputs", "all band limits, coefficients, points", "No test covers the module.", "spherical_harmonics.py",
  [("SphericalHarmonics", "electrode/spherical_harmonics.py")])
p("M01", "Analytic ion motion solves the equations of motion for its initial values",
  "The even and odd Floquet solutions constructed for stable parameters a, q satisfy the Mathieu equation with unit initial values and unit Wronskian at all times, every offered way to compute the characteristic exponent agrees where it applies, "
  "and the superposition for given initial values reproduces them.",
  "inputs", "all stable parameters a, q, truncation orders, times, initial conditions", "No test covers the module.", "mathieu.py",
  [("Mathieu", "electrode/mathieu.py")])
p("A01", "Adaptive voltage adjustment keeps its books over any history of moves",
  "Over any sequence of suggested, accepted, rejected and own steps, the recorded voltages are those last accepted, rejected moves restore them, and suggested changes have the requested magnitude and effect.",
  "histories", "all sequences of moves and outcomes", "No test covers the module.", "adjust.py",
  [("Adjust", "electrode/adjust.py")])
p("X01", "Xic layout files are parsed into exactly their polygons",
  "Every polygon of an xic text is returned once, in order, with exactly the vertices it was written with in physical units, whatever coordinates, spacing and line endings, and whatever other records or blank lines come between polygons or blank lines within them (one vertex per line, the layout the format is written in).",
  "inputs", "all texts in the format", "No test covers the module.", "xic.py", [("xic_to_list", "electrode/xic.py")])
p("A02", "Adaptive refinement meshes the variable area and refines at potential jumps",
  "adapt_mesh() hands the closed boundaries of the variable areas to the triangulator, optimises exactly the system of the fixed "
  "electrodes followed by one electrode per triangle (with its symmetric images and the attributes given), and asks for triangles "
  "smaller by `down` where the voltage differs by more than the threshold from that of an adjacent triangle, and larger by `up` "
  "elsewhere. It stops at the first mesh above the largest number, and returns the last system optimised with its voltages and strength.",
  "inputs histories", "all areas, fixed electrodes, symmetries, thresholds, factors, constraints and meshes that the triangulator may answer with",
  "The tests cannot import the module, as the triangulator is not installed.", "adaptive.py",
  [("adapt_mesh, paths_to_mesh, transformer", "electrode/adaptive.py")])
p("X02", "Documented array-likes may come in any form, and come back unchanged",
  "Where an array-like argument is documented (positions, boundaries, areas, voltages, bin edges, coordinate systems, tensors, "
  "grid data, charges, layout polygons), nested lists and tuples and integer, single-precision, byte-swapped, read-only, strided, "
  "reversed or transposed arrays give the results that plain double arrays with the same values give. What is handed over is left "
  "unchanged, and so are the default arguments.",
  "inputs", "all documented array-like arguments, all forms and mixtures of them, all values that the forms can hold",
  "The tests hand over double arrays, or the odd list.", "electrode.py system.py utils.py grid.py polygons.py pattern_constraints.py",
  [("argument conversion at the entry points", "electrode/*.py")])


def main():
    from mon import registry as reg
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q)+"\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        if i in reg.MODULES:
            checks.append({
                "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": reg.TECHNIQUE.get(i, "runtime monitoring: seeded workloads on a fresh build, online monitors "
                                               "comparing every observed value with an independent oracle"),
                "level": "exploration",
                "level_note": reg.LEVEL.get(i, "Seeded random, hostile and boundary workloads; the oracle decides every observed value; "
                              "nothing is claimed beyond the executions observed.")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    man["hooks"] = {"guard": "none: no hooks are in /repo, all monitoring is attached from outside",
                    "enable": "nothing to enable: checks copy and build /repo's working tree as it is", "source_commits": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)


if __name__ == "__main__":
    main()
