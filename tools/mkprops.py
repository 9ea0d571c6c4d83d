"""Regenerates /verif/properties.jsonl (the list of semantic properties)."""
import json, os
F90 = "igakit/igalib.f90"; PYF = "igakit/igalib.pyf"; NRB = "igakit/nurbs.py"
CAD = "igakit/cad.py"; IO = "igakit/io.py"; TRF = "igakit/transform.py"; PLT = "igakit/plot.py"
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=list(files),
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

T = "The tests and doctests run a few fixed or random control nets with uniform, integer or half-integer clamped knots and compare at sample points; "

prop("C01", "Evaluation equals the rational B-spline definition",
 "Evaluating a curve, surface or volume at any parameter of its domain returns exactly sum(N_i w_i P_i)/sum(N_i w_i) by the Cox-de Boor definition, for geometry, stored fields and fields passed in, including at knots of any multiplicity and at the right end of the domain. Scalar and array parameters select the same values and only drop, respectively keep, the corresponding result axis.",
 "every knot vector (clamped or not, any interior multiplicity), control net, positive weights, field values, and parameter value(s) in the domain, in 1, 2 and 3 parametric dimensions",
 T + "none evaluates against an independent definition at arbitrary parameters, weights and multiplicities, where span location at knots, index offsets per axis and weight/field handling can each go wrong alone.",
 [NRB, F90, PYF], [("NURBS.__call__/evaluate", NRB), ("Evaluate0-3, FindSpan, BasisFuns", F90)], observe=["nrb(u,v,w)", "nrb.evaluate(...)"])

prop("C02", "B-spline basis functions and their derivatives are correct",
 "The basis values returned for a parameter are the non-zero B-spline basis functions of that span: they are non-negative, sum to one, and equal the Cox-de Boor recursion; the returned derivatives of every order are the true derivatives (orders summing to zero over the basis). The tabulated basis data at quadrature or collocation points contains exactly those values with the right offsets, Jacobians, weights and points.",
 "every degree, knot vector, parameter, span and derivative order 0..p",
 T + "basis tests only check a few sums at fixed points, while derivative tables have order- and index-dependent branches.",
 [F90, PYF], [("BasisFuns, DersBasisFuns", F90), ("EvalBasisFuns, EvalBasisFunsDers", PYF), ("BasisData, BasisDataCol", F90)], observe=["igalib.bsp.EvalBasisFuns*", "igalib.iga.BasisData*"])

prop("C03", "Knot structure queries agree with the knot vector",
 "For every valid knot vector, the located span is the non-empty span containing the parameter (the last one at the right end), the multiplicity is the number of knots equal to the parameter, the non-empty spans are exactly those of the domain, breaks and multiplicities rebuild the knots of the domain, and Greville abscissae are the averages of p consecutive knots, non-decreasing and inside the knot range.",
 "every degree, knot vector (any multiplicities, clamped, unclamped or periodic) and every parameter in the domain",
 T + "multiplicities at domain ends, C^-1-free interior knots and unclamped ends are sampled in two or three vectors only.",
 [F90, PYF, NRB], [("FindSpan, FindMult, SpanIndex, Greville", F90), ("CountSpans", PYF), ("NURBS.spans/breaks/greville", NRB)])

prop("C04", "Knot insertion never changes the represented map",
 "Inserting a value anywhere in the domain, any admissible number of times, returns an object whose knot vector is the old one plus exactly those knots, in order, and which evaluates identically to the original everywhere, including weights and fields and along every axis. Requests exceeding multiplicity p are refused.",
 "every object (dimension, degree, knots, control net, weights, fields), every value in the domain incl. existing knots and both ends, every number of times",
 T + "insertion at an existing interior knot, at the domain ends and with fields or along inner axes has its own index arithmetic.",
 [NRB, F90], [("NURBS.insert", NRB), ("InsertKnot", F90)])

prop("C05", "Knot refinement never changes the represented map",
 "Refining with any list of knot values (any order, repeated, coinciding with existing knots or each other, at domain ends) gives the merged knot vector and an object that evaluates identically to the original everywhere. The result equals inserting the values one at a time, and inadmissible lists are refused.",
 "every object, axis and list of values in the domain whose merged multiplicities stay admissible",
 T + "the refinement sweep runs backwards with conditional copies whose order depends on how the new knots interleave with the old ones.",
 [NRB, F90], [("NURBS.refine", NRB), ("RefineKnotVector", F90)])

prop("C06", "Degree elevation never changes the represented map",
 "Raising the degree by any amount yields degree p+t, increases the multiplicity of every interior break by exactly t (the ends become clamped when they were not), gives a control net of the matching size, and evaluates identically to the original everywhere, including weights and fields and along every axis.",
 "every object, axis and t >= 0, with any interior multiplicities",
 T + "the elevation algorithm interleaves Bezier decomposition, elevation and knot removal with index arithmetic depending on the multiplicities of consecutive breaks.",
 [NRB, F90, PYF], [("NURBS.elevate", NRB), ("DegreeElevate", F90), ("CountSpans size", PYF)])

prop("C07", "Knot removal is exact on removable knots and bounded by its tolerance",
 "Removing a knot that was inserted restores the object (same knots, same map), and removing any knot never moves the represented geometry by more than the requested deviation; when the knot cannot be removed within that deviation the object is unchanged. This holds with weights, fields and along every axis.",
 "every object, knot, multiplicity, number of times and deviation",
 T + "only removal right after insertion on unweighted 3-D curves without fields is tried; acceptance depends on a tolerance computed from weights and point norms.",
 [NRB, F90], [("NURBS.remove", NRB), ("RemoveKnot", F90)])

prop("C08", "Clamping and unclamping keep the map on the domain",
 "Clamping either or both ends, or unclamping them with any continuity order, keeps the domain and the map on it; clamped ends have multiplicity p+1 and interpolate the end control points, unclamped ends are periodic continuations of the knots, and clamping after unclamping restores the original knots and control net.",
 "every object, axis, side and continuity",
 T + "one quadratic example is unclamped; the left/right and partial-continuity branches have separate loops.",
 [NRB, F90], [("NURBS.clamp/unclamp", NRB), ("ClampKnot, UnclampKnot", F90)])

prop("C09", "Slices, extractions and boundaries are exact restrictions",
 "A slice between two parameters has exactly that domain and agrees with the original on it; extracting at a parameter gives the lower-dimensional object that agrees with the original on that iso-parametric set; a boundary is the extraction at the corresponding domain end. Weights and fields are restricted with the geometry.",
 "every object, axis and parameter(s), including parameters at existing knots and domain ends",
 T + "only clamped cubics at 1/3, 2/3 and 0.3 are sliced or extracted.",
 [NRB, F90], [("NURBS.slice/extract/boundary", NRB), ("CurvePntByCornerCut, RefineKnotVector", F90)])

prop("C10", "Transposing, swapping, reversing and remapping only reparametrize",
 "Permuting or swapping axes, reversing orientation and linearly remapping the domain give objects that equal the original composed with the corresponding parameter change; they are involutive or invertible, and touch nothing else (fields, weights, the other axes).",
 "every object, permutation, subset of axes, and new domain, clamped or unclamped",
 T + "reversal of unclamped knots, cyclic (non-involutive) permutations and negative or partial remaps are not covered.",
 [NRB], [("NURBS.transpose/swap/reverse/remap", NRB)])

prop("C11", "Derivatives are the true derivatives of the evaluated map",
 "Gradient, Hessian and derivatives of order 1 to 4 of geometry or fields equal the exact partial derivatives of the rational map, in the documented index order, in 1, 2 and 3 dimensions; the mapped gradient is the gradient with respect to physical coordinates. A mapped request the library cannot honour is refused, and never terminates the process.",
 "every object, field, weights, parameter in the domain and derivative order",
 T + "tests compare first and second derivatives of a few polynomials; the third and fourth order tables have over a hundred hand-written index combinations.",
 [NRB, F90], [("NURBS.gradient/hessian/derivative", NRB), ("TensorProd1-3, Rationalize, GeometryMap", F90)])

prop("C12", "Affine transforms act on the geometry and compose as a group",
 "Transforming an object moves every evaluated point by the transform and leaves weights, fields and knots as they were; chained operations apply in call order, inversion undoes, translation, scaling and rotation about any axis have their mathematical effect (rotations preserve lengths and orientation).",
 "every affine transform, displacement, scale, angle, axis, and object",
 T + "rotations about non-coordinate axes, partial vectors and composition order are sampled with special values.",
 [TRF, NRB], [("transform", TRF), ("NURBS.transform/translate/scale/rotate", NRB)])

prop("C13", "Circular arcs and revolutions are exact",
 "An arc has constant distance to its centre, starts and ends at the requested angles and sweeps monotonically between them; a revolved object at sweep parameter v is the original rotated about the given axis by the arc's angle at v, for any axis direction, point and angle range.",
 "every radius, centre, start/end angle, axis, base point and revolved object",
 T + "fixed multiples of pi/2 and coordinate axes are tested; the reference-frame construction degenerates for particular axis directions.",
 [CAD, TRF], [("circle", CAD), ("revolve", CAD)])

prop("C14", "Construction helpers build the objects their definition says",
 "Lines, (bi/tri)linear patches and grids interpolate their data linearly; extrusion, ruled surfaces and translational sweeps equal C+v*d, (1-v)C1+vC2 in homogeneous coordinates and C(u)+T(v); a Coons patch interpolates its four boundary curves.",
 "every input point, curve, surface, displacement, grid shape, degree, continuity, limits and periodicity",
 T + "shapes are tested, or points at a few parameters with compatible inputs.",
 [CAD], [("line, linear, bilinear, trilinear, grid", CAD), ("extrude, ruled, sweep, coons", CAD)])

prop("C15", "Making objects compatible keeps every map",
 "The objects returned share degree, knots and domain on the requested axes, each equals its input up to the linear reparametrization to the common domain, other axes are untouched, and the common knot vector is the coarsest one (no knot beyond the largest multiplicity required by some input).",
 "every family of objects of equal dimension, with any degrees, domains and interior knots",
 T + "two or three fixed curves are made compatible; merging multiplicities of shared and private breaks has many interleavings.",
 [CAD, NRB], [("compat", CAD), ("NURBS.breaks/refine/elevate/remap", NRB)])

prop("C16", "Uniform refinement reaches the requested degree, spans and continuity",
 "Refining by factor, degree and continuity returns an object with the same map, with the requested degree (never lowered), each span subdivided uniformly by its factor, and interior knot multiplicities the smallest that keep the map and bring the continuity down to the requested one; the input is unchanged.",
 "every object and per-axis factor (scalar or per-span), degree and continuity",
 T + "only shapes of a few refined circles/surfaces are checked.",
 [CAD], [("refine", CAD)])

prop("C17", "Joining reproduces both pieces on consecutive domains",
 "Joining two objects that meet along an axis returns one object whose domain is the first's followed by the second's length, which agrees with the first on its part and with the second (shifted) on the rest, for any degrees, knots, weights and clamping of the inputs.",
 "every pair of objects sharing the interface, any axis",
 T + "one pipe example runs without comparing the result to its parts.",
 [CAD, NRB], [("join", CAD)])

prop("C18", "PetIGA geometry files round-trip",
 "Writing an object and reading it back gives the same degrees, knots, control points (in the written number of space dimensions), weights and fields, for every precision, scalar and index-size configuration, exactly in double and rounded in single precision; the byte stream is the PetIGA layout (big-endian, header ids, first parametric axis fastest).",
 "every object, number of space dimensions, presence of control/fields, and writer configuration",
 T + "a handful of configurations are written and compared without fields in complex scalars or non-symmetric shapes.",
 [IO], [("PetIGA.write/read", IO)], over=("inputs", "configurations"))

prop("C19", "PetIGA vectors and matrices round-trip",
 "A vector written with or without an associated object is read back with the same values at the same control-point indices; its byte layout is the PETSc one, and a PETSc matrix file is read as exactly the CSR matrix it encodes, for every scalar and index configuration.",
 "every vector, object shape, number of components, sparse matrix and configuration",
 T + "only flat vectors with one component are exercised.",
 [IO], [("PetIGA.write_vec/read_vec/read_mat", IO)], over=("inputs", "configurations"))

prop("C20", "VTK output contains the evaluated geometry and fields in file order",
 "The file written declares the sampled grid dimensions, and its points, coordinates, scalars and vectors are the values of the object and its fields at the sampled parameters with the first axis varying fastest, big-endian double, in the order of the header; requested names map to the requested field components.",
 "every object of dimension 1-3, sampler, fields and scalar/vector selection",
 T + "tests only check that a file is produced.",
 [IO], [("VTK.write", IO)], over=("inputs", "configurations"))

prop("C21", "Compiled kernels stay inside their arrays and never use unset memory",
 "For every request the NURBS and cad interfaces pass on, and every direct kernel call with valid knot vectors (non-decreasing, interior multiplicity at most the degree), spans and counts, compiled kernels read and write only inside the arrays they were given or allocated, let no unset value reach a branch, an index or a result, never divide by zero, never overflow an index, always terminate and set every output element.",
 "every admissible call: degrees, sizes, knot structures incl. unclamped and end knots, span arguments and counts",
 "The tests run without bounds checking, so an off-by-one access usually goes unnoticed; the accesses depend on multiplicities and spans the tests never combine.",
 [F90, PYF], [("all kernels", F90), ("argument checks and hidden sizes", PYF)])

prop("C22", "Operations never modify their arguments or other objects",
 "No operation changes an array, list or object passed to it (other than the object the in-place operation is documented to update), in-place updates of an object never show through in clones or copies taken before, copies share nothing, and a rejected operation leaves the object as it was.",
 "every operation with every argument, and every sharing pattern between objects (clone, copy, arrays handed in)",
 T + "aliasing between an object, its clone and the caller's arrays is only checked for copy and clone themselves.",
 [NRB, CAD, TRF], [("copy/clone and in-place operations", NRB), ("helpers cloning their inputs", CAD)], over=("inputs", "histories"))

prop("C23", "Quadrature rules are exact for their polynomial degree",
 "The Gauss-Legendre rule with q points integrates every polynomial of degree up to 2q-1, and the Gauss-Lobatto rule (which includes both end points) every polynomial of degree up to 2q-3, over [-1,1] up to rounding; points are increasing and inside the interval and weights positive.",
 "every rule size offered and every polynomial of the admissible degree",
 "Tests integrate a few monomials with loose tolerances for some sizes; the tables are hand-written 36-digit literals.",
 [F90, PYF], [("GaussLegendreRule, GaussLobattoRule", F90)])

prop("C24", "Generated knot vectors have the requested structure",
 "The knot vector generated for E elements, degree p, continuity C and limits is non-decreasing, has E equal spans between the limits, interior multiplicity p-C, open ends, or, when periodic, ends that repeat the interior knots one period away with the requested continuity.",
 "every E, p, C, limits and periodicity flag",
 "Tests build a few unit-interval vectors.",
 [F90, PYF, CAD], [("KnotVector", F90), ("grid", CAD)])

prop("C25", "Construction and accessors are mutually consistent",
 "Points, weights, fields, homogeneous control points, knots, degree, shape and dimension read back from an object are those it was built from, for every accepted way to pass control points (2, 3 or 4 components, weights separate or in a pair, scalar or vector fields, or none); inconsistent input is refused.",
 "every accepted constructor input",
 T + "combinations of weights with 2-component points and fields are not compared.",
 [NRB], [("NURBS.__init__ and properties", NRB)])

prop("C26", "Plots hand the true geometry to the drawing backend",
 "Curve, surface and volume plots, control-net plots and knot plots pass to the backend points that are the object's values at uniformly spaced parameters, its control points, or its values at the breaks, each line or surface following the intended parameter, for 1, 2 and 3 dimensions.",
 "every object of dimension 1-3 and plot kind, axis selection",
 "The plot tests use a null backend which discards all the data.",
 [PLT], [("Plotter", PLT)])

prop("C27", "Interpolation abscissae subdivide every span correctly",
 "The Lagrange and Lobatto abscissae contain every break and, inside each non-empty span, the p-1 affinely mapped equispaced, respectively Gauss-Lobatto, interior nodes, in strictly increasing order.",
 "every object, axis, degree and knot vector",
 "Tests compare one cubic.",
 [NRB, F90], [("NURBS.lagrange/lobatto", NRB)])

prop("C28", "Any history of map-preserving operations preserves the map",
 "After any sequence of insertions, refinements, elevations, removals, clampings and unclampings along any axes, mixed with reversals, transpositions and slices, the object still represents the original map under the composed parameter change, and stays well formed (sizes, sorted knots, admissible multiplicities).",
 "every bounded sequence of operations from every starting object, with every argument",
 "Tests run single operations or one fixed chain; an operation may leave a state (unclamped ends, repeated end knots) that only the next operation mishandles.",
 [NRB, F90, CAD], [("in-place operations", NRB)], over=("inputs", "histories"))

prop("C29", "Invalid requests are refused before any effect",
 "Parameters outside the domain, insertions or refinements beyond the degree's multiplicity, inverted or empty slice or remap bounds, wrong field shapes, axes and sides that do not exist, and malformed constructor or helper input raise an exception, and neither change the object nor return a result (a request for nothing, such as zero elevations, may be a no-op).",
 "every object and every request outside the admissible set",
 "Tests check a few rejected calls; acceptance boundaries are comparisons against knots that must be right for every knot vector.",
 [NRB, CAD], [("argument checks", NRB)])

prop("C30", "The drawing backends draw exactly the geometry handed to them",
 "Every point, line and surface handed to the matplotlib backend is drawn, in the current 3-D axes, with all its points, its segments between neighbouring points and its faces, and nothing else is (lattices of points as surfaces excepted, which matplotlib cannot draw); the mayavi backend builds exactly the points and the line or face connectivity of its grids; arguments are left alone, common options are handed on and those of the other backend dropped, and a plotter uses the backend last asked for, independently of other plotters.",
 "every set of points, lines and grids of one to three dimensions, coordinates and options",
 "The plot tests draw with the null backend or to an unseen figure: a lost row of a wireframe or a wrong connectivity shows in no assertion.",
 ["igakit/plot_mpl.py", "igakit/plot_myv.py", PLT], [("points3d, line3d, surf3d", "igakit/plot_mpl.py"), ("_extract_grid_lines, _extract_grid_polys, MLineSource, MSurfSource", "igakit/plot_myv.py"), ("set_backend/get_backend", PLT)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
