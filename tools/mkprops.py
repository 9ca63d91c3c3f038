#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
    )
    d["anchors"].update(kw)
    P.append(d)


I = "nrpy/infrastructures/"
p(
    "P01",
    "Deferred (parallel) code generation equals serial generation",
    "A generator function that supports parallel code generation has no effect of its own in the registration phase other than queueing itself under its own importable name with exactly the arguments it was called with. When the queue is later executed, every normal completion of such a function hands back the complete global environment, and the collector unpacks and merges every registry of it into the same-named registry of the parent process.",
    ["schedules", "programs"],
    "for every generator function with parallel support, every control path through it, and every set of queued calls and worker completion order",
    "Tests run a fixed set of examples; a function that mutates a registry before queueing, or forgets the hand-back on one branch, only loses output in parallel runs that take that branch.",
    ["nrpy/helpers/parallel_codegen.py", "nrpy/infrastructures/", "nrpy/params.py", "nrpy/grid.py", "nrpy/c_function.py"],
    [("registration-phase guard and queueing call at the top of each generator", "register_CFunction_* functions"), ("environment pack/unpack", "nrpy/helpers/parallel_codegen.py")],
)
p(
    "P02",
    "Temporary changes of global generation settings are always undone",
    "A generator function that overrides a global generation setting for its own use (for instance the finite-difference order) restores the value it found before returning. This holds on every path that returns to the caller, including early returns.",
    ["histories", "programs"],
    "for every generator function that writes a global setting it does not own, and every control path that returns normally",
    "A leaked setting changes only code generated later by an unrelated function in the same process; the trusted-value tests generate one thing at a time.",
    [I + "ETLegacy/general_relativity/", I + "CarpetX/general_relativity/", I + "BHaH/", I + "superB/"],
    [("save / override / restore of settings", "generators taking fd_order and similar arguments")],
)
p(
    "P03",
    "Registries refuse duplicates and unknown names, and wrappers pass options on",
    "Registering a second C function of the same (coordinate-suffixed) name, or the same structure member declaration twice for one module, reading or setting a setting that was never registered, or registering a name with a value or option outside the documented set raises an error instead of silently overwriting or inventing an entry. Registering several new items at once (name lists, rank-N gridfunctions) is equivalent to registering each of them separately with the same options; an object keeps every option it was created with; the text of a C function consists of exactly the parts it was given, in order, with a prototype that matches its definition; and the gridfunctions of each group are numbered 0..n-1 with counts and per-gridfunction tables in that order.",
    ["inputs", "histories"],
    "for every sequence of registrations and look-ups, every name, option and value",
    "Doctests register a few well-formed names; a lost duplicate check or a dropped option is invisible until two generators collide or a rarely used option is given.",
    ["nrpy/params.py", "nrpy/grid.py", "nrpy/c_function.py", I + "BHaH/griddata_commondata.py", I + "BHaH/BHaH_defines_h.py"],
    [("membership test before insertion, raise on failure", "registration functions"), ("keyword forwarding in the plural/rank wrappers", "nrpy/params.py, nrpy/grid.py, nrpy/c_function.py")],
)
p(
    "P04",
    "Generated text is reproducible from run to run",
    "The text of every generated file depends only on the generator inputs, never on the iteration order of unordered collections, directory listing order, object identities, wall-clock time, randomness or worker completion order.",
    ["schedules", "histories", "configurations"],
    "for every hash seed, process, file-system and scheduling order in which the same generator script is run",
    "The tests pin the hash seed and run one process; an order dependence shows only across seeds or machines.",
    ["nrpy/"],
    [("sorting before iterating sets", "all emitters"), ("ordered dictionaries as registries", "nrpy/c_function.py, nrpy/params.py, nrpy/grid.py")],
)
p(
    "P05",
    "Caches return what was stored for that input; output files get exact content",
    "A cached result is keyed by everything the result depends on, is only ever visible completely written, and a missing, unreadable or foreign cache entry never leads to a wrong result; the in-memory dictionaries hand out the object built for the coordinate system and options named by the key. A conditionally updated output file ends up with exactly the text written to it, is rewritten whenever that text differs (other than in leading or trailing white space) from the file on disk, and is left untouched when it does not or when producing the text failed.",
    ["crash_points", "histories", "fault_sequences"],
    "for every interleaving of concurrent generator processes, every crash point during a write, and every previous content of the target file",
    "Tests exercise a warm or cold cache in one process; torn writes need a crash or a concurrent reader.",
    ["nrpy/helpers/cached_functions.py", "nrpy/helpers/conditional_file_updater.py", "nrpy/c_codegen.py"],
    [("hash of the pickled input names the cache file", "nrpy/helpers/cached_functions.py"), ("compare-then-write on exit", "nrpy/helpers/conditional_file_updater.py")],
)
p(
    "P06",
    "Every run-time parameter is declared, defaulted, exposed and parsable",
    "For every registered run-time parameter of every supported type, exactly one of the two parameter structures declares it with its type and array size, the matching default routine assigns its default value (element by element for arrays, as a string for character arrays), the access headers expose it under its own name and type from that same structure, and, if flagged for the parameter file, the default parameter file lists it and the parser stores the parsed value, converted by its type, into that same member.",
    ["configurations", "inputs"],
    "for every parameter name, type (real, integer, boolean, character array, real or integer array, compile-time define), flag combination and structure membership",
    "Examples register a particular set of parameters; types or flag combinations nobody uses yet are not generated, and compiled examples are never run.",
    ["nrpy/params.py", I + "BHaH/CodeParameters.py", I + "BHaH/BHaH_defines_h.py", I + "BHaH/cmdline_input_and_parfiles.py"],
    [("type dispatch repeated in five generators", I + "BHaH/")],
)
p(
    "P07",
    "The parameter-file parser stays inside its buffers and refuses bad input",
    "For every parameter file and command line, each copy into a fixed-size buffer or parameter member made by the generated parser is bounded by the capacity of its destination, leaves it terminated and never silently cuts a value short; each array store is preceded by a check against the declared element count. A number that does not convert completely or is out of range, an unrecognised boolean, a repeated definition, a wrong element count or a number of arguments that fits no documented usage terminates the program with a diagnostic; otherwise the parameter file and the command-line overrides used are those of the documented usage options.",
    ["inputs"],
    "for every parameter-file content and argument vector",
    "The generated parser is compiled by tests but never run; overflows need over-long or malformed input.",
    [I + "BHaH/cmdline_input_and_parfiles.py"],
    [("explicit length checks and bounded string copies in the emitted C", I + "BHaH/cmdline_input_and_parfiles.py")],
)
p(
    "P08",
    "Every built-in Runge-Kutta tableau is consistent, explicit and of its order",
    "Each built-in time integrator tableau is strictly lower triangular with row sums equal to its nodes, weights sum to one, and it satisfies all Runge-Kutta order conditions up to the order it is labelled with; embedded pairs satisfy them for both weight rows.",
    ["configurations"],
    "for every tableau in the dictionary, exactly (no rounding)",
    "A wrong coefficient still compiles and integrates, at lower order; tests compare a few tables with stored copies and never check the conditions.",
    [I + "BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"],
    [("literal tables with exact rationals", "generate_Butcher_tables")],
)
p(
    "P09",
    "The generated time step performs exactly the chosen Runge-Kutta update",
    "For every built-in tableau, every explicit tableau of the same form, and every option combination, the generated time step evaluates each stage's right-hand side at the state and time the tableau prescribes, applies the post-stage operations to each newly formed state, and leaves the solution array holding the old solution plus the timestep times the weighted stage derivatives, reading no storage before it was set. This holds for both the single-node and the distributed back end.",
    ["configurations", "inputs"],
    "for every tableau, every back end and every option combination (reference-metric arrays, curvilinear boundary conditions, SIMD)",
    "Programs are compiled but not run, and only a few integrators are generated; storage reuse differs between diagonal and non-diagonal tableaux and for the special three-stage method.",
    [I + "BHaH/MoLtimestepping/MoL.py", I + "superB/MoL.py"],
    [("stage loop emission with reused stage arrays", "register_CFunction_MoL_step_forward_in_time")],
)
p(
    "P10",
    "Time-integration and grid storage is allocated, declared, sized and freed alike",
    "Every array of the time integrator, of the per-grid data (coordinates, boundary lists, precomputed metric functions) and of the communication buffers that generated code allocates on the heap is declared in the generated structure, allocated with the size its indexing needs and in units of its element type, and released exactly once by the matching release routine; every stage array a generated time step or diagnostic touches is among the allocated ones. Locally allocated scratch memory and opened files are released on every normal exit of the generated function that obtained them.",
    ["configurations", "histories"],
    "for every integrator, coordinate system and option combination, for both back ends",
    "Generated programs are never run, so leaks, double frees and use of unallocated stage arrays are invisible; several members exist only for particular options.",
    [I + "BHaH/MoLtimestepping/MoL.py", I + "superB/MoL.py", I + "BHaH/rfm_precompute.py", I + "BHaH/griddata_commondata.py", I + "BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", I + "superB/"],
    [("paired malloc/free generators", "MoL, rfm_precompute, griddata")],
)
p(
    "P11",
    "Vector intrinsics mean the same on every instruction set",
    "Each arithmetic vector operation offered to generated code computes the same mathematical function of its operands in every instruction-set variant, in the scalar fallback and in the GPU variant, and every variant offers the same operations, vector width included. Fused, negated and horizontal operations carry the signs their names say, and every vector operation the generators emit is offered.",
    ["configurations", "inputs"],
    "for every instruction-set branch (AVX-512, AVX, SSE2, each with and without FMA, scalar, CUDA) and all operand values, up to rounding",
    "A build compiles exactly one branch of the header and no program is run.",
    ["nrpy/helpers/simd_intrinsics.h", "nrpy/helpers/cuda_intrinsics.h"],
    [("preprocessor branches per instruction set", "nrpy/helpers/simd_intrinsics.h")],
)
p(
    "P12",
    "Vectorisation of expressions preserves their value",
    "Rewriting a scalar expression into vector operations, including the fused multiply-add contractions, yields an expression whose value equals the original's for every assignment of its variables, up to rounding; every constant it introduces is defined with the value it stands for.",
    ["inputs", "programs"],
    "for every expression tree and every rewrite rule applied anywhere in it",
    "Tests compare a few expressions; each contraction rule has several operand positions and sign cases.",
    ["nrpy/helpers/simd.py", "nrpy/helpers/expr_tree.py"],
    [("tree rewriting rules", "expr_convert_to_simd_intrins")],
)
p(
    "P13",
    "C emitted for expressions computes them, in the chosen precision",
    "For every list of expressions, the emitted straight-line C assigns to each output variable the value of its expression, whatever combination of common-subexpression elimination, factorisation, renaming and user-named temporaries is asked for; every temporary is set before it is used. Powers, roots, absolute values and elementary functions may be given special spellings, which evaluate to the same mathematical function and use the function names and literal suffixes of the selected floating-point precision.",
    ["inputs", "configurations", "programs"],
    "for every expression list, option combination, precision and (positive) base value, up to rounding",
    "Doctests sample a few exponents and expressions in double precision and compare text; back-substitution and factorisation have many operand shapes.",
    ["nrpy/c_codegen.py", "nrpy/helpers/custom_c_codegen_functions.py", "nrpy/helpers/cse_preprocess_postprocess.py"],
    [("exponent dispatch tables", "nrpy/helpers/custom_c_codegen_functions.py"), ("precision tables, temporaries, constant declarations", "nrpy/c_codegen.py"), ("back-substitution of temporaries", "cse_postprocess")],
)
p(
    "P14",
    "Tensor helpers are exact: inverses, determinants, symbols, symmetries",
    "For every admissible matrix of symbols, the built-in 2x2, 3x3 and 4x4 inversion helpers return a matrix whose product with the input is the identity and the determinant of the input; the permutation symbols are totally antisymmetric and normalised; declaring an indexed object with a symmetry identifies exactly the components that symmetry equates, with the sign it prescribes, for every supported rank.",
    ["inputs"],
    "for all matrix entries and every symmetry option and rank",
    "Doctests compare a few printed results; identities over all entries and all symmetry options are not sampled.",
    ["nrpy/indexedexp.py"],
    [("closed-form cofactor expressions", "matrix inverters"), ("index symmetrisation", "symmetrize_rank*")],
)
p(
    "P15",
    "Finite-difference stencils are exact to their order and fit the ghost zones",
    "For every supported derivative operator and every even accuracy order, the coefficients of the stencil satisfy the Taylor conditions of that operator to that order at the listed offsets, and every offset along any axis is within the ghost-zone width that the same order implies for that operator. Operator names select the operator, direction and upwind sense they spell.",
    ["configurations", "inputs"],
    "for every operator (centred first and second, mixed, upwind/downwind, fully shifted, dissipation), direction and order",
    "Tests generate orders 2 to 8 or so for a few operators; out-of-range reads or a lost order need a run and a convergence test.",
    ["nrpy/finite_difference.py", I + "BHaH/numerical_grids_and_timestep.py", I + "BHaH/BHaH_defines_h.py"],
    [("operator-name dispatch and offset construction", "nrpy/finite_difference.py"), ("ghost-zone width", "NGHOSTS definitions in the infrastructures")],
)
p(
    "P16",
    "Generated grid loops visit exactly the requested region, once per point",
    "A generated grid loop over all points visits every index triple of the grid including ghost zones exactly once, and a loop over the interior visits exactly the points that are not ghost zones; vectorised loops advance the fastest index by the vector width. Inside the loop, coordinates, precomputed metric arrays and memory offsets are read at the loop's own indices, and an unsupported region name raises an error. Axis and plane output visits exactly the interior points nearest that axis or plane, and labels them with the coordinates of that axis or plane.",
    ["configurations"],
    "for every back end, region, vectorisation, parallelisation and coordinate-reading option combination",
    "Loops are compiled, not run; option combinations outside the examples are not generated.",
    ["nrpy/helpers/loop.py", I + "BHaH/simple_loop.py", I + "ETLegacy/simple_loop.py", I + "CarpetX/simple_loop.py", I + "superB/simple_loop_diagnostic.py", "nrpy/grid.py"],
    [("region-to-bounds tables", "simple_loop generators")],
)
p(
    "P17",
    "Generated code never mixes up the three grid axes",
    "In all generated code, an index, extent, spacing, coordinate array or bound belonging to one grid axis is only ever combined with quantities of that same axis, and three-dimensional memory offsets always take the axes in storage order with the extents of the grid they address.",
    ["configurations", "programs"],
    "for every generated function and option combination, on grids whose three extents and spacings differ",
    "Mixing axes compiles and is invisible on cubic grids or in symmetric problems; generated programs are not run.",
    [I + "BHaH/", I + "superB/", I + "ETLegacy/", I + "CarpetX/"],
    [("naming convention 0/1/2 for axes in emitted code", "all C templates"), ("offset macros", I + "BHaH/BHaH_defines_h.py")],
)
p(
    "P18",
    "Generated code is well formed for every option combination",
    "For every combination of generator options that is not rejected with an error, the emitted functions have balanced brackets and directives, every call between generated functions passes as many arguments as the callee declares and in the callee's order, and every formatted output or input call supplies exactly the arguments its format consumes.",
    ["configurations"],
    "for every generator function and every combination of its options, back ends that are never compiled in the tests included",
    "Only the option combinations of the compiled examples are ever seen by a compiler; the distributed and the two thorn back ends are not compiled at all.",
    ["nrpy/infrastructures/", "nrpy/c_function.py"],
    [("string assembly in the generators", "register_CFunction_* functions")],
)
p(
    "P19",
    "Generated shared-memory parallel loops are free of data races",
    "In every generated parallel loop, a variable or array element written by one iteration is private to that iteration, indexed by the parallel loop's own indices, combined by a declared reduction, or protected by a critical or atomic section.",
    ["schedules", "configurations"],
    "for every thread schedule of every generated parallel region, over all option combinations",
    "Programs are not run; races are schedule dependent.",
    [I + "BHaH/", I + "superB/", I + "ETLegacy/"],
    [("OpenMP pragmas in C templates", "all templates with parallel loops")],
)
p(
    "P20",
    "Restart from a checkpoint restores exactly what was saved",
    "The generated restart routine reads the same sequence of items, with the same sizes and counts in the same order, that the checkpoint routine wrote, into the objects they came from, and allocates each array before reading into it; everything that is not stored but pointed to is rebuilt before use. Writing a checkpoint leaves the evolved fields unchanged, and a restarted run resumes from the stored time and iteration.",
    ["configurations", "histories", "inputs"],
    "for every number of grids, grid size and set of evolved fields, and any point in the run",
    "The checkpoint code is only compiled; a mismatch shows after a write/restart cycle.",
    [I + "BHaH/checkpointing.py"],
    [("mirrored fwrite / fread sequences", I + "BHaH/checkpointing.py")],
)
p(
    "P21",
    "Migrating a distributed grid element loses no state",
    "For every structure that travels with a distributed grid element, the migration routine transfers every member exactly once in the same order when packing and unpacking, transfers arrays with the length they are allocated with, and allocates an array before filling it on the receiving side; brackets and structures stay consistent for any number of coordinate systems.",
    ["schedules", "configurations"],
    "for every migration or checkpoint point, coordinate system set and integrator",
    "The distributed back end is not compiled in the tests; lost state needs a migration at run time.",
    [I + "superB/superB/superB_pup.py", I + "superB/MoL.py", I + "superB/timestepping_chare.py", I + "superB/CurviBoundaryConditions.py"],
    [("pack/unpack routine generators", I + "superB/superB/superB_pup.py")],
)
p(
    "P22",
    "Boundary conditions act on the right points with the right parity",
    "Inner boundary points copy from their mapped source point times the parity product belonging to the tensor character of that field, extrapolated outer boundary points are filled layer by layer outward with the quadratic extrapolation from the three adjacent points along the outward normal, and the parity table has one entry per component symmetry of scalars, vectors and symmetric rank-two tensors. Radiation boundary points get the outgoing-wave time derivative with one-sided differences that stay inside the grid. Every field that is updated is given boundary data, with the parity looked up for that same field, and in distributed runs each grid element works on exactly its share of the boundary points.",
    ["configurations", "inputs"],
    "for every coordinate system, field set, grid extent and boundary face",
    "Boundary code is compiled but not run; a wrong parity or order shows only off axis or after several layers.",
    [I + "BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", I + "superB/CurviBoundaryConditions.py", "nrpy/grid.py"],
    [("parity type assignment and tables", I + "BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py")],
)
p(
    "P23",
    "Every option value is handled or refused; coordinate dispatch is complete",
    "A generator or class that validates a named option (grid function group and infrastructure, symmetry string, coordinate system, loop region, slice axis or plane, gauge, conformal factor, initial data, wave, tetrad, gridding, boundary-condition and code-generation options) handles every documented value and raises an error for any other value, so no unknown value silently gets the code of another; slice generators recognise a coordinate system by its family name. Generated dispatch over coordinate systems calls, for each registered coordinate system, the routine of that same coordinate system with the arguments it was given in order, and stops with a diagnostic for any other; each grid is given the identifier and the size of its own coordinate system.",
    ["configurations", "inputs"],
    "for every option value and every set of registered coordinate systems",
    "Tests use valid options; silent fall-through needs an unusual value.",
    [I + "BHaH/rfm_wrapper_functions.py", I + "BHaH/simple_loop.py", "nrpy/reference_metric.py", I],
    [("if/elif chains ending in raise", "option dispatch in generators"), ("switch over coordinate hashes", I + "BHaH/rfm_wrapper_functions.py")],
)
p(
    "P24",
    "Thorn configuration files agree with the thorn's generated code",
    "For every generated thorn, every generated source file is listed for compilation, every routine with schedule information is scheduled exactly once under its own name in the bin it was registered for, every registered field of an evolution thorn is declared in the group matching its kind together with its right-hand side, and every run-time parameter its code reads is declared.",
    ["configurations"],
    "for every set of registered thorn functions, fields, parameters and option combination, in both thorn back ends",
    "Thorns are generated but never compiled or run in the tests.",
    [I + "ETLegacy/", I + "CarpetX/"],
    [("make.code.defn / schedule / interface / param generators", I + "ETLegacy/, " + I + "CarpetX/")],
)
p(
    "P25",
    "A grid distributed over elements behaves like one undivided grid",
    "In the distributed back end every point of the global grid is owned by exactly one grid element and has the coordinates it has in the undivided grid; divisions that would lose points or make elements thinner than the ghost zones are refused. After each exchange every ghost cell facing a neighbour holds the value of the same global point, field and array owned by that neighbour: messages go to exactly the existing neighbours, carry exactly the packed values, are all awaited, and are unpacked into the matching ghost zone; after every integrator substep all updated arrays are exchanged along the three axes one after the other, and inner boundary data are exchanged and applied after they were set. Distributed output files consist of one fixed-length record per slice point at an offset no other point uses, filling the file exactly.",
    ["schedules", "configurations", "inputs"],
    "for every number of elements per axis, grid extent, ghost-zone width, integrator and element position",
    "The distributed back end is not compiled in the tests; errors show only with more than one element per axis.",
    [I + "superB/timestepping_chare.py", I + "superB/chare_communication_maps.py", I + "superB/numerical_grids.py", I + "superB/output_0d_1d_2d_nearest_gridpoint_slices.py", I + "superB/superB/superB.h"],
    [("send_neighbor_data / process_ghost generators", I + "superB/timestepping_chare.py"), ("ownership maps", I + "superB/chare_communication_maps.py")],
)
p(
    "P26",
    "Diagnostic slices show the points nearest the requested axis, plane or centre",
    "One-dimensional output consists of the interior grid points nearest the y or z axis, two-dimensional output of those nearest the xy or yz plane, and zero-dimensional output of the point nearest the centre (offered only where the grid has one): for even extents every point printed lies within half a cell of an image of the slice in the coordinate system used, no point is printed twice, and the points cover all of the slice the grid contains. Every row holds coordinates and quantities of one and the same point, in the order announced and with conversions matching their types; one-dimensional rows are sorted by the printed coordinate and none is lost. Both the single-process and the distributed back end do this.",
    ["configurations", "inputs"],
    "for every coordinate system with such output, grid extent, ghost-zone width and choice of quantities",
    "Doctests pin some index tables as text for a few systems; no test relates the indices to the coordinate map, and the output programs are never run.",
    [I + "BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py", I + "superB/output_0d_1d_2d_nearest_gridpoint_slices.py"],
    [("index tables and output functions", I + "BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py"), ("distributed set-up and output", I + "superB/output_0d_1d_2d_nearest_gridpoint_slices.py")],
)
# ------------------------------------------------------------- not decided statically
p(
    "P30",
    "Evolved solutions converge at the advertised order",
    "Running a generated evolution at increasing resolution reduces the error at the rate implied by the finite-difference and time-integration orders.",
    ["inputs", "configurations"],
    "for every smooth initial data set, resolution and coordinate system",
    "Needs runs at several resolutions; tests run none.",
    ["nrpy/examples/"],
    [("whole generated programs", "nrpy/examples/")],
)
p(
    "P31",
    "Physics expressions equal the published equations",
    "The symbolic right-hand sides, constraints, initial data and waveform quantities equal the formulation they are named after.",
    ["inputs"],
    "for all field values",
    "Stored values pin the expressions at sample points but are themselves generated from the code.",
    ["nrpy/equations/"],
    [("symbolic expressions", "nrpy/equations/")],
)
p(
    "P32",
    "Coordinate maps and their inverses are mutually inverse",
    "For every coordinate system, mapping grid coordinates to Cartesian ones and back returns the starting point everywhere in the coordinate range.",
    ["inputs"],
    "for all points in range and all coordinate parameters",
    "Sampled at points only; needs real-algebra reasoning with branch choices of inverse trigonometric and hyperbolic functions.",
    ["nrpy/reference_metric.py"],
    [("closed-form maps", "nrpy/reference_metric.py")],
)
p(
    "P33",
    "Nonlinear initial-data solvers converge or report failure",
    "The generated elliptic, two-puncture, stellar-structure and post-Newtonian solvers either reach the requested tolerance or stop with an error.",
    ["inputs"],
    "for all physical parameters",
    "Iteration counts depend on run-time floating-point values.",
    [I + "BHaH/general_relativity/", I + "BHaH/nrpyelliptic/"],
    [("Newton / relaxation iterations in emitted C", I + "BHaH/general_relativity/TwoPunctures/")],
)
p(
    "P34",
    "Distributed runs complete: every expected message is sent",
    "In a distributed run every grid element receives exactly the neighbour, boundary and diagnostic messages it waits for, so no schedule deadlocks.",
    ["schedules"],
    "for every chare decomposition and message order",
    "Needs the runtime system; the back end is not even compiled in tests.",
    [I + "superB/timestepping_chare.py", I + "superB/chare_communication_maps.py"],
    [("run-time message counts computed from coordinates", I + "superB/")],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
