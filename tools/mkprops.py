import json
P=[]
L="libraries/plumbing/"
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None,hook=None):
    a={"files":[(f if '/' in f else L+f) for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs:a["observe_at"]=obs
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if hook:a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Neighbour reads always deliver the neighbour's current value",
"Whenever a site loop reads a field at a nearest neighbour X+d, the value it gets is the value most recently given to that field at the neighbouring site, whatever sequence of assignments (to EVEN, ODD or ALL sites), single-element writes, explicit communication starts, moves, copies and earlier reads came before. This holds for every number of MPI ranks, every partition of the lattice between them and every legal timing of message delivery, and the communication never deadlocks, never mixes up messages of different fields or directions, and never sends data that is modified before it has left.",
["programs","schedules","configurations"],"every program over fields, directions and parities; every lattice size and rank count; every MPI progress order (data may arrive as late as the wait, send buffers may be read as late as the send completes)",
"The health check runs a handful of fixed programs at one or two lattice sizes on 1-4 ranks with whatever timing shared memory MPI happens to give; stale halo data only shows for particular orders of parity-wise writes, started gathers and reads, and for particular arrival times.",
["field.h","field_comm.h","lattice.cpp","field_storage.h",L+"backend_vector/field_storage_backend.h",L+"backend_cpu/field_storage_backend.h"],
[("gather status state machine (NOT_DONE/STARTED/DONE per direction and parity)",L+"field.h: Field::gather_status, mark_changed, mark_gathered"),("start_gather / wait_gather / gather / drop_comms",L+"field_comm.h"),("halo tables to_node/from_node and neighbour index arrays",L+"lattice.cpp: create_std_gathers"),("message tags",L+"com_mpi.cpp: get_next_msg_tag")],
["values read at X+d in a loop, compared with the assigned values","MPI calls through the profiling interface"],
[("gather_status_arr","what is known about the halo of each direction and parity",L+"field.h")])

p("P02","Boundary conditions are applied exactly at the lattice edge, exactly once",
"Reading a field across the lattice edge in direction d gives the value at the periodic image, multiplied by -1 exactly when the field's boundary condition in that direction is antiperiodic, and unmodified everywhere else; a change of boundary condition takes effect for all later reads and never alters the field's own values. The boundary condition of one direction or one field never affects another, is shared by both orientations of a direction, follows a field when it is moved, and does not change when the field is assigned a value or copied from another field.",
["programs","configurations"],"every choice of boundary condition per direction and field, changed at any time relative to communication; every rank layout including one rank per direction; every field element type and architecture back end",
"One fixed 2-flavour test at one lattice size exists; a sign applied twice (when a halo is re-fetched or a rank neighbours itself), omitted for some rank layout or kept after a change needs specific histories and partitions.",
["field.h","field_comm.h","lattice.cpp",L+"backend_vector/field_storage_backend.h",L+"backend_cpu/field_storage_backend.h","coordinates.h"],
[("set_boundary_condition / copy_boundary_condition",L+"field.h"),("set_local_boundary_elements, place_comm_elements, antiperiodic gather into send buffer",L+"backend_cpu/field_storage_backend.h, "+L+"backend_vector/field_storage_backend.h"),("special boundary neighbour arrays",L+"lattice.cpp: setup_special_boundary_array, init_special_boundaries")],
["values read at X+d"])

p("P03","The lattice layout is a consistent bijection for every size and rank count",
"For every lattice size and number of ranks for which setup succeeds, each lattice site is stored on exactly one rank at exactly one index, and owner, index, coordinate and parity queries agree with each other on all ranks and with what site loops visit. Loops over EVEN, ODD and ALL visit exactly the sites of that parity, each once; neighbours of every site are the sites one step away with periodic wrap; and setup terminates, with either a complete layout or a clean refusal.",
["configurations"],"every lattice size in 1..4 dimensions, including odd and non-divisible sizes, and every rank count the size admits; all layout back ends",
"Tests use a few power-of-two cubes on 1, 2 or 4 ranks, where every rank has the same even-sized brick; uneven bricks, odd sizes, prime factors and re-tries in the division are never reached.",
["setup_layout_generic.cpp","setup_layout_vector.cpp","lattice.cpp","map_node_layout.cpp","lattice.h","site_index.h"],
[("division of lattice into ranks",L+"setup_layout_generic.cpp, "+L+"setup_layout_vector.cpp: setup_layout"),("node info, owner lookup and site index",L+"lattice.cpp: setup_nodes, node_rank, site_index"),("rank permutation",L+"map_node_layout.cpp")],
["lattice->node_rank, site_index, is_on_mynode, coordinates in loops, neighbour arrays through X+d"])

p("P04","A site loop means what its C++ source says, on every target",
"A site loop or field expression executes its body exactly once for every site of the chosen parity with the per-site meaning of the C++ source: conditionals, local variables, called functions, loops over directions, X.coordinates()/X.parity(), neighbour reads and external variables all behave as in ordinary C++ evaluated per site. Sites outside the parity are untouched, and the result is the same for every target (plain CPU, vectorised, OpenMP), rank count, and whether or not communication and computation overlap.",
["programs","configurations"],"every program in the supported loop language; every target, lattice size and rank count",
"hilapp's output is only exercised on the fixed loops of the health check and applications; the translation must be right for every combination of statement kinds, element types (vectorisable or not), parities and neighbour access patterns.",
["hilapp/src/codegen.cpp","hilapp/src/codegen_cpu.cpp","hilapp/src/codegen_avx_new.cpp","hilapp/src/loop_function.cpp","hilapp/src/toplevelvisitor.cpp","hilapp/src/hilapp.cpp","hilapp/src/vectorization_info.cpp","libraries/plumbing/ensure_loop_functions.h"],
[("loop code generation",  "hilapp/src/codegen.cpp and codegen_cpu.cpp, codegen_avx_new.cpp"),("vectorizability analysis and loop function specialisation","hilapp/src/vectorization_info.cpp, hilapp/src/loop_function.cpp"),("neighbour reference collection (which gathers are started)","hilapp/src/toplevelvisitor.cpp, hilapp/src/codegen.cpp")],
["field contents and reduction values after the loop"])

p("P05","Site-loop reductions return the exact global result on every rank",
"A sum or product reduction over a site loop yields the initial value of the variable combined with the loop's contribution of every site of the chosen parity exactly once over all ranks, and the same result is available on every rank; repeated loops accumulate, whatever way the reductions are nested in the program. When all-reduction is switched off it is off only for the next reduction, and then rank 0 still has the full result.",
["programs","configurations"],"every sequence of reduction loops (parities, initial values, several variables per loop, allreduce on/off, +=, -= and *=), every element type, rank count and target",
"Tests check a few sums on one size; double counting of the initial value, loss of a rank's contribution, or a stale all-reduce flag depends on rank counts, initial values and order of loops.",
["com_mpi.h","com_mpi.cpp","field.h","hilapp/src/codegen.cpp","reduction.h","params.h"],
[("reduce_node_sum / reduce_node_product, set_allreduce",L+"com_mpi.h, "+L+"com_mpi.cpp"),("loop prologue/epilogue generated for reductions","hilapp/src/codegen.cpp"),("Field::sum, product, dot, squarenorm, norm",L+"field.h")],
["reduction variable on every rank"])

p("P06","Reduction<T> gives the right total in every mode and history",
"A Reduction variable's value equals its last assigned value plus (or times) every contribution made in site loops since, over all ranks, whether it is immediate, delayed or non-blocking, all-reduced or not, and however assignments, loops, starts, reduces, reads and mode changes are ordered. Reading is idempotent, modes can be switched between loops, and destroying or reassigning the variable with an operation outstanding neither hangs nor corrupts another reduction.",
["histories","schedules","configurations"],"every history of {assign, mode changes, += or *= loop, start_reduce, reduce, value} on one or several variables, every rank count and completion order of the non-blocking operations",
"The health check uses one delayed and one immediate reduction; the interplay of delayed, non-blocking, initial values kept on one rank only, and repeated reduce() calls forms a state space no test walks.",
["reduction.h","com_mpi.cpp","com_mpi.h"],
[("Reduction<T> mode flags and reduce_sum_node / reduce / start_reduce / wait",L+"reduction.h"),("generated loop code calling the reduction object","hilapp/src/codegen.cpp")],
["Reduction::value() on each rank"],[("delay_is_on, is_delayed_sum, is_nonblocking","pending reduction bookkeeping",L+"reduction.h")])

p("P07","ReductionVector sums every contribution into the right bin",
"Each element of a ReductionVector equals its assigned value plus (or times) all contributions made to that element in site loops over all ranks, in immediate and delayed mode, and untouched elements keep their value. Resizing, push/pop, clearing, whole-vector assignment and element access behave as for std::vector and are consistent over ranks.",
["histories","configurations"],"every history of loops with site-dependent bins, direct element writes, size changes, mode changes and reductions; every rank count, target and element type",
"Tests bin by x-coordinate once or twice with a fixed vector; initial values on several ranks, delayed accumulation over loops, products and size changes in between are not sampled.",
["reductionvector.h","com_mpi.h"],
[("init_sum/init_product, reduce_sum/reduce_product, reduce",L+"reductionvector.h"),("generated accumulation code, incl. vectorised and OpenMP variants","hilapp/src/codegen*.cpp")],
["all elements on every rank"])

p("P08","min/max and their locations are exact for all values and parities",
"Field min and max over a parity return the smallest/largest value actually present on sites of that parity, for every type and sign of values, identical on all ranks. The variants that also return a location give a site of that parity which holds that value, the same on all ranks.",
["inputs","configurations"],"every field content (negative, zero, extreme, repeated extremal values), parity, element type, rank count and thread count",
"Tests plant one extreme value above a positive background; all-negative fields, values on the excluded parity, extremal values on several ranks and in several threads are not tried.",
["field.h","field_comm.h"],
[("Field::minmax, min, max with location",L+"field.h and "+L+"backend_*/"),("MPI_MINLOC/MAXLOC and coordinate broadcast",L+"field.h: gpu_minmax/minmax")],
["returned value and location on every rank"])

p("P09","Element and bulk access move exactly the addressed values",
"Writing a value at given coordinates changes exactly that site, and reading at coordinates returns that site's value on every rank; bulk reads and writes of coordinate lists, subvolumes, slices and rank-local blocks address exactly the named sites in the documented order. Duplicate, unordered, empty or other-rank coordinates, and sizes beyond one communication block, do not change this.",
["inputs","histories","configurations"],"every list of coordinates, box and slice; every field state before and after (including pending halo communication); every rank count and back end",
"Tests read back a single element and a few slices on power-of-two lattices; order, ownership and halo invalidation after element writes depend on layout and history.",
["field.h","field_comm.h","field_io.h"],
[("set_element/get_element, operator[](CoordinateVector)",L+"field.h"),("gather_elements, scatter_elements, get_elements, set_elements, get_subvolume, get_slice",L+"field_io.h, "+L+"field_comm.h"),("copy_local_data, set_local_data, copy_local_data_with_halo",L+"field.h")],
["returned arrays, field contents and neighbour reads afterwards"])

p("P10","Fields behave as values: copies are independent, moves transfer everything",
"Copying a field gives an independent field with the same content, moving or swapping transfers the content without aliasing, and clearing or destroying one field (also with communication in flight) never affects another. Self-assignment, assignment between sites of one parity, and conversion between element types keep exactly the values the C++ expression denotes, and a field used before it is first assigned is reported rather than read.",
["histories"],"every history of construct, copy, move, assign, parity assign, clear, destroy, started communication and reads over several fields",
"Tests copy and assign a few fields in straight-line code; aliasing, stale halo flags after move and in-flight requests at destruction only appear in particular histories.",
["field.h","field_comm.h","memory_pool.cpp"],
[("Field constructors, operator=, move, clear, check_alloc, is_initialized",L+"field.h"),("drop_comms / wait on in-flight gathers before free",L+"field_comm.h"),("memory pool reuse of field storage",L+"memory_pool.cpp")],
["field contents after each step"])

p("P11","Shifts and offset reads address the right site for any displacement",
"Shifting a field by any displacement vector v, and reading it at X+v in a loop, delivers at each site x the value at x+v with periodic wrap and with the field's antiperiodic sign applied once per crossing of the lattice edge, for any parity. The shifted field itself is unchanged, and long sequences of distinct displacements give the same results as the first.",
["inputs","histories","configurations"],"every displacement (zero, negative, several directions, larger than the local or full lattice extent), parity, boundary condition, rank count, and sequence of shifts",
"Tests shift by a few short vectors with periodic boundaries; order-dependent scratch reuse, sign counting and parity bookkeeping for odd/even total displacement are not covered.",
["field.h","field_comm.h"],
[("Field::shift, parity handling of intermediate steps",L+"field_comm.h: shift"),("do_buffered_shift and its cache",L+"field.h/"+L+"field_comm.h"),("X+v rewriting","hilapp/src/codegen.cpp")],
["shifted field values"])

p("P12","The field FFT is the discrete Fourier transform and reflection is exact",
"The forward transform of a field equals the unnormalised discrete Fourier sum over exactly the selected directions for every component of the element type, the inverse transform undoes it up to the number of summed sites, and real-to-complex variants agree with the complex one. Reflection maps x to -x (mod size) in exactly the selected directions and is an involution; none of these change the source field. The wave number of a mode n is 2 pi n / size folded to the interval (-pi, pi].",
["inputs","configurations"],"every lattice size, direction subset, rank count, element type and field content (linear in the field, so a basis of delta sources and phases decides all)",
"Tests transform constants and one plane wave on cubes; pencil redistribution between ranks is size- and layout-dependent and must be right for every site and direction subset.",
["fft.h","fft.cpp","fft_fftw_transform.h"],
[("pencil construction and data redistribution",L+"fft.h: hila_fft, scatter/gather, pencils; "+L+"fft.cpp: init_pencil_direction"),("FFTW transform wrapper",L+"fft_fftw_transform.h"),("reflect",L+"fft.h")],
["transformed field at every site"])

p("P13","Blocking and unblocking keep values and geometry",
"Blocking a field onto a coarser lattice gives at each coarse site the value of the fine site at the corresponding multiple coordinates, unblocking writes exactly those fine sites back and leaves the others, and switching between lattices any number of times preserves every field. On every lattice level neighbours, parities, reductions and layout queries obey the same rules as on the base lattice, and impossible blockings are refused.",
["histories","configurations"],"every sequence of block/unblock/switch with all legal factors per direction, several levels, fields created on any level, every rank count",
"Tests block by 2 once or twice on a cube; uneven factors, repeated and nested blocking, lattice reuse and communication on coarse levels are not sampled.",
["lattice.cpp","lattice.h","field.h"],
[("lattice.block / unblock / switch_to / can_block",L+"lattice.cpp"),("Field::block_from / unblock_to",L+"field.h")],
["fields on every level"])

p("P14","Site selection collects exactly the selected sites and values",
"After a loop a site selection contains exactly the sites that loop selected, each once with the value given last, up to the limit set on the selection, and on rank 0 they are available as one list (unless joining was switched off: then every rank has its own sites until they are joined). Each loop starts the selection anew; clearing, copying, limits and several selections in one loop keep to this for every rank count, including no site or every site selected.",
["histories","configurations"],"every selection predicate, limit, sequence of loops and joins; every rank count and target",
"Tests select one fixed subset; limits hit on some ranks, re-selection, joins with empty ranks are not covered.",
["site_select.h"],
[("SiteSelect / SiteValueSelect select, setup, join, size",L+"site_select.h")],
["coordinates and values lists"])

p("P15","Cluster finding returns exactly the connected components",
"Two sites get the same cluster label if and only if they have the same user label and are connected by a path of nearest neighbours with that label (periodic boundaries), and background sites belong to no cluster. Reported cluster sizes, areas and member sites are those of the labelled components, sorted as documented, and identical for every rank count.",
["inputs","configurations"],"every labelling of the lattice (spirals, wrapping clusters, clusters spanning many ranks), rank count and size",
"Tests use one two-cluster pattern; convergence of label propagation across ranks depends on cluster shape.",
["clusters.h"],
[("label propagation until no change",L+"clusters.h: find"),("classification, sizes, area",L+"clusters.h: classify, analyze")],
["label field, size lists"])

p("P16","Field and configuration files round-trip and are layout-independent",
"Writing a field and reading it back, on the same or a different number of ranks or back end, restores every site exactly, several fields can follow each other in one file, and the file content does not depend on how the lattice was distributed. Gauge configurations carry and check their geometry, are restored identically, and a mismatching or unreadable file is refused rather than silently loaded.",
["inputs","configurations","histories"],"every element type, lattice size, pair of rank counts for writing and reading, sequence of fields in a file, and text writes of sites, slices and subvolumes",
"Tests write and read one field with the same rank count in the same process, so a layout-dependent order cancels out.",
["field_io.h","gaugefield.h","field_comm.h"],
[("Field::write/read streams, buffered gather_elements/scatter_elements",L+"field_io.h"),("config_write/config_read header",L+"gaugefield.h"),("write_subvolume, write_slice",L+"field_io.h")],
["file bytes and fields read back"])

p("P17","The input reader returns the value of the right key on all ranks or stops",
"Reading a parameter file returns, on every rank, the value given after each key in file order, with comments, blank lines, quoting, lists, multi-word keys and nested item choices as documented. A missing, misspelled or mistyped entry is reported (or returns failure in the optional form) and is never silently replaced by another value.",
["inputs"],"every parameter file in the documented grammar and every small corruption of it; every read call sequence; any rank count",
"No stable test exercises the parser beyond the sample parameter files of the applications.",
["input.cpp","input.h"],
[("get_key/get_value/peek_token/match_token/line handling",L+"input.cpp"),("typed get<T>, lists, get_item, broadcast",L+"input.h")],
["values returned on each rank, termination on error"])

p("P18","Command-line options and partitions configure exactly what they say",
"Command-line options set exactly the documented settings (output and input file, time limit, overriding parameters, partitions, check mode) and unknown or malformed options stop the program with a message. With partitions the ranks are divided into equal independent sub-runs, each with its own directory, output, lattice and random seed, and communication never crosses between them.",
["inputs","configurations"],"every argument list, every number of ranks and partitions",
"The tests are launched without any option except the healthcheck seed.",
["cmdline.cpp","cmdline.h","initialize.cpp","com_mpi.cpp"],
[("commandline parsing",L+"cmdline.cpp"),("initialize, partition setup",L+"initialize.cpp: setup_partitions / "+L+"com_mpi.cpp: split_into_partitions")],
["files created, settings reported, collective results per partition"])

p("P19","The memory pool hands out disjoint memory and reuses only freed blocks",
"At any time the blocks handed out by the pool are disjoint, at least as large and aligned as requested, and contents of a block never change by allocating or freeing others. Freed blocks are reused, freeing works in any order, and purging returns free memory without touching live blocks.",
["histories"],"every history of allocations, frees and purges with arbitrary sizes",
"No test exercises the pool; it is compiled for GPU builds and used through the generic allocation entry points.",
["memory_pool.cpp","memory_pool.h","memalloc.cpp"],
[("free/in-use lists, best fit, splitting",L+"memory_pool.cpp")],
["returned pointers and contents"])

p("P20","Random numbers: seeding is reproducible, distinct per rank, shuffles permute",
"Seeding with the same value on the same number of ranks reproduces the same sequence on every rank, and different ranks and different seeds produce different sequences; uniform numbers lie in [0,1). Shuffling gives a permutation in random order, the orders of directions and parities are identical on all ranks, and each site loop draws fresh numbers per site; loops with random numbers refuse to run before seeding.",
["inputs","configurations"],"every seed, rank count and sequence of draws and shuffles",
"Tests only check averages for one seed; rank decorrelation, reproducibility and permutation agreement across ranks are not examined.",
["random.cpp","random.h","shuffle.h"],
[("seed_random, seed shuffle by rank",L+"random.cpp"),("shuffle, shuffle_directions_and_parities",L+"shuffle.h")],
["sequences per rank"])

p("P21","A run can stop and resume without losing or repeating a trajectory",
"The time check returns true on all ranks together as soon as the remaining time is smaller than the longest interval seen between checks plus the safety margin, or a finish signal was received, and never otherwise; time limit strings mean what the format says. A checkpoint followed by a restore yields the same configuration, trajectory number, trajectory count and a valid seed, a user's edit of the status file is honoured, and a crash at any point while checkpointing leaves a complete configuration on disk.",
["histories","crash_points","inputs"],"every sequence of check times and limits, every time string, every history of checkpoint/edit/crash/restore and every crash point between file operations",
"No test checkpoints, restores, or advances time.",
["libraries/tools/checkpoint.h","timing.cpp","gaugefield.h"],
[("checkpoint/restore_checkpoint","libraries/tools/checkpoint.h"),("setup_timelimit, time_to_finish, signal handler",L+"timing.cpp")],
["run_status and config files; return values on all ranks"])

p("P22","Communication helpers deliver the same data to every rank",
"Broadcasts of scalars, strings, arrays, vectors, lists and pairs leave every rank with exactly the sender's value from any root rank, sizes included; explicit node reductions of single values and arrays give the exact total (all ranks, or rank 0 only when asked); point-to-point sends deliver what was sent. Consecutive operations never interfere.",
["inputs","histories","configurations"],"every payload type and size (including empty), root, rank count and sequence of operations",
"They are used with a few payloads and root 0 only.",
["com_mpi.h","com_mpi.cpp"],
[("hila::broadcast overloads, broadcast2, broadcast_array",L+"com_mpi.h"),("reduce_node_sum, reduce_node_product, reduce_sum_setup",L+"com_mpi.h/"+L+"com_mpi.cpp"),("send_to/receive_from",L+"com_mpi.h")],
["values on every rank"])

p("P23","Spectral binning counts every k-mode once in its right bin",
"Every momentum mode of the lattice is counted once, in the bin its |k| falls into (or in none if outside the range), so that mode counts add up to the number of modes, bin averages are averages over exactly these modes, and spectral densities are sums of the mode power in each bin. The result does not depend on how the lattice is distributed.",
["inputs","configurations"],"every bin count, range, exponent and field content, lattice size and rank count",
"One test compares a total; bin edges and uneven lattices are not checked.",
["spectraldensity.h"],
[("k_binning bins, bin_k_field, spectraldensity, bincount",L+"spectraldensity.h")],
["bin vectors on all ranks"])

p("P24","Multicanonical weights are a piecewise-linear function kept in step on all ranks",
"The weight at an order-parameter value is the linear interpolation of the bin-centre weights (constant or infinite outside the range as configured), and every accept/reject decision is the same on all ranks. Iteration counts each visit in exactly the right bin, updates weights only as the chosen method says, and a written weight file reads back to the same weight function.",
["histories","inputs"],"every bin table, order-parameter value (on bin edges and outside), sequence of visits and iteration updates",
"No stable test runs the multicanonical tool.",
["libraries/tools/multicanonical.cpp","libraries/tools/multicanonical.h"],
[("weight_function, find_OP_bin_index","libraries/tools/multicanonical.cpp"),("iterate_weight_function_*, accept_reject","libraries/tools/multicanonical.cpp"),("write_weight_function/read_weight_function","libraries/tools/multicanonical.cpp")],
["returned weights, bins, decisions on all ranks"])

p("P25","Element algebra (matrices, complex, SU(N)) obeys its mathematical definition",
"For every element type (real and complex numbers in float and double, vectors, rectangular and square matrices, arrays, diagonal matrices, SU(N) matrices and their algebra), sums, products, conjugates, traces, determinants, norms, comparisons, assignments of parts, permutations and sorts equal the mathematical operation, exactly where all numbers are integers; quotients, roots, solutions of linear systems, inverses, exponentials and elementary functions, eigenvalues and eigenvectors, singular values of nonsingular matrices, reunitarization and the projection to and expansion from the algebra satisfy their defining equations within rounding; a number added to a matrix is a multiple of the unit matrix, to an array it is added to every element. Inside a site loop the results are the same.",
["inputs","histories"],"every operand value, type and size combination, in every order of operations on the same variables",
"The catch tests sample a few values of a few types; wrong result shapes and wrong signs in rarely used variants went unnoticed.",
["libraries/datatypes/matrix.h","libraries/datatypes/matrix_linalg.h","libraries/datatypes/diagonal_matrix.h","libraries/datatypes/array.h","libraries/datatypes/cmplx.h","libraries/datatypes/sun_matrix.h"],
[("operators, products, conjugations of matrices","libraries/datatypes/matrix.h"),("eigenvalues, singular values, LU","libraries/datatypes/matrix_linalg.h"),("group projection and algebra","libraries/datatypes/sun_matrix.h")],["returned values"])

p("P26","Gauge links, loops, staples and forces obey their definitions",
"For every gauge field, lattice size (odd sizes included) and number of ranks: the plaquette and improved actions and the Polyakov line are the sums of the traces of the loops of links that define them; staple sums (of either parity, weighted or not, forwards or backwards), Wilson lines of any length and clover leaves are the ordered products of links along their paths; the forces of Wilson loops, of the plaquette, improved and clover actions are the derivatives of these actions, set anew or added to what was there; the topological charge and energy are those of the clover field strength; Gauss' law violations are computed from the transported electric fields and can be removed; overrelaxation reflects a link about its staples; smearing adds the projected staples to first order; blocking multiplies the links of the blocked directions; all transform as they should under gauge transformations, and a link in the group stays as it is when reunitarized.",
["inputs","histories"],"every gauge field, path, direction, parity, weight, lattice size and decomposition",
"No unit test touches the gauge library; a wrong link in a staple shows up only as a wrong physics result.",
["libraries/gauge","libraries/plumbing/gaugefield.h"],
[("staple sums","libraries/gauge/staples.h"),("lines and forces of loops","libraries/gauge/wilson_line_and_force.h"),("clover","libraries/gauge/clover_action.h"),("gauge field class and blocking","libraries/plumbing/gaugefield.h")],["returned values","contents of fields"])

p("P27","Extended precision sums lose nothing, in any order and on any number of ranks",
"An ExtendedPrecision number keeps sums, differences and integer multiples of numbers of very different sizes exactly (up to the capacity of its three parts), whatever the order of the operations, the arithmetic type and side of the operands, and also when a number is added to or subtracted from itself; comparisons with extended or plain numbers of any arithmetic type are decided by the exact difference; conversion to double gives its leading part. Sums over the sites of a loop, over parities and over ranks are the same exact total on every rank, added to what the variable had before.",
["inputs","histories","schedules"],"every sequence of numbers, types and operations, every lattice division and order of summation",
"Whether a cancellation loses digits depends on the order of terms, which depends on the layout, ranks and loop; tests add one list of numbers once.",
["libraries/datatypes/extended.h","libraries/datatypes/extended.cpp","libraries/plumbing/com_mpi.cpp"],
[("operators of ExtendedPrecision","libraries/datatypes/extended.h"),("operator+= (Kahan-Babushka-Klein)","libraries/datatypes/extended.cpp"),("reduce_node_sum_extended","libraries/plumbing/com_mpi.cpp")],["returned values on every rank"])

p("P28","hilapp refuses loops whose result depends on the order of sites, and no others",
"The code transformation stops with an error at a site loop whose result would depend on the order of the sites or on the division into ranks: a field changed and read at neighbouring sites within a loop over all sites (unless declared safe_access), assignment to another site, variables from outside the loop changed otherwise than as a sum or product, or read or assigned otherwise when they are one, reduction vectors used in two ways, elements of outside arrays changed per site, statics, field operations, nested loops and addresses of outside variables within the loop, and functions that use globals, statics or whole fields; however the access is written (reference, function argument, condition, method, nested call). It accepts loops without such accesses, and one refused loop does not change the verdict on another.",
["inputs","histories"],"every loop over sites that compiles as C++",
"A wrongly accepted loop compiles and gives plausible numbers on one rank; tests contain only loops that are accepted, so neither kind of wrong verdict shows.",
["hilapp/src/toplevelvisitor.cpp","hilapp/src/generalvisitor.cpp","hilapp/src/loop_function.cpp"],
[("check_var_info_list, check_field_ref_list","hilapp/src/toplevelvisitor.cpp"),("functions called from loops","hilapp/src/loop_function.cpp")],["errors of hilapp, per loop"])
p("P29","SU2, U1, directions and coordinates obey the algebra of what they stand for",
"SU2 elements behave as the 2x2 matrices d + i(a s1 + b s2 + c s3): sums, products, dagger, trace, determinant, products with vectors, projection from and conversion to matrices, exponential and logarithm agree with those of the matrices, in every form in which they are offered (operators, assignments, member and free functions, initializer lists); elements of the algebra add, scale, multiply as vectors, and expand, project and conjugate consistently with the group; U1 phases multiply; directions, parities and coordinate vectors negate, add, take remainders, compare and convert consistently with the lattice steps they denote; within site loops over either parity and on any number of ranks alike.",
["inputs","histories"],"every use of these types",
"A wrong sign or component is visible only for values where it matters; most of these operations are in no test.",
["libraries/datatypes/su2.h","libraries/datatypes/u1.h","libraries/plumbing/coordinates.h"],
[("SU2 and its algebra","libraries/datatypes/su2.h"),("U1","libraries/datatypes/u1.h"),("directions, parities, coordinate vectors","libraries/plumbing/coordinates.h")],["values of fields of these types, per rank"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
