NAR = {}
FM = 'Bounded: random and systematic programs of up to a few hundred operations, small lattices, up to 8 ranks, every step of each recorded trace checked by TLC against FieldMachine.tla; trusts the harness encoding of values as integers. '
c('P01', FM + 'The gather protocol itself is model checked (HaloGather.tla) for all programs up to the stated length on 2-4 ranks with arbitrary message timing; the real code runs under an MPI interposer that delivers as late as allowed.',
  'TLA+ model of the halo protocol checked with TLC, its transitions replayed into the real code, traces validated against a TLA+ field machine')
c('P02', FM)
c('P09', FM)
c('P10', FM)
c('P11', FM)
RE = 'Bounded: random programs of up to a few hundred operations, small lattices, up to 8 ranks, integer-valued contributions (exact in every order of summation); what every rank sees is checked by TLC against ReductionMachine.tla. '
RT = 'TLA+ model of a reduction over ranks checked with TLC, its transitions and short programs replayed into the real code, traces validated against a TLA+ reduction machine'
c('P05', RE)
c('P06', RE + 'ReductionRanks.tla models the per-rank state of a reduction and is checked exhaustively to the stated length; contributions outside site loops are not covered.', RT)
c('P07', RE + 'Elements are read only when nothing is pending or under way.', RT)
c('P08', RE + 'Values come from a table of boundary values (lowest, infinity, smallest normal, 0, ...); NaN is not covered.')
LT = 'TLA+ model checked with TLC (sets of all small lattices and rank numbers), traces of random programs validated against a TLA+ lattice machine'
LA = 'Bounded: random programs over lattices of up to 300 sites, 1-4 dimensions, up to 8 ranks, three element types; every observation of every rank is checked by TLC against LayoutMachine.tla. '
c('P03', LA + 'LayoutSetup.tla models the division of the lattice (setup_layout) and is checked for all lattices and rank numbers to the stated size.', LT)
c('P13', LA)
c('P04', 'Bounded: randomly generated loop bodies (the grammar of vlib/loops.py: assignments, locals, conditionals, for/foralldir, neighbour access, loop functions with value, const, reference and out_only arguments, coordinates, sums), small lattices, integer-valued data; the meaning of each body is evaluated by TLC from its syntax tree (LoopMachine.tla). Functions with side effects, GPU targets and complex element types are not generated.',
  'Generated loop bodies translated by hilapp, compiled for scalar, AVX and OpenMP targets, run, and the recorded traces validated with TLC against a TLA+ semantics of site loops')
SE = 'Bounded: random programs over lattices of up to 130 sites, 1-4 dimensions, up to 8 ranks; every observation is checked by TLC against SelectMachine.tla. '
c('P14', SE)
c('P15', SE + 'The labels are compared with the connected components computed by the specification (fixpoint over neighbours). Clusters do not compile for the AVX target and are not checked there.')
c('P19', 'Bounded: PoolList.tla (the block list with its search) is checked against PoolMachine.tla for three handles, five sizes and up to 9 operations; all programs of 6 (7) operations on three sizes and random programs of up to a few hundred operations run on the real pool, every result is checked by TLC. CPU memory only (no GPU here).',
  'TLA+ model of the block list checked with TLC, all short programs and random ones replayed into the real code, traces validated against a TLA+ pool machine')
c('P20', 'Bounded: random programs with reseeding and restarts on up to 8 ranks; numbers are opaque values in the specification (a tree of histories), range checked on 300 million draws; distribution only in coarse bins.')
c('P22', 'Bounded: random programs of up to 150 operations on up to 8 ranks, nine element types for moves, eleven for sums; every register of every rank is checked by TLC against ComMachine.tla. MPI itself is trusted; communication inside partitions is covered by P18.')
c('P12', 'Bounded: random programs of transforms (each subset of directions, both signs), reflections and arithmetic on lattices of up to 100 sites with sizes whose twiddle factors the specification knows to 24 bits (TrigTable.tla), up to 8 ranks; results compared to the transform computed by the specification within a stated rounding bound. reflect() compiles only for real and complex element types.',
  'TLA+ definition of the discrete Fourier transform (its algebra model checked in FourierMC.tla), traces of random programs on the real code validated against it with TLC')
c('P17', 'Bounded: random and systematic input files (comments, blank lines, wrong keys, wrong values, labels, vectors, matrices, item lists) on up to 8 ranks; each returned value and each stop on each rank is checked by TLC against InputMachine.tla.')
c('P18', 'Bounded: random and systematic command lines (flags, arguments, unknown words, parameter overrides, partitions, time limits) on up to 8 ranks; what the program is told, and where each rank puts its output, is checked by TLC against CommandMachine.tla.')
c('P16', 'Bounded: random programs of writing, reading and damaging files of fields and configurations on up to 8 ranks, lattices of up to 60 sites, several lattices and element types; files are compared byte by byte through the encoding of the harness; each step is checked by TLC against IoMachine.tla. Readers are given the damages of the grammar (cut, extended, header changed), not arbitrary bytes.',
  'TLA+ machine of fields, files and configurations; random programs run on the real code and their traces validated with TLC')
c('P21', 'Bounded: the file system steps of a checkpoint with a crash between any two are model checked (CheckpointMC.tla, 4 runs of up to 4 trajectories), the time check against its definition (TimeMC.tla); the real code is run through sequences of checkpoints with crashes injected at each file system call, and the files left behind and what is restored are checked by TLC against IoMachine.tla. Power failure (data not yet on the disk) is not covered.',
  'TLA+ model of the checkpoint protocol with crashes checked with TLC; the real code run with crashes injected at file system calls, traces validated against a TLA+ machine')
c('P23', 'Bounded: random programs of binning setups (bins, maxima, exact and automatic), fields with integer values and reads of the averages on lattices of up to 100 sites on up to 8 ranks; every returned value is checked by TLC against SpectralMachine.tla (squares of radii compared exactly). An empty bin has no average; results are defined on rank 0 only.')
c('P24', 'Bounded: random programs of parameter files, weight files, updates, accept/reject steps and iterations (direct, canonical methods, finish conditions) on up to 8 ranks; weights in fixed point with tolerance; every observation is checked by TLC against MucaMachine.tla. Hard walls with the canonical method are not covered.')
c('P25', 'Bounded: random programs of operations on registers of each kind (n = 2, 3, 4; double, float, complex) with small integer operands; TLC computes each result exactly, or checks the defining equation of an inexact one in fixed point (tolerance 1/100 to 1/10000). Ill-conditioned and overflowing operands, NaN, and singular values of singular matrices are not covered.')
c('P27', 'Bounded: the algorithm is model checked with 7 to 9 bit numbers (ExtendedMC.tla: all programs of 5 to 6 additions, subtractions and sums of sums on two variables with three scales); random programs on the real code with three scales 2^50 apart, all arithmetic types, up to 8 ranks, plain, AVX and OpenMP loops; every value is checked exactly by TLC against ExtendedMachine.tla.',
  'TLA+ model of the compensated summation checked with TLC, traces of random programs on the real code validated with TLC against a TLA+ machine of exact numbers')
c('P28', 'Bounded: random files of up to 5 loops of up to 8 statements (fields of numbers and vectors, outside variables, arrays, reductions, references, functions, conditions, local directions), the last with one of 22 kinds of flaw; the verdict of hilapp on each loop is compared with LoopRules.tla. LoopRulesMC checks the rules against an execution of all loops of 2 (thorough: 3) statements in all orders of sites and on two ranks. Loops with a variable parity are taken to be over one parity at a time.',
  'TLA+ model of the meaning of site loops checked with TLC against all orders of sites; verdicts of hilapp on generated loops validated with TLC')
c('P29', 'Bounded: random sequences of up to 200 operations on registers of SU2, algebra, U1, coordinate and direction values with integer components below 2^20 (normalization, exponential and logarithm at arguments with exact results), on 2 to 4-dimensional lattices and up to 4 ranks. Every product in the model is a product of 2x2 matrices, not the component formulas of the code. Without vectorized (AVX) code.',
  'TLA+ machine of group elements as matrices; recorded runs of the real types validated with TLC')
c('P26', 'Bounded: links are the monomial matrices of SU(2) and SU(3) with entries 1, i, -1, -i (8 and 96 elements), a group in which TLC computes every product exactly; random fields, gauge transformations, paths, factors and weights on lattices of up to 64 sites in 2 to 4 directions; GaugeMC checks that the loops of the model are gauge invariant and staples covariant. Finite coefficients of smearing and gradient flow, logarithmic actions and the distribution of the heat bath are not covered (smearing: first order, and covariance at finite coefficients).')
