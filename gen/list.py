prop('C01', 'Concurrent workers never race on shared data',
     'When a computation is spread over several threads, no two threads touch the same memory without synchronisation unless both only read it. This holds for every thread count and every interleaving, so results never depend on scheduling.',
     ['schedules'], 'every thread count, every interleaving of the iterations of every parallel region reachable from a public entry point',
     'The tests run a few inputs with two threads; an unlucky interleaving is not reproducible and a benign-looking race passes.',
     ['dr/compute_reduction_matrix_J.cc', 'dr_nd/dr_nd.cc', 'hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc'],
     [('private clauses, loop-indexed outputs, critical sections', '#pragma omp regions'), ('caches filled before workers start', 'compute_everything_J / compute_everything_ND')],
     technique='static race detection: ' + VN + ' of every OpenMP region, ownership of written locations by loop index, lock regions',
     note=TRUST + 'the summaries of library functions as thread-compatible (NTL/FLINT objects distinct per thread are safe).')
prop('C02', 'Shared caches are complete before workers start',
     'Before any parallel phase begins, every shared cache entry that a worker can ask for has already been computed, so no worker ever adds to or removes from a cache that other workers read. This holds for every input the phase accepts.',
     ['schedules', 'inputs'], 'every parallel region, every cache lookup a worker can reach, every key it can ask for',
     'Tests exercise a few polynomials for which a missing entry may happen to have been cached earlier.',
     ['hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc', 'dr/compute_everything_J.cc', 'dr_nd/dr_nd.cc'],
     [('pre-computation of all reduction/inclusion matrices', 'compute_everything_J, compute_everything_ND')],
     technique='interprocedural cache-coverage analysis on ' + VN,
     note=TRUST + 'the precondition (asserted by the code) that lookups use directions of degree d supported where the base point is positive.')
prop('C03', 'Every worker thread works modulo the caller\'s modulus',
     'Every thread that performs modular arithmetic inside a parallel region first installs the modulus that is in force in the thread that started the region. No worker computes modulo a missing or different modulus.',
     ['schedules', 'configurations'], 'every parallel region containing modular arithmetic, every thread count, OpenMP on',
     'On a test machine worker threads may inherit a leftover modulus from an earlier region and give the right answer.',
     ['dr/compute_reduction_matrix_J.cc', 'dr_nd/dr_nd.cc', 'hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc'],
     [('context saved outside, restored first thing inside each region', '#pragma omp parallel for bodies')],
     technique='must-precede (dominance) analysis over ' + VN,
     note=TRUST + 'that NTL\'s modulus is thread local (NTL_THREADS) and SmartPtr context restore installs it.')
prop('C04', 'Library calls leave the caller\'s moduli as they found them',
     'After any library call returns, the moduli in force in the calling thread are the ones in force before the call. A temporary change of modulus is undone on every way out of the call.',
     ['inputs', 'histories'], 'every public function, every return path, every sequence of calls',
     'Tests set their own moduli at the start of each case, so a modulus leaked by one call is overwritten before it can be noticed.',
     ['wrapper/zeta_function.cc', 'dr/', 'dr_nd/', 'hypersurface/', 'hypersurface_nd/'],
     [('scoped push objects', 'wrapper/zeta_function.cc')],
     technique='typestate analysis of the moduli stack: every path of every entry point (inlined to the modulus-managing code) must end with the caller\'s moduli in force',
     note=TRUST + 'that NTL Push/Bak/Context objects restore on destruction exactly what they saved, and that worker threads of a parallel region own their moduli (C03).')
prop('C25', 'Each object works modulo its own prime and working precision',
     'Whenever the convenience entry points create an object for a prime p and precision N, or call one of its operations, the small modulus in force is p and the large modulus in force is p to the power N. The moduli are installed before the object is created, never exchanged with one another, and still in force at every later use.',
     ['inputs', 'configurations'], 'every construction and use of a computation object in the wrapper layer, every prime, precision and branch',
     'An object used modulo a neighbouring power of p gives right digits on the small cases tests sample and silently loses precision on others.',
     ['wrapper/zeta_function.cc', 'dr/init.cc', 'dr/constructors.cc', 'dr_nd/dr_nd.cc', 'hypersurface/', 'hypersurface_nd/'],
     [('zz_pPush/ZZ_pPush with p and p^precision around the objects', 'wrapper/zeta_function.cc')],
     technique='typestate walk of the moduli in force against symbolic prime and precision terms of each object (' + VN + ')',
     note=TRUST + 'that an object is described by the prime and precision its constructor receives.')
prop('C05', 'Low-level numbers and matrices are created once, used alive, released once',
     'Every manually managed number or matrix is initialised before its first use, is never used or released after being released, and is released exactly once on every path on which it was initialised. No path leaks or doubly releases one.',
     ['inputs', 'configurations'], 'every manually managed object in every function, every path through it, with and without OpenMP',
     'A double release or use after release of a small object is invisible to an output comparison on most inputs and allocators.',
     ['hypersurface_nd/hypersurface_nd.cc', 'matrix/', 'conv/', 'hypersurface/frob_J_ZZ_p.cc', 'solve_system/'],
     [('init/clear pairs', 'all users of mpz/fmpz/fmpz_mat/nmod_mat')],
     technique='typestate (init/use/clear) dataflow over the structured AST of every function',
     note=TRUST + 'that a NTL/FLINT/GMP object argument of an unknown library function is used, not released, by it.')
prop('C06', 'Saving then loading restores the same stored state',
     'Whatever a save writes, the matching load reads back in the same order, with the same types and into the same parts of the object, and the stored parts are the ones the load needs. This holds for every dimension, degree, modulus and precision.',
     ['inputs', 'histories'], 'every object that can be saved, every number of stored records',
     'No test saves or loads anything.',
     ['dr/save.cc', 'dr/constructors.cc', 'dr_nd/dr_nd.cc', 'tools.h'],
     [('same sequence of << and >>', 'dr/save.cc vs load constructor; dr_nd save vs load constructor')],
     technique='two-sided trace comparison: serialised field sequence of writer vs reader from ' + VN,
     note=TRUST + 'that the NTL text format of a value reads back as the same value under the same modulus, and that the pieces are separated by white space.')
prop('C07', 'A save reports success truthfully and marks itself while in progress',
     'While a save is rewriting its file, a marker file next to it exists, and the marker is removed only after the data file is completely written and closed. A save that could not open or write its files reports failure and does not touch an existing data file before the marker exists; file names of any length are handled.',
     ['crash_points', 'fault_sequences', 'inputs'], 'every point at which the process can stop during a save, every failure of opening or writing, every file name',
     'No test calls save; a crash or full disk in the middle cannot be sampled by an output comparison.',
     ['dr/save.cc', 'dr_nd/dr_nd.cc'],
     [('swp marker opened before and removed after the data file', 'dr/save.cc, dr_nd save')],
     technique='typestate / ordering analysis of file operations on every path of the writers',
     note=TRUST + 'that a stream reports a failed write no later than its close, and that the operating system keeps the order of open, write and remove.')
prop('C08', 'Loading rejects files that do not fit the current computation',
     'Loading an object from a file fails loudly when the file cannot be opened, was written for another prime or another precision than the ones in force, or ends before the whole object has been read. It never continues with partly initialised data.',
     ['fault_sequences', 'inputs', 'configurations'], 'every file content, every modulus in force',
     'No test loads anything, and a handful of malformed files would not cover every truncation point.',
     ['dr/constructors.cc', 'dr_nd/dr_nd.cc'],
     [('open check, prime and precision comparison', 'load constructors')],
     technique='must-check-before-use dominance analysis over the loader\'s paths',
     note=TRUST + 'that a stream with exceptions enabled throws on a failed read and that NTL readers set the stream state on malformed input.')
prop('C10', 'Unsupported inputs are rejected before any computation',
     'A zeta-function request for a singular hypersurface, for a dimension and degree without default parameters, or under the fast reduction when the equation is not in general position and no suitable change of variables was found, is never computed with the wrong method. The singular and unsupported cases stop the program; the last one falls back to the general method.',
     ['inputs'], 'every polynomial, prime, dimension, degree and option combination',
     'Tests only pass valid smooth inputs and check that nothing crashes.',
     ['wrapper/zeta_function.cc', 'tools/default_args.cc', 'dr/isSmooth.cc', 'dr_nd/dr_nd.cc'],
     [('smoothness test, general-position test and change of variables', 'wrapper/zeta_function.cc'), ('search that returns zero when it fails', 'find_change_of_variables')],
     technique='guard-dominance analysis (all truth assignments of the guarding conditions) and path-sensitive walk over ' + VN,
     note=TRUST + 'that the rank of the relation matrix one degree above the socle decides smoothness (resp. general position), and the rank routine of FLINT.')
prop('C11', 'Every argument reaches the computation it is meant for',
     'Convenience entry points and constructors hand each of their arguments on to the corresponding parameter of the general one, unchanged and in the right position. In particular options such as verbosity, memory saving, thread count, precision and the choice of method are never dropped, swapped or replaced by a constant.',
     ['inputs', 'configurations'], 'every overload and constructor, every argument value',
     'Swapped or dropped options that share a type compile, and tests use the same value for most of them.',
     ['wrapper/zeta_function.cc', 'hypersurface.h', 'hypersurface_nd.h', 'dr.h', 'dr_nd.h', 'dr/', 'hypersurface/', 'hypersurface_nd/'],
     [('forwarding overloads', 'zeta_function overloads, class constructors')],
     technique='argument-to-parameter flow (provenance) matching over ' + VN,
     note=TRUST + 'that options of one type keep their order from an overload to the general function (as declared).')
prop('C12', 'Verbosity never changes a result, and quiet calls print nothing',
     'The verbosity option affects only what is printed: no other value returned, stored or saved depends on it. With verbosity zero a call that succeeds prints nothing to standard output.',
     ['inputs', 'configurations'], 'every function taking a verbosity option, every value of it',
     'Tests run with one verbosity and do not compare results between verbosities.',
     ['dr/', 'dr_nd/', 'hypersurface/', 'hypersurface_nd/', 'wrapper/', 'tools/'],
     [('if(verbose) printing', 'throughout')],
     technique='information-flow (non-interference) taint analysis of the verbosity option with control dependence, and pruning of the program at verbosity zero',
     note=TRUST + 'that the clock is only read for printing, and that self-test reporting functions (test_*) and functions that exist to print are outside the claim.')
prop('C13', 'Turning assertions off changes nothing else',
     'A build with assertions disabled performs exactly the same computation as one with assertions enabled, apart from the checks themselves. No assertion has a side effect the program relies on.',
     ['programs', 'configurations'], 'every assertion and every conditionally compiled part of the library',
     'The tests only run one of the two builds.',
     ['tools.h', 'dr/', 'dr_nd/', 'hypersurface/', 'hypersurface_nd/', 'matrix/', 'tools/', 'wrapper/'],
     [('assert and assert_print', 'throughout')],
     technique='side-effect (purity) analysis of assertion expressions plus AST equivalence of the two preprocessed programs',
     note=TRUST + 'library functions taking arguments by value or const reference have no side effects; NTL/FLINT\'s own assertions are out of scope.')

prop('C15', 'Default precisions are complete and sufficient for every supported case',
     'For every dimension and degree with built-in defaults, every prime is covered by exactly one row. The vectors of each row have the lengths the cohomology dictates, the digits asked for determine every coefficient of the characteristic polynomial, and the truncation and working precision suffice for those digits, for every odd prime of the row.',
     ['inputs', 'configurations'], 'every row of the table of defaults and every odd prime it applies to, and every later edit of the table',
     'A row that is one digit short only fails for some polynomials at some primes; the tests visit a handful of rows.',
     ['tools/default_args.cc', 'matrix/charpoly_frob.cc'],
     [('table of precision, truncation and digits', 'tools/default_args.cc')],
     technique='path enumeration of the table from the source (' + VN + ' with interval feasibility) and exact arithmetic on every extracted row against the Hodge numbers and precision bounds',
     note=TRUST + 'the Hodge polygon and the published precision bounds (necessary conditions; for surfaces the truncation is only bounded from the untightened side). Primes above 400 are represented by the monotone tail of the last row; p=2 is ignored.')
prop('C30', 'A requested absolute precision is honoured or refused',
     'When the caller asks for the Frobenius matrix modulo a power of the prime, every column gets a truncation giving at least the digits asked for, only columns divisible by that power are left out, and the working precision covers the digits lost to denominators. The characteristic polynomial is lifted to the integers only if no column lost digits; otherwise it is reduced modulo the power asked for. Primes for which the formulas do not hold are refused.',
     ['inputs', 'configurations'], 'every requested precision, prime, dimension and mode',
     'A result with one digit too few looks like a right result; the tests compare few precisions.',
     ['wrapper/zeta_function.cc'],
     [('relative precision, truncation and working precision loops', 'wrapper/zeta_function.cc')],
     technique='symbolic comparison of each path of the precision loops with the precision formulas (' + VN + ')',
     note=TRUST + 'the precision formulas for p >= 2n + r themselves, and valuation_of_factorial and max returning what they are named for.')
prop('C14', 'Divisions that must be exact are never truncated',
     'Whenever the library divides big integers the quotient is only used after the remainder has been seen to be zero, or where the divisor divides by construction, as m! divides any product of m consecutive integers. A quotient that is not exact is refused and never silently rounded.',
     ['inputs'], 'every big-integer division of the library and every value of its operands',
     'On the inputs of the tests every such division is exact, so that a lost check of the remainder changes nothing there.',
     ['dr/', 'hypersurface/', 'matrix/charpoly_frob.cc', 'tools/binomial.cc', 'tools/'],
     [('DivRem and quotients', 'throughout')],
     technique='typestate of remainders over ' + VN + ', and recognition of quotients exact by construction',
     note=TRUST + 'that assertions are enabled, as in the build; test code is left out.')
prop('C31', 'Elementary vector, matrix and conversion routines hold for every size',
     'For operands of every compatible size, square or not, the elementary vector and matrix routines return the result of their defining formula, in a result of the right dimensions. These are scalar multiple, sum, difference, products of vectors and matrices (plain and transposed, over machine words, residues, flat mpz and fmpz arrays) and the trace. Conversions between the number and matrix representations keep every entry at its place, with its sign. Factorial, binomial and maximum range over exactly their defining index set.',
     ['inputs'], 'every size of vector and matrix, every entry',
     'The library itself uses few of these and mostly with square matrices, so the tests pass with a wrong stride or bound elsewhere.',
     ['vec_int64.h', 'vec_int64/diff.cc', 'conv.h', 'conv/', 'matrix.h', 'matrix/mul.cc', 'matrix/mul_tranpose.cc', 'matrix/transpose_mul_tranpose.cc', 'matrix/trace.cc', 'tools.h', 'tools/binomial.cc', 'tools/binomial_ZZ.cc'],
     [('elementary routines', 'vec_int64.h, conv.h, matrix.h, matrix/, tools.h')],
     technique='loop summarisation (families, sums, products and maxima over symbolic ranges) over ' + VN + ' and equality with the defining formula',
     note=TRUST + 'NTL, FLINT and GMP primitives; operands do not overlap; vectors and matrices are not empty where the formula starts with its first term.')
prop('C32', 'Relation, reduction and inclusion matrices have the entries of their definition',
     'Each cell of a matrix the de Rham objects build has the value of its definition, and no other cell is set. This holds for: the matrices of the relations (matrix_J, matrix_ND), whose column (i, monomial) holds the terms of x_i d_i f, or d_i f, times that monomial; the reduction matrices in a direction v (Jacobian method and non-degenerate method, at fixed base exponent or expanded in the number of steps), got from the solutions of the linear systems by the reduction formula; the inclusion matrices, which place a basis element in the space of its degree; the matrices of the final reductions and of the passage from the cokernels to the basis; their copies over the integers, equal entry by entry to the residue; and the powers of f used by the Frobenius.',
     ['inputs'], 'every polynomial, dimension, degree, direction v, row and column',
     'A wrong index or factor in a cell matters only for polynomials that reach it; the tests check the combined result on a few polynomials, and the variants over the integers hardly at all.',
     ['dr/matrix_J.cc', 'dr/compute_reduction_matrix_J.cc', 'dr/compute_reduction_matrix_J_ZZ.cc', 'dr/compute_inclusion_matrix_J.cc', 'dr/compute_final_reduction_matrix_J.cc', 'dr_nd/dr_nd.cc', 'hypersurface/compute_fpow.cc'],
     [('compute_reduction_matrix_*, compute_inclusion_matrix_*, compute_final_reduction_matrix_J, compute_coKernels_ND_to_basis, matrix_J, matrix_ND', 'dr/, dr_nd/dr_nd.cc')],
     technique='cell-wise normal forms of every store (cell, operation, value, index ranges, condition) over ' + VN + ', compared with the entries of the definition',
     note=TRUST + 'that the entries recorded in lib/entries.json, reviewed against the definitions, are the definition; the solutions of the linear systems and the lists of monomials are taken as given.')
prop('C17', 'A matrix computed on demand belongs to the key it was asked for',
     'The de Rham objects compute solution, inclusion and reduction matrices on demand and keep them in tables. Asking for a key returns the table\'s entry for exactly that key. An entry is filled only when there was none, under the key asked for, and never overwritten. The entry in another representation (big integers, expanded polynomials) comes from the entry of the same key, matrix by matrix, none left out. A lookup only discards what it computed itself, in another representation, after using it and when memory is to be saved.',
     ['inputs', 'histories'], 'every table, every key, every order of requests, with and without saving memory',
     'A wrong or stale entry depends on which keys were asked for before; the tests ask in one order and rarely save memory.',
     ['dr/', 'dr_nd/dr_nd.cc', 'dr.h', 'dr_nd.h'],
     [('get_ and compute_ functions over the tables', 'dr.h, dr_nd.h')],
     technique='key-term comparison of every table operation and answer, with membership facts, over ' + VN,
     note=TRUST + 'std::map; the contents of a freshly computed entry are the subject of other properties. Objects loaded from a file fill the tables in their constructor (see C06 to C08).')
prop('C18', 'Terms with the same exponent are added up, never lost or replaced',
     'Polynomials and forms are held as tables from exponents to coefficients. Wherever the library forms a product, a power, a substitution or a reduction step, a term whose exponent is already present is added to the entry there. No term overwrites, replaces or drops another, and a table reused from round to round is emptied in between. The k-th power of f is the product of every term of the power before with every term of f. A change of variables multiplies by the image of each variable once per unit of its exponent and adds up all expanded terms.',
     ['inputs'], 'every polynomial, exponent, matrix, direction and number of rounds',
     'Collisions of exponents at particular places and rounds depend on the polynomial; tests sample a few polynomials and rarely the less used variants.',
     ['hypersurface/', 'hypersurface_nd/', 'dr_nd/dr_nd.cc', 'tools.h', 'tools/change_of_variables_monomial.cc'],
     [('find, insert or add', 'hypersurface/compute_fpow.cc, frob_*, dr_nd/dr_nd.cc, tools.h')],
     technique='classification of keyed writes (add, enter when absent, replace) with membership facts, injectivity of keys over loops and per-pass path walk, over ' + VN,
     note=TRUST + 'exponent vectors added component by component, and that a coefficient that is zero may be left out.')
prop('C28', 'Reduction steps are evaluated at every base exponent and repeated in order',
     'The reduction in direction v is a matrix depending polynomially on the base exponent u: M_0 + sum of u_i M_(i+1) in the Jacobian method, the sum over the exponents e of u^e M_e in the non-degenerate one. Each single-step routine applies the whole polynomial at u, over residues (ZZ_p) and over integers (ZZ). The repeated routines over residues and integers apply the steps at u + x v for x = iterations - 1 down to 0, in that order, each exactly once; the FLINT repetition is left out but for one point. Over the integers every intermediate vector or matrix is reduced modulo the modulus in force. Where a table of differences is updated only within a box of rows and columns, the box of a level contains every non-zero entry of the coefficients of that and all higher powers.',
     ['inputs'], 'every base exponent, direction, vector and number of repetitions',
     'The tests compare a few exponents on small cases; single-step integer versions are hardly called, and an error in one term can cancel or vanish there.',
     ['dr/reduce_vector_J.cc', 'dr/reduce_vector_J_ZZ.cc', 'dr/reduce_vector_J_poly.cc', 'dr/reduce_vector_J_poly_ZZ.cc', 'dr/get_reduction_matrix_J.cc', 'dr/get_reduction_matrix_J_ZZ.cc', 'dr_nd/dr_nd.cc'],
     [('reduce_vector_*, get_reduction_matrix_*, get_ND_poly_flint', 'dr/, dr_nd/dr_nd.cc')],
     technique='linear-algebra summarisation (sums, products and iterations over symbolic ranges, non-commuting words) of each routine over ' + VN + ' and equality of normal forms with the defining polynomial',
     note=TRUST + 'that in the non-degenerate method the matrices of the highest total degree n+1 have a single non-zero row, the first, and no power of x exceeds n+1; the FLINT repetition is left out but for the box of the differences.')
prop('C29', 'Frobenius of a basis element is expanded and scaled by its series formula',
     'For a basis element e_i of pole order m and N terms, every routine computing its image applies the reductions to exactly the terms D(j) (f^j)_k p-multiples: for every pole order e from m + N - 1 down and j = e - m >= 0, each term k of f^j enters under the monomial k + e_i + (1,...,1), at the entry of that monomial, with coefficient (sum over i from j to N-1 of (-1)^j binomial(m+i-1, m-1) binomial(i, j)) times its coefficient in f^j times (p(m+N-1)-1)!/(pe-1)!. The sum of the reductions is multiplied by p^(n-1)/(p(m+N-1)-1)!, with the valuation split off exactly. The Frobenius matrix has these images as columns, one for every basis element with a positive number of terms for its pole order.',
     ['inputs'], 'every polynomial, prime, dimension, basis element and number of terms',
     'The tests run one of the five routines at the precision of a few examples, where p > n leaves the branches for small primes unused and low-order terms vanish modulo p^N.',
     ['hypersurface/frob_J_ZZ.cc', 'hypersurface/frob_J_ZZ_p.cc', 'hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc'],
     [('frob_J_ZZ, frob_J_ZZ_p, frob_matrix_J', 'hypersurface/'), ('frob_ND_ZZ, frob_ND_ZZ_p, frob_ND_flint, frob_matrix_ND', 'hypersurface_nd/hypersurface_nd.cc')],
     technique='summarisation of the loops (sums, products over symbolic ranges) over ' + VN + ' and equality of normal forms of each added term, its place, its condition and the final factor with the series formula',
     note=TRUST + 'the series formula itself, that divisions asserted exact are exact, and machine-integer arithmetic without overflow (the ZZ_p variants document one).')

# ------------------------------------------------------------------ outside the reach of static analysis
prop('C40', 'The zeta function computed is the one of the hypersurface',
     'For every smooth hypersurface over a prime field in the supported range, the polynomial returned is the numerator of its zeta function: its power sums count the points over every extension field.',
     ['inputs'], 'every smooth hypersurface, prime and precision', 'Point counts are feasible for tiny examples only.',
     ['wrapper/zeta_function.cc', 'matrix/charpoly_frob.cc'], [('whole pipeline', 'wrapper/zeta_function.cc')],
     na='An end-to-end arithmetic statement about values of residues; no sound static argument in reach bounds them. Its structural ingredients (terms, entries, precision, moduli, order of evaluation) are the subject of the other properties.')
prop('C41', 'The reduction of a form does not depend on the path of reductions taken',
     'Reducing a form along any admissible sequence of directions down to the cohomology basis gives the same class.',
     ['inputs'], 'every form, every admissible path', 'The library\'s own test_paths_J samples random paths.',
     ['dr/test_paths_J.cc', 'dr/reduce_vector_J.cc'], [('reduction matrices satisfy the cohomological relations', 'dr/, dr_nd/')],
     na='Equality of products of matrices over Z/p^N whose entries come from solving linear systems at run time; a static argument would have to prove the theorem of Griffiths-Dwork reduction for the computed solution. The entries and the evaluation of each step are covered by C28 and the properties on matrix contents.')
prop('C42', 'The two reduction methods agree',
     'For a hypersurface in general position, the Jacobian and the non-degenerate method give Frobenius matrices with the same characteristic polynomial to the precision claimed.',
     ['inputs'], 'every hypersurface in general position', 'Tests compare a handful of curves and surfaces.',
     ['hypersurface/frob_matrix_J.cc', 'hypersurface_nd/hypersurface_nd.cc'], [('frob_matrix_J and frob_matrix_ND', 'both classes')],
     na='Relates numerical results of two different algorithms in different bases; no sound static argument relates their run-time values.')
prop('C43', 'A change of variables does not change the zeta function',
     'The zeta function does not depend on the random change of variables that brings the equation into general position.',
     ['inputs', 'histories'], 'every equation and every invertible matrix drawn', 'Tests fix the seed of the generator.',
     ['tools/change_of_variables_monomial.cc', 'matrix/random_SL_matric.cc', 'wrapper/zeta_function.cc'], [('random SL matrix and substitution', 'wrapper/zeta_function.cc')],
     na='Numerical equality of results over all matrices. The parts that have a static argument are claimed elsewhere (C18 expansion of the substitution, C10 use of the search\'s result).')
prop('C44', 'Machine integers never overflow within the supported range',
     'No intermediate product or factor held in a machine integer exceeds its range for any supported prime, precision, degree and dimension.',
     ['inputs'], 'every prime, precision, degree and dimension supported', 'Overflow needs primes and precisions near the limits, where a test would run for days.',
     ['hypersurface/frob_J_ZZ_p.cc', 'tools/binomial.cc', 'dr/', 'dr_nd/'], [('int64_t counters and binomials', 'throughout')],
     na='The supported range is not stated in the code (p, N, n and d are unbounded parameters and the ZZ_p variants carry a FIXME saying they overflow), so that an interval analysis has no sound bound to start from; with any concrete bound it would alarm on the documented limitation.')
prop('C45', 'Every computation ends within the resources it announces',
     'Each search and each loop ends, and the memory-saving mode keeps at most the tables it needs.',
     ['inputs', 'configurations'], 'every input', 'Tests time a few small inputs.',
     ['wrapper/zeta_function.cc', 'dr/', 'dr_nd/'], [('random search with a bounded number of attempts', 'wrapper/zeta_function.cc')],
     na='Time and memory are run-time quantities depending on the density of good random matrices and on the allocator; no sound static bound is in reach. That the memory-saving mode returns the right entries is C17.')
