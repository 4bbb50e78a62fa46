prop('A01', 'Integer square and cube roots are exact', 'isqrt/isqrtc and icbrt/icbrtc return the exact floor/ceiling square and cube root for every argument of their documented range (isqrt/isqrtc also for negative arguments, mirrored), even though they start from floating-point roots. sqrtT/cbrtT agree with them for the integer types, is_square and is_cube hold exactly for perfect squares and cubes. The generic Newton iteration gives the same result.',
     [M + 'base.h', 'src/algorithm/math/base.cpp'], [('root correction loops', M + 'base.h')], 'x is one symbolic 64-bit value over the whole documented range; the IEEE root is abstracted to any value within 1 ulp of correct and refined on counterexamples; assertions q*q<=x<(q+1)^2 are discharged with squares as fresh monotone variables.', tests='tests sample a few hundred values near squares; rounding errors occur at isolated 60-bit values')
prop('A02', 'Integer division, gcd and power helpers obey their algebra', 'div_floor, div_ceil, div_round and multiple agree with exact rational rounding for all signs; gcd is the greatest common divisor, gcd_ex satisfies the Bezout identity, lcm is the least common multiple and gcd_max returns the largest divisor of b composed of primes of a. powT multiplies exactly y copies for every exponent; minT/maxT/bound/absT/sq/cb match their definitions.',
     [M + 'base.h'], [('gcd/gcd_ex/lcm/powT/div_*', M + 'base.h')], 'operands symbolic in bounded ranges (full 64-bit dividends with small divisors; full 64-bit exponents by counting multiplications in an abstract monoid).')
prop('A03', 'Bit manipulation helpers are exact at every width', 'All bit functions (counts, scans, reversal, byte swap, power-of-two rounding, logarithms, bit extraction/deposit, Gray code, next_combination, overflow-checked addition) equal their mathematical definition for every value of 8, 16, 32 and 64 bit types.',
     [M + 'bits.h', 'src/algorithm/math/bits.cpp'], [('SWAR steps and lookup tables', M + 'bits.h')], 'the argument is one symbolic value of full width; each function is compared with a per-bit definition by Z3.')
prop('B01', 'Modular arithmetic is exact for every modulus and value', 'For every modulus M and integer type, construction normalises any value to the congruent representative in [0, M), and modulo addition, subtraction, negation, multiplication (without losing high bits), division, inverse (0 when none exists) and power return the exact residue in [0, M). CONSTANT, STATIC and INSTANCE storage behave identically, and identityOf/zeroOf/castOf keep the modulus.',
     [S + 'modulo.h'], [('modulo_* functions and class modulo', S + 'modulo.h')], 'modulus and operands symbolic (add/sub/neg and 32-bit multiplication at full width; inverse and division for moduli up to the listed bound; 64-bit products with one small operand).')
prop('B02', 'Chinese remainder, Garner digits and Jacobi symbols are exact', 'chinese_remainder returns the unique solution below lcm(n1,n2), or (0,0) when the congruences are incompatible, for coprime and non-coprime moduli and for 64-bit results; garner returns in-range mixed-radix digits reproducing every remainder whatever the order of the moduli; jacobi equals the product of Legendre symbols for every non-negative n and odd m.',
     [M + 'modulos.h'], [('chinese_remainder, garner, jacobi', M + 'modulos.h')], 'remainders symbolic for each modulus pair/list; the conclusion (remainders, range) is checked modulo by modulo by Z3.')
prop('B03', 'Residue-group roots, orders and logarithms are complete', 'sqrt_cipolla, sqrt_hensel_lift(_p2) and sqrt_mod return exactly the square roots of a unit; multiplicative_order is the least positive exponent; primitive_root generates every unit (0 when none exists) and primitive_root_of_unity has maximal order. kth_roots(_of_unity) list exactly the k-th roots and the discrete logarithm functions (brute force, baby-giant, prime power, Pohlig-Hellman) return an exponent with a^x = b whenever one exists.',
     [M + 'modulos.h', 'src/algorithm/math/modulos.cpp'], [('sqrt_*, multiplicative_order, primitive_root, kth_roots, discrete_log_*', M + 'modulos.h')], 'the group is split per modulus by the solver, the witness element (root candidate, unit, exponent) stays symbolic, so completeness ("every root is listed") is a solver verdict.')
prop('C01', 'Prime sieves and multiplicative tables match their definitions', 'For every size n the sieve functions (primes, prime_pi, euler_phi, moebius_mu, prime_nu, divisor_sigma0/1, smallest_factor, factor) and the segmented versions over every window [b,e) fill exactly the documented entries with the mathematically defined value and touch no memory outside buffers of the documented size. prime_holder gives the same answers in any order of queries.',
     [M + 'primes.h', 'src/algorithm/math/primes.cpp', S + 'prime_holder.h'], [('sieve loops', 'src/algorithm/math/primes.cpp'), ('lazy tables', S + 'prime_holder.h')], 'sizes and windows are path choices, the index inspected is symbolic, every access is bounds-checked against exactly sized buffers.')
prop('C02', 'Factorization, primality and divisor enumeration are exact', 'miller_rabin accepts exactly the primes, factor_integer (Pollard rho and table based), factor_integer_slow and factor_out return the full prime factorization, and divisors, squarefree_signed_divisors, from_primes and fraction_reduce enumerate exactly what they document. divisor_sigma0, euler_phi and carmichael_lambda from a factorization match their definitions, and integer_digits/from_digits/integer_string round-trip.',
     [M + 'factorization.h', M + 'primes.h', S + 'prime_holder.h'], [('miller_rabin, pollard_rho, factor_integer', M + 'factorization.h'), ('divisors, digits', M + 'primes.h')], 'n is split per value by the solver up to the bound, the divisor that would contradict the answer is symbolic; strong pseudoprimes at the base-set limits are included.')
prop('D01', 'Segment and Fenwick trees answer every range query exactly', 'segment_tree, lazy_segment_tree and fenwick_tree return the fold, in order, of exactly the elements in [begin, end) for every size (power of two or not), every range and every history of updates (set, operator[] followed by rebuild of all/one/range, lazy range updates, point writes, add), also for non-commutative operations.',
     [C + 'segment_tree.h', C + 'lazy_segment_tree.h', S + 'fenwick_tree.h'], [('get/rebuild/propagate walks', C + 'segment_tree.h'), ('push down of lazy updates', C + 'lazy_segment_tree.h')], 'elements are symbolic letters of a free monoid (order and multiplicity visible in the result), range ends and update positions are path choices or symbolic indices.')
prop('D02', 'bit_vector behaves like a plain sequence of booleans', 'Every bit_vector operation (construction, indexing and bit proxies, set0/set1/flip, shifts by any amount, logic operators, comparison, hamming_distance, reverse, rotate_left/right, swap of ranges, two-range operations, push/pop/resize, to_string) acts exactly as on a sequence of independent booleans, for every length, alignment and word width, and never touches bits outside its range.',
     [C + 'bit_vector.h'], [('word-level loops with partial first and last words', C + 'bit_vector.h')], 'all bits are symbolic at once, lengths and offsets are path choices around the word boundaries (8 and 64 bit words), every result bit is compared with the boolean-sequence definition.')
prop('D03', 'Heap, disjoint set, lohi_map and sqrt_map keep their contracts', 'binary_heap always pops the least element and neither loses nor duplicates one (insert, rebuild, pop_front, sort); disjoint_set reports two elements in the same set exactly when united, with exact sizes and set count. lohi_map and sqrt_map behave as a map from key to value under any history of insert, [], erase, at, count (sqrt_map for all k and floor(max/k), also after reset_max and swap).',
     [C + 'binary_heap.h', 'include/altruct/structure/graph/disjoint_set.h', C + 'lohi_map.h', C + 'sqrt_map.h'], [('sift up/down', C + 'binary_heap.h'), ('union by rank', 'include/altruct/structure/graph/disjoint_set.h'), ('index of key', C + 'sqrt_map.h')], 'histories are path choices, values symbolic with the order type decided by forks of the comparator.')
prop('D04', 'Ordered containers stay sorted, complete and leak free', 'binary_search_tree, treap and rope behave as an ordered (set/multiset/multimap; rope: positional) container under any history of insert (with and without hint), erase (key, iterator, range, counted), find, lower/upper bound, equal_range, find_kth/order_of, iteration, copy, move, swap and clear, with correct sizes and duplicate handling (IGNORE, COUNT, STORE). The treap is heap ordered by priority, and every node is released exactly once.',
     [C + 'binary_search_tree.h', C + 'treap.h', C + 'rope.h'], [('insert/erase/rotations and size maintenance', C + 'binary_search_tree.h'), ('priority rotations', C + 'treap.h')], 'keys, priorities and operations are path choices (all order types), values symbolic; live heap objects are counted.')
prop('D05', 'link_cut_tree answers path queries of a changing forest', 'After any history of link and cut on rooted forests, link_cut_tree reports the correct root, connectivity, lowest common ancestor, depth, k-th ancestor and path aggregates for every node, and re-balancing accesses never change the represented forest.',
     [C + 'link_cut_tree.h'], [('splay and access', C + 'link_cut_tree.h')], 'histories of operations are path choices compared with an explicit parent array, node values symbolic.')
prop('D06', 'String indexes find every occurrence, order and palindrome', 'prefix_tree, aho_corasick_trie, suffix_array, palindrome_tree and direct_rmq agree with their definitions for every input string/array: word lookup and numbering under erase, number of matches in a text, suffix order with inverse and lcp, substring comparison, distinct palindromes with multiplicity/position/suffix links, and minimum of every range.',
     [XC + x for x in ('prefix_tree.h', 'aho_corasick_trie.h', 'suffix_array.h', 'palindrome_tree.h', 'range_minimum_query.h')], [('failure links', XC + 'aho_corasick_trie.h'), ('SA-IS and lcp', XC + 'suffix_array.h'), ('in-block masks and sparse table', XC + 'range_minimum_query.h')], 'letters are path choices (all strings up to the bound), array elements symbolic with comparisons decided by the solver.')
EG = 'include/altruct/structure/graph/'
prop('D07', 'The bounded allocator gives out distinct slots and carries trees', 'In every history of allocate and deallocate, bounded_contiguous_allocator gives out distinct slots of one contiguous range, throws bad_alloc exactly when the capacity is exhausted or n != 1, keeps contents and releases all memory. Copies take over the capacity only, moves and swaps carry the storage. binary_search_tree and treap on it hold exactly their elements through copies, assignments, swaps, moves and failed insertions.',
     [C + 'bounded_contiguous_allocator.h', C + 'binary_search_tree.h', C + 'treap.h'], [('allocate, deallocate, ensure', C + 'bounded_contiguous_allocator.h'), ('swap, copy', C + 'binary_search_tree.h')], 'operations, capacities and released slots are path choices, contents and keys symbolic; live memory is counted and every access is bounds- and lifetime-checked.', tests='no test instantiates the allocator; ownership bugs appear only after particular histories.')

prop('E01', 'Shortest paths and minimum spanning trees are optimal', 'dijkstra and floyd_warshall return exact shortest distances and consistent predecessors/next hops (floyd_warshall also for negative edges without negative cycles), with unreachable vertices at infinity, and prim_spanning_tree returns a spanning forest of minimum total weight rooted consistently. This holds for every graph, including parallel edges, self loops and ties, and every assignment of weights.',
     [XG + x for x in ('dijkstra.h', 'floyd_warshall.h', 'prim_spanning_tree.h')], [('relaxation order', XG + 'dijkstra.h'), ('next hop reconstruction', XG + 'floyd_warshall.h'), ('re-parenting', XG + 'prim_spanning_tree.h')], 'graph shapes are path choices, all weights symbolic; optimality conditions (triangle inequalities with a tight predecessor, cut exchange) are linear-arithmetic queries.')
prop('E02', 'Graph traversal, ordering and reachability are exact', 'graph keeps its vertices, edges and weights through add/delete/contract/deduplicate; iterative_dfs visits every allowed vertex once in depth-first order with closing events; in_degrees/topological_sort order every DAG. tarjan_scc yields exactly the strongly connected components in topological order, transitive_closure/transitive_reduction are exact (reduction minimal), and sat2 finds a satisfying assignment exactly when one exists.',
     [EG + 'graph.h'] + [XG + x for x in ('iterative_dfs.h', 'topological_sort.h', 'tarjan_scc.h', 'transitive_closure.h', 'sat2.h')], [('explicit stack DFS', XG + 'iterative_dfs.h'), ('low links', XG + 'tarjan_scc.h')], 'graphs/formulas are path choices (all of them up to the bound) with symbolic edge weights and witnesses, compared with reachability by definition.')
prop('E03', 'LCA and heavy-light queries are right for every forest', 'lowest_common_ancestor answers ancestor, k-th parent, depth and distance queries for all node pairs of every forest; heavy_light_decomposition(_ex) numbers nodes so that subtrees and chains are contiguous, and node/edge walks cover exactly the path between two nodes in order, with edges keeping their weights.',
     [XG + 'lowest_common_ancestor.h', XG + 'heavy_light_decomposition.h'], [('binary lifting', XG + 'lowest_common_ancestor.h'), ('chain walks', XG + 'heavy_light_decomposition.h')], 'forests and namings are path choices, query nodes symbolic or chosen, compared with parent-pointer walks.')
prop('E04', 'Flows, matchings and assignments are optimal', 'dinic_flow and push_relabel_flow (both selection rules) return a feasible flow of maximum value for every network and every capacities; bipartite_matching returns a maximum matching, also with parallel edges; hungarian returns an optimal (minimum or maximum cost) assignment, also when the object is reused.',
     [XG + x for x in ('dinic_flow.h', 'push_relabel_flow.h', 'bipartite_matching.h', 'hungarian.h')], [('level graph and blocking flow', XG + 'dinic_flow.h'), ('discharge', XG + 'push_relabel_flow.h'), ('potentials', XG + 'hungarian.h')], 'capacities and costs symbolic over fixed small networks, plus all unit networks as path choices; optimality by min-cut/all permutations as linear-arithmetic queries.')
prop('E05', 'Biconnectivity and chromatic polynomials match definitions', 'chain_decomposition, cut_edges, cut_vertices, biconnected_components, block_cut_tree and biconnectivity identify exactly the bridges, articulation points and blocks of every undirected simple graph, connected or not. chromatic_polynomial counts proper colourings for every number of colours, in all three representations.',
     [XG + 'chain_decomposition.h', XG + 'chromatic_polynomial.h'], [('chains of the DFS', XG + 'chain_decomposition.h'), ('deletion-contraction', XG + 'chromatic_polynomial.h')], 'graphs are path choices (all graphs up to the bound), compared with removal-based definitions and partitions into independent sets.')

prop('F01', 'Polynomial arithmetic is exact in every ring and field', 'For polynom: long and Karatsuba multiplication (also truncated, with aliased arguments, around the switch-over size, and through the polynom_mul hook) give the exact coefficients; addition, subtraction, negation, scaling, comparison, deg/lowest/is_power, reverse, evaluation, derivative and integral match their definitions. Division and remainder (long and Hensel) satisfy p1 = q*p2 + r with deg r < deg p2, and inverse(L) satisfies p*r = 1 up to x^L.',
     [S + 'polynom.h'], [('_mul_long, _mul_karatsuba, _mul', S + 'polynom.h'), ('quot_rem_long, quot_rem_hensel, inverse', S + 'polynom.h')], 'all coefficients symbolic (Z/2^32 for products, Z/5 and Z/7 where zero tests and division matter); degrees, truncation and aliasing are path choices; coefficients compared through the polynomial normal form / Z3.', tests='tests multiply a few fixed polynomials; a wrong split for one degree pair or a stale aliased coefficient stays invisible.')
prop('F02', 'Formal power series operations satisfy their equations', 'series operations are exact modulo x^N for every series with the documented constant term: arithmetic, inverse and quotient, shift by any amount (also beyond N), sub_mul, sub_pow, pointwise product/inverse/quotient, derivative, integral, make_exponential/make_ordinary, exp(a), of. composition equals Horner evaluation, reversion is the compositional inverse, ln and exp satisfy their differential equations, and pow equals repeated multiplication below and above its threshold, also for a zero constant term.',
     [S + 'series.h', S + 'polynom.h', M + 'ranges.h'], [('composition, reversion', S + 'series.h'), ('exp, ln, pow', S + 'series.h')], 'coefficients symbolic over small prime fields, N and exponents are path choices, the defining equation is checked coefficient by coefficient.')
prop('F03', 'Convolutions and Fourier transforms equal their defining sums', 'and/or/xor/max convolution, subset sums, their Moebius inversion and the subset convolution (fast and slow forms) equal the defining sums for all inputs and every permitted aliasing of the arrays. fft, fft_rec and root_wrapper over a finite field equal the discrete Fourier sum, and fft_cyclic_convolution, convolution and cyclic_convolution equal the ordinary/cyclic products for sequences of any lengths.',
     [M + 'convolutions.h', M + 'fft.h', S + 'root_wrapper.h'], [('radix-2 transforms', M + 'convolutions.h'), ('butterflies and bit reversal', M + 'fft.h')], 'all array elements symbolic (Z/2^32, or Z/17 where roots of unity or division are needed); sizes and aliasing are path choices; every output element is compared through the polynomial normal form.')
prop('F04', 'Linear recurrences, Bernoulli sums and range tables are exact', 'linear_recurrence(_next), fibonacci and the Lucas sequences equal the iterated recurrence for every order, coefficients, initial values and index; berlekamp_massey finds a recurrence no longer than the true one that reproduces the sequence. polynom_sum is the discrete integral, bernoulli_b satisfies the Bernoulli recurrence, monotonic_search and find_zeros locate the crossing of a monotonic polynomial and every real zero; the table builders of ranges.h (range, powers, factorials, inverse factorials, inverses) and maps (power, invert, invert_field, negate, alternate, accumulate, differentiate) match their definition for every length, including zero.',
     [M + 'recurrence.h', M + 'ranges.h', M + 'polynoms.h'], [('linear_recurrence, berlekamp_massey_poly', M + 'recurrence.h'), ('table builders', M + 'ranges.h'), ('polynom_sum', M + 'polynoms.h')], 'coefficients and initial values symbolic over small prime fields, order and index are path choices.')

prop('G01', 'Matrix algebra and Gaussian elimination are exact', 'matrix over any ring: +, -, *, scalar multiples, transpose, comparison, identity/zero, powers and in-place or aliased forms equal their entry-wise definitions. Over a field, gauss returns the true rank and an equivalent system, det is the determinant (0 exactly when singular), and inverse and division satisfy A*inv(A) = I for every invertible matrix.',
     [S + 'matrix.h'], [('products and aliased forms', S + 'matrix.h'), ('gauss, det, inverse', S + 'matrix.h')], 'ring identities over Z/2^32 by polynomial normal form; elimination over the field with 3 elements with all entries of 2x2 and 3x3 matrices (and right-hand columns) symbolic, compared with the Leibniz determinant and minors.', tests='tests use a handful of fixed matrices; pivoting on a zero, rank deficiency at a late column or an aliased row stays invisible.')
prop('G02', 'Quadratic, fraction, Moebius, vector types obey their algebra', 'quadratic (all storage kinds), complex, fraction, with_infinity, moebius_tr, vectorNd, vector2d, vector3d and galois_field_2: every arithmetic operator, in-place and self-aliased form equals its definition, comparisons are the documented total (lexicographic or numeric) order, identity/zero/cast keep the reference parameters. Fractions are always reduced with positive denominator, division inverts multiplication wherever the divisor is invertible, Moebius transformations compose and invert as functions including at infinity.',
     [S + x for x in ('quadratic.h', 'complex.h', 'fraction.h', 'with_infinity.h', 'moebius_tr.h', 'vectorNd.h', 'vector2d.h', 'vector3d.h', 'galois_field_2.h')], [('operators', S + 'quadratic.h'), ('normalisation', S + 'fraction.h'), ('infinity tables', S + 'with_infinity.h'), ('compose, inverse, apply', S + 'moebius_tr.h')], 'components symbolic over Z/2^32 (identities), small prime fields or small integers (division, gcd, infinities); formal fractions give the identities with division for every ring.')
prop('G03', 'Nimber arithmetic is the Conway field', 'nimber for 8 to 64 bit types: addition is exclusive or, multiplication is bilinear and follows the Fermat-power rules on powers of two (memoized or not), so that the product of any two nimbers is the Conway product. inverse, square root, lift and the fast product mul2 agree with it, level/high/low/join decompose every value, and comparisons are those of the representation.',
     [S + 'nimber.h'], [('mul, mul_pow2', S + 'nimber.h'), ('inverse, sqrt, lift, mul2', S + 'nimber.h')], 'operands symbolic bit vectors (whole 8-bit products, powers of two against general factors up to 64 bit), compared with the recursive definition.')
prop('G04', 'Geometric algebra products equal the basis-blade definition', 'cl3 rotor/vector/multivector and every pair of the plane-based (pga) element types: sums, differences, geometric, outer, inner and regressive products, reverse, conjugate, dual, norms and in-place or self-aliased forms equal the sums over basis blades; a % b is (-1)^m b a ~b for every versor b. Inverses satisfy a*inv(a) = 1 where the norm is invertible; points, lines, planes and translators meet, join and move as geometry prescribes.',
     [S + 'clifford3.h', S + 'pga.h'], [('products of rotor, vector, multivector', S + 'clifford3.h'), ('operators *, ^, &, |, % of all blade pairs', S + 'pga.h')], 'all components symbolic over Z/2^32 (polynomial normal form); element type pairs are path choices; inverses in the ring localised at the norm, multivector inverses over the field with 3 elements.')
prop('G05', 'double_int is two\'s complement arithmetic of any width', 'double_int over a wrapped machine word, nested to any width, behaves as two\'s complement integers: sums, differences, negation, pre and post increments, carries and borrows, signed and unsigned comparisons, bitwise operators, shifts by any count, leading zeros, sign extension from narrower values, truncated and full products, unsigned and truncating quotients and remainders, conversion to uint64_t and hexadecimal text.',
     ['experimental/include/altruct/structure/math/double_int.h'], [('assign_adc, assign_sbb, shifts', 'experimental/include/altruct/structure/math/double_int.h'), ('unsigned_mul_full', 'experimental/include/altruct/structure/math/double_int.h')], 'both operands symbolic bit vectors of 16 to 128 bits (products and quotients: a symbolic window of one operand against boundary values), compared with 128-bit machine arithmetic.', tests='the tests of this class are commented out.')

na('F08', 'Products of polynomials over modular integers use exact FFTs', 'polynom_mul over modulo<I> returns the exact product for every modulus below 2^32 and all lengths up to the documented limits, whichever of long, Karatsuba, floating-point FFT or CRT convolution is selected.', [M + 'polynom_mod.h'], [('_mul_fft, _mul_fft_big, _mul_fft_crt', M + 'polynom_mod.h')], 'the floating-point variants compute with sines and cosines from libm and their exactness is a rounding-error bound over sums of hundreds of double products; the CRT variant is a network of 32-bit modular multiplications. Both are far outside what Z3 decides, and with concrete coefficients nothing would be left for the solver. The long and Karatsuba products (F01) and the transforms over finite fields (F03) are claimed.')
prop('D08', 'lazy_treap keeps order and aggregates under range updates', 'After any history of insertions (sorted or before a position), erasures (by key, position or range), range updates, copies, moves and swaps, and for any priorities, lazy_treap holds the expected sequence in order as a heap-ordered tree with correct sizes. get(b, e) returns the aggregate of exactly the elements of the range in order (f_up need not be commutative), and every pending update reaches exactly the elements of its range before they are looked up or propagated down to.',
     [C + 'lazy_treap.h'], [('get, update, insert, erase', C + 'lazy_treap.h'), ('retrace_up, retrace_down, propagate_down_to', C + 'lazy_treap.h')], 'payloads, the base of the polynomial-hash aggregate and the affine updates are symbolic over Z/2^32 (polynomial normal form); key order types, priorities or whole tree shapes, operations and ranges are path choices.', tests='no test instantiates this class.')
na('H06', 'Clock, intrinsics and big-number adapters behave as documented', 'rdtsc_clock is monotonic and since() measures elapsed time; gmp_helpers adapts mpz to the algorithm templates with the meaning of the built-in integers.', ['include/altruct/chrono/chrono.h', M + 'gmp_helpers.h'], [('rdtsc_clock', 'include/altruct/chrono/chrono.h'), ('mpz adapters', M + 'gmp_helpers.h')], 'the clock is a hardware instruction whose value is not determined by the program, and GMP is not installed here (its arithmetic is hand-written assembly, so it could not be encoded either).')

prop('F05', 'Divisor, floor-quotient, prime and range sums are exact', 'Dirichlet convolution, division, inverse and Moebius transform equal the sums over divisors in the general, multiplicative and completely multiplicative forms; sieve_m, sum_m, sum_multiplicative(_34), sum_g_L, coprime_sum, the totient, sigma, square-free and Mertens sums and prime_power_sum/prime_pi (also by residue mod 4) equal their definition at every n and n/k. sum, sum_sqrt(2m, 2), sum_ratio (all signs), sum_pow (any modulus, any call order) and sum_powx equal the explicit sums; the reduce functions equal their folds for any contents.',
     [M + x for x in ('divisor_sums.h', 'sums.h', 'mertens.h', 'prime_counting.h', 'prime_pi.h', 'reduce.h')], [('dirichlet_*, sieve_m, sum_m, sum_multiplicative', M + 'divisor_sums.h'), ('sum_ratio, sum_pow', M + 'sums.h'), ('prime_power_sum_sqrt', M + 'prime_counting.h')], 'function values are free symbolic ring elements (arbitrary functions; multiplicative ones have free values at prime powers), n is a path choice, identities by polynomial normal form or over Z/5; tables without free functions are compared at a symbolic index.', tests='tests compare a few concrete functions (phi, mu, sigma) at a few n; a wrong boundary of the sqrt split or a missed prime power of another function stays invisible.')
prop('F06', 'Combinatorial enumeration, counting and permutations are exact', 'next_combination, next_partition and nth_permutation walk exactly the documented order, also with equal elements, empty ranges and indexes beyond d!; a permutation means the same in line, cycle and transposition notation, with product, inverse, quotient, power (any exponent), comparison and root(T, parity) that exists exactly when some permutation qualifies. Stirling and partition numbers, factorial tables, (multi)nomials and their prime exponents, and factorials/binomials modulo prime powers (slow and fast forms) equal their definitions.',
     [M + x for x in ('combinatorics.h', 'counting.h', 'comb_mod_pp.h', 'comb_primes.h')] + [S + 'permutation.h', S + 'factorial_holder.h'], [('next_combination, nth_permutation', M + 'combinatorics.h'), ('root, pow, cycles', S + 'permutation.h'), ('Granville binomials', M + 'comb_mod_pp.h')], 'contents and order types symbolic (forks of the comparison), permutations are path choices with symbolic points, non-existence of a root is refuted over a symbolic permutation, tables are compared at symbolic indexes.')
prop('F07', 'Approximations and quadratic equations are solved exactly', 'Continued fractions, convergents (with all semi-convergents) and sqrt_convergent are the best approximations, farey_neighbour is the neighbour of every order n, line_closest_lattice_point and minimize_floor_ladder return the optimum over the whole range, and decimal expansions and single digits are those of long division. squares_r(_list), cornacchia, pell1/pell/pellS and all triple generators (90, 60, 120 degrees, fixed leg, almost-pythagorean, generator trees) return every solution within the limits exactly once and nothing else; the figurate sequences satisfy their difference equations.',
     [M + x for x in ('convergents.h', 'fractions.h', 'sequences.h', 'squares_r.h', 'pell.h', 'triples.h')], [('continued fractions and ladders', M + 'convergents.h'), ('PQa and classes', M + 'pell.h'), ('representations', M + 'squares_r.h'), ('triple generators', M + 'triples.h')], 'the equation coefficients are path choices (or symbolic), the claimed-missing solution (x, y) or (a, b, c) and the competing lattice point are symbolic and refuted by the solver.')

AL = 'include/altruct/algorithm/'
prop('H01', 'Hashes, searches and the expression parser are exact', 'cumulative_hash returns the polynomial value of every substring for every modulus/base combination, hash operators invert each other, and tuple/pair hashes combine all components in order. kmp_search reports exactly the matches in order, binary_search_* the partition point of every monotone predicate; the collection helpers equal their definitions. infix_to_postfix followed by evaluation gives the value of the expression for every nesting of prefix, postfix, left and right associative operators, functions of any arity and lists; symbolic renders operators as written.',
     [AL + x for x in ('hash/polynomial_hash.h', 'hash/std_hash_combine.h', 'hash/std_tuple_hash.h', 'search/kmp_search.h', 'search/binary_search.h', 'collections/collections.h', 'parser/shunting_yard.h')] + [S + 'symbolic.h'], [('add, sub_shr, get', AL + 'hash/polynomial_hash.h'), ('failure function', AL + 'search/kmp_search.h'), ('pop_operators, argument counting', AL + 'parser/shunting_yard.h')], 'letters, thresholds, elements and operands symbolic; expression trees, precedence tables and parentheses are path choices compared with the postorder of the tree.')
IO = 'include/altruct/io/'
prop('H02', 'Readers and writers neither lose, add nor change bytes', 'For every byte content, buffer size and source chunking, any history of read_char/unread/read/skip/data/reserve/refill on file, string, buffered and fast readers follows one position in the input, with -1 and the error flag exactly at the end; read_string, read_line, integer and floating-point reads consume exactly their text and return its value over the whole range of the type. Any history of writes, formatted writes and flushes on the writers produces exactly the concatenation; numbers are written with all their digits and read back equal.',
     [IO + x for x in ('reader.h', 'writer.h', 'fast_io.h')], [('refill/reserve/unread', IO + 'reader.h'), ('buffered write, number formatting', IO + 'writer.h'), ('fast_read, fast_write', IO + 'fast_io.h')], 'bytes are symbolic, operations, buffer sizes and source chunks are path choices; the C stdio calls are replaced by scripted stand-ins; floating-point text is enumerated as path choices.', tests='tests read one fixed text with two buffer sizes; refill boundaries, bytes above 127 and extreme numbers stay untested.')
prop('H03', 'Random generators follow their recurrences and stay in range', 'integer_to_range stays inside [min, max] for all types and ranges including the whole type, biggest_multiple is the biggest multiple, and uniform_next maps the first acceptable draw by residue, hence without bias. xorshift_64star/1024star and mtrand produce their published sequences from every state and seeding, injectively; saved, loaded or copied generators continue identically and independently; bounded integers never exceed the bound and reals stay in their intervals.',
     [AL + 'random/' + x for x in ('random.h', 'xorshift.h', 'mersenne_twister.h')], [('integer_to_range, uniform_next', AL + 'random/random.h'), ('reload, tempering, save/load', AL + 'random/mersenne_twister.h')], 'states, draws and ranges are symbolic bit vectors (floating-point intervals decided by the FP theory of Z3), reference recurrences written independently.')
prop('H04', 'Parallel execution is race-free, complete and lossless', 'Under every interleaving of the worker threads, parallel_execute executes every job exactly once, collects every result once with its job, never uses provider, worker factory or collector from two threads at a time, creates at most one worker per thread, does not deadlock and returns only after all threads ended. range_job_provider partitions [begin, end) into consecutive jobs of the given length for all ranges of the type; LOCK runs its body once, alone, and releases the mutex on every exit.',
     ['include/altruct/concurrency/concurrency.h'], [('parallel_execute', 'include/altruct/concurrency/concurrency.h'), ('range_job_provider, LOCK', 'include/altruct/concurrency/concurrency.h')], 'std::thread, std::mutex and std::condition_variable are replaced by stand-ins over a scheduler whose every decision is a path choice (bounded preemptions); job contents and range bounds are symbolic.', tests='tests run with the schedules the machine happens to produce.')
prop('H05', 'Stream output shows every value; tokenizing inverts joining', 'The operator<< overloads write containers, pairs, fractions, modular integers, polynomials, vectors, matrices and geometric-algebra elements with every component once, in order and with the documented separators, in every combination of manipulators, which end with their scope. A token is the longest run of accepted bytes after white space and nothing beyond it is consumed; token lists and integer lists read back exactly the fields joined by any delimiters, keeping the stream flags.',
     [IO + 'iostream_overloads.h', IO + 'stream_tokenizer.h', 'src/io/iostream_overloads.cpp'], [('operator <<, manipulators', IO + 'iostream_overloads.h'), ('operator >> of token and tokens', IO + 'stream_tokenizer.h')], 'std::ostream and std::istream are replaced by stand-ins (items of characters and symbolic numbers; symbolic bytes with the rules of the standard for get, unget, ws and skipws); shapes and manipulators are path choices.')
