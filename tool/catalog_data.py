prop('S08', 'Headers are self-contained and compose in any order',
     'Every library header compiles when it is the only thing a program includes and when it is included more than once, and any set of library headers can be included together in any order without one hiding, breaking or changing another. What compiles against one header still compiles when the rest of the library is present.',
     ['programs'], 'for every subset of the library headers, every order of including them, and every program that compiles against one of them',
     'Each test includes one to four headers in one fixed order; none includes two headers that share a guard, relies on a header alone, or repeats one.',
     ['library'], [('include guards', 'first two directives of every header under library/'), ('#include lists', 'every header'), ('namespace suisen', 'every header')],
     'type checking of header compositions (g++ -fsyntax-only) plus include-guard/macro inventory',
     'Exhaustive over headers for alone/twice; every ordered pair of headers occurs in one of the whole-library orders; composition of uses is checked for the witness units. Trusts g++-10 front end; the ac-library submodule is replaced by declaration-level stubs.')

prop('S14', 'Every public operation compiles for every type meeting its contract',
     'Every public class and function of the library can be instantiated and every public operation can be called with argument types that offer exactly the documented operations (for example a monoid element that is not a number, a key with only a less-than), and operations that only read can be called on a const object. No public operation is ill-formed when first used.',
     ['programs'], 'for every program that names a public operation of the library with conforming argument types',
     'Template members are only compiled when used; the tests use a few members of about twenty headers with int-like arguments.',
     ['library'], [('member templates compiled on first use', 'every class template under library/'), ('const-qualification of queries', 'every class under library/')],
     'type-level witnesses: explicit instantiation and calls with opaque types, decided by the type checker',
     'Complete for the classes and functions named in the witness units (every member of an explicitly instantiated class is compiled); nothing is executed. Trusts g++-10 front end and the stubs for ac-library.')

prop('S07', 'Answers never depend on what was computed earlier in the process',
     'Apart from settings a program makes explicitly (a run-time modulus, hash bases, a chosen multiplication routine, a size cap), the answer of an operation depends only on its arguments and on the objects it is given: earlier calls, other objects and the order of unrelated calls never change it. Scratch space and tables shared between calls are left empty or extended consistently, also when a user-supplied function calls back into the library, and nothing depends on clock or entropy except through the seeding of random engines.',
     ['histories', 'programs'], 'for every sequence of earlier calls on any objects in the process, including calls made from inside user callbacks',
     'Each test starts a fresh process and drives one object through one sequence; leaked static state needs a second object, a re-entrant callback or a particular earlier call.',
     ['library'], [('function-local static scratch containers', 'library/datastructure/union_find/union_find.hpp, library/datastructure/bbst/*treap_base.hpp, library/datastructure/segment_tree/sortable_segment_tree.hpp, library/graph/low_link.hpp'),
                   ('static memo maps', 'library/datastructure/ZDD.hpp'), ('on-demand tables', 'library/math/factorial.hpp, inv_mods.hpp, pow_mods.hpp, library/string/rolling_hash_field.hpp'), ('static pools', 'library/datastructure, library/tree, library/util/pointer_32bit.hpp')],
     'inventory of static storage plus abstract interpretation of every local static, memo-key completeness, linear coverage of on-demand tables',
     'Covers every function and variable of every header, templates unresolved. Declared process-wide tables/pools are taken from a frozen (owner, type) list; their contents are only checked for the growth and invalidation rules. One modulus per modulus type and program is assumed for factorial-like tables.')

prop('S10', 'No value is read before it was given one',
     'Constructing any library object by any of its constructors gives every number, flag, pointer and array of them in it a definite value, no library function reads a local variable that some path leaves unassigned, and every function that promises a result returns one on every path. Results therefore never depend on leftover memory.',
     ['inputs', 'programs'], 'for every constructor call, every argument and every path through every function',
     'Leftover stack and heap memory is usually zero in a fresh test process, so an unassigned field or variable answers correctly there.',
     ['library'], [('constructors', 'every class under library/'), ('local variables', 'every function body under library/'), ('return statements', 'every value-returning function under library/')],
     'definite-assignment dataflow over every constructor and function body, missing-return analysis, default-member-initialiser inventory',
     'Every function and constructor of every header, templates unresolved; members called from constructors are followed. Aggregates and defaulted default constructors that leave scalars unset today are frozen in an inventory (the caller assigns them); array elements and pointees are not tracked.')

prop('S01', 'A version of a persistent structure never changes',
     'Every operation on a persistent structure (persistent arrays, segment trees, lazy and dual segment trees, the Fenwick tree, union-find and the red-black trees) leaves every version that existed before it exactly as it was: it neither assigns to a node that an older version can reach, nor frees one, nor changes the version object it was called on. Updating one version any number of times therefore never changes what another version answers.',
     ['histories', 'inputs'], 'for every version tree built by any sequence of operations, every argument, and every pair of versions sharing nodes',
     'A forgotten copy shows only when an older version is read again after a particular later update took a particular branch; the tests read a few versions after a few updates.',
     ['library/datastructure', 'library/util/object_pool.hpp'],
     [('path copying', 'library/datastructure/segment_tree/persistent_*.hpp, library/datastructure/persistent_*.hpp, library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp'),
      ('clone before change', 'library/datastructure/bbst/persistent_red_black_tree*.hpp'), ('versions as roots', 'library/datastructure/union_find/persistent_union_find.hpp')],
     'interprocedural ownership analysis (fresh/shared nodes) by abstract interpretation of every public operation of the instantiated structures',
     'Every public operation of every persistent structure as instantiated in witness/persist.cpp, all paths, recursion to a fixpoint. Operations whose documented meaning is to change a version in place (mut_set) or to release the pool are exempt. Monoid functions supplied by the user are taken not to reach nodes.')

prop('S06', 'Arguments outside the declared range are rejected before use',
     'Every operation that declares a range or precondition for its arguments (a position below the size, 0 <= l <= r <= n, matching sizes, a non-negative count, a non-empty container, a built object) checks all of it before it reads or writes anything with those arguments, aborts exactly when it does not hold, and accepts every argument inside the range, including the ends (an empty range, r == n, the last position).',
     ['inputs', 'programs'], 'for every argument value of every guarded operation, in every state of the object',
     'A failed guard aborts the process, so no test exercises the rejecting side, and tests rarely use the exact end points of every operation.',
     ['library'], [('assert() at the entry of public operations', 'every header under library/ with an assert'), ('range-check helpers', 'library/datastructure/bbst, library/datastructure/splay_tree_map.hpp, library/datastructure/range_foldable_map.hpp')],
     'symbolic prefix analysis of entry guards with interprocedural import, compared as difference constraints with frozen ranges',
     'All guarded operations of every header (templates unresolved). Linear conditions are compared exactly in both directions; conditions that are not linear, or that stand inside the body, are compared by kind and number only. The declared ranges were taken from the reviewed tree and frozen in witness/guards.json. Operations without a guard declare no range.')

prop('S09', 'Comparisons form consistent orders',
     'Every comparison operator of a library type answers consistently with the others of that type: x == x holds and x < x does not; == is symmetric and transitive; a < b and b < a never both hold and < is transitive; a != b is the negation of a == b, a > b is b < a, a <= b is the negation of b < a, a >= b is the negation of a < b, and equal elements are never ordered. Equality looks at every part of the value it compares today. Every comparator the library hands to a sorting algorithm or ordered container is a strict weak order.',
     ['inputs'], 'for all pairs and triples of values of every library type with comparison operators, and of elements the library sorts',
     'The tests compare a few integers; an inconsistent pair or a comparator that is not a strict weak order shows only on ties, negative values or equal prefixes, and then as undefined behaviour in std::sort.',
     ['library'], [('operator==, !=, <, <=, >, >=', 'every class under library/ that defines them'), ('comparators', 'every lambda or function object given to std::sort, nth_element, max_element, ordered containers')],
     'symbolic evaluation of every comparison body to a Boolean formula over key signs, decided by exhaustive enumeration of sign assignments and key ranks; path walk for looping bodies',
     'All comparison operators and comparators of every header. Loop-free bodies are decided exactly up to opaque sub-terms; looping bodies (bit sets, big integers, power series) for equal operands and for swapped operands at each return. Which parts an equality compares is frozen in witness/eq_fields.json. Key types are assumed totally ordered.')

prop('S13', 'Embedded tables and constants are mathematically right',
     'Every number written into the library that its answers depend on is the right one: Miller-Rabin bases are used only below the bound proved for them, prime and totient tables list the true values, wheel tables list the right residues and gaps, moduli used for number theoretic transforms and reconstruction are primes of the needed order and pairwise different with a product that covers the range, bit masks, shifts and word widths select exactly the intended bits and bit counts look at the whole word, size limits stay inside what the constants support, inverse and reciprocal constants are inverses, and neighbour offsets of grids are complete and distinct.',
     ['inputs'], 'for every input whose answer goes through one of the embedded constants',
     'A wrong table entry affects a sparse set of inputs (one pseudoprime, one residue class, one direction) that tests do not hit.',
     ['library'], [('base sets and thresholds', 'library/number/deterministic_miller_rabin.hpp'), ('prime, totient and wheel tables', 'library/number/*.hpp'), ('moduli', 'library/convolution/*.hpp, library/number/*.hpp'), ('bit masks', 'library/datastructure, library/number, library/util'), ('grid directions', 'library/util/grid_utils.hpp')],
     'constant extraction from the syntax tree of every header, each table recomputed or tested against its defining mathematical predicate; remaining literals against a reviewed inventory',
     'Every source line with an integer of at least 3, all constant arrays and all constant initialisers of every header, with the structure of the Miller-Rabin dispatch. Thresholds that only choose between equally correct algorithms and documentation-only numbers are exempt. Published bounds for Miller-Rabin base sets are taken as axioms.')

prop('S15', 'Operators of one type agree with each other',
     'For every library type with arithmetic, bitwise, shift or increment operators: a op= b leaves in a exactly what a op b returns and returns a itself; a - b is a + (-b) and -a negates every part; a / b written through multiplication multiplies by the inverse of b; multiplying or adding a scalar from the left and from the right agree; ++a is a += 1 where both exist; a++ and a-- return the old value and step in the right direction; the distance of two positions is the number of steps between them; element-wise operators combine equal positions with the operator itself over the same range; and a op= a works like the operator on two equal values.',
     ['inputs', 'programs'], 'for all operand values of every operator of every library type, including the same object on both sides',
     'The tests use a handful of operators on modular integers and bit sets; a wrong sign or operand order in one of some six hundred operators is never executed.',
     ['library'], [('operator families', 'library/number, library/polynomial, library/linear_algebra, library/math, library/algebra, library/integral_geom, library/util/*_ops.hpp'), ('iterator arithmetic', 'library/datastructure, library/util/step_view.hpp, library/string/substring_set.hpp')],
     'symbolic evaluation of operator bodies; delegation shape and polynomial normal forms compared within each family; element-wise loop pattern analysis',
     'All operators of every header. Loop-free operators are decided when they combine the bare operands or are polynomial in their fields; bodies with loops are decided for element-wise combination only; convolution-like products, division with remainder and shifts of whole containers are compared only through delegation.')

prop('S03', 'Products are taken in sequence order',
     'Wherever the library combines values with a product supplied by the user (segment trees of every kind, balanced trees, sparse tables, deque aggregation, link-cut and heavy path folds, doubling), the operand that stands earlier in the sequence is the left operand, so the answer is right for products that do not commute: left child before own element before right child, cell 2k before cell 2k+1, part collected from the left end before part collected from the right end, accumulators extended on the side they grow to. Trees that are split and joined again come back in the original order with new material between the parts, and a reversed subtree has its product turned around. Structures documented for commutative products are outside this property.',
     ['inputs', 'programs'], 'for every sequence, every range, every non-commutative product, at every place where two values or two trees are joined',
     'Most tests use sums, minima or products of numbers, which commute; a swapped pair of operands is invisible to them.',
     ['library/datastructure', 'library/tree', 'library/graph/functional_graph.hpp', 'library/range_query'],
     [('op(x, y)', 'every product call in library/datastructure, library/tree, library/range_query, library/graph/functional_graph.hpp'), ('merge / concat / split', 'library/datastructure/bbst, library/datastructure/*sequence*.hpp, *_map.hpp, sortable_segment_tree.hpp'), ('reverse_all, toggle', 'library/datastructure/bbst/reversible_*.hpp, library/tree/link_cut_tree_path_foldable*.hpp')],
     'order analysis of every product and concatenation: operands traced to sequence places (child side, index form, split part, accumulator direction), words checked for inversions',
     'All product and concatenation sites of every header, templates unresolved. A site whose operands cannot be placed is counted as not decided (36 of 214 today, nearly all of them joins of accumulators decided by a second rule or products of one element with itself). Structures for commutative products (Fenwick trees, contour sums, rerooting, weighted union-find) are excluded by name.')

prop('S02', 'Pending operations reach every element and stored products are never out of date',
     'In the trees that delay work (treaps, red-black trees, splay-based sequences and maps and link-cut trees with a pending reversal or operation; the array-based lazy and dual segment trees; the persistent and sparse lazy and dual segment trees) an operation or reversal applied to a range takes effect on every element of it exactly once and in the order the operations were issued: what is pending on a node is given to both of its children before it is cleared, a node is read, moved or modified only after everything pending above it was applied to it, a newer operation never replaces or goes below an older one, and the product stored in a node is recomputed whenever the node\'s children or value changed before anything reads it.',
     ['inputs', 'histories'], 'for every sequence of updates, reversals, splits, merges and queries with any arguments and any user-supplied operations',
     'A missed push or recomputation shows only when an operation is pending exactly above the place where a later operation restructures or reads the tree; the tests cover a few of these structures with random sequences.',
     ['library/datastructure', 'library/tree'],
     [('push / apply_all / update of the nodes', 'library/datastructure/bbst/*.hpp, library/datastructure/*dynamic_sequence.hpp, library/datastructure/*_map.hpp, library/tree/link_cut_tree*.hpp'), ('push_to / update_from', 'library/datastructure/segment_tree/lazy_segment_tree.hpp, dual_segment_tree.hpp'), ('path copying with push', 'library/datastructure/segment_tree/persistent_*_segment_tree.hpp, library/datastructure/bbst/persistent_red_black_*.hpp')],
     'interprocedural abstract interpretation with function summaries (pending-operation typestate, staleness of stored products) over the instantiated syntax trees; effect-trace rules for the array-based lazy trees',
     'Sound for the described heap abstraction up to the exemptions listed in DESIGN.md; whether the right range of nodes is selected and whether an operation is applied at all are not decided. The pool-indexed sparse lazy tree and the sortable tree are out of scope.')

prop('S16', 'Every tree node has exactly one owner',
     'In the structures that free their own nodes (splay-based sequences, maps and sets, range-foldable and lazy maps and sequences, binary tries, the sortable segment tree) no sequence of operations frees a node twice, uses a node after it was freed, leaves one node in two owning places, drops nodes that were split off, created or returned by a restructuring step (an object that goes away or is assigned over frees all of its nodes), or keeps a root that such a step has replaced: before a node is deleted everything below it that lives on is taken out of it, merging takes the nodes away from the other object, splitting hands out exactly what is cut off. An object whose destructor releases nodes, or that stores iterators into its own containers, is never copied member by member.',
     ['inputs', 'histories'], 'for every sequence of insertions, deletions, splits, merges, moves and queries, on every path through every operation',
     'A double free or lost subtree needs one particular shape or outcome (deleting an absent key, removing the last sibling, merging with an empty object, copying an object); the tests exercise few of these structures and do not run with memory checkers.',
     ['library/datastructure'],
     [('delete / nullptr hand-over', 'library/datastructure/dynamic_sequence.hpp, splay_tree_map.hpp, range_foldable_map.hpp, lazy_eval_map.hpp, binary_trie.hpp, binary_trie_patricia.hpp'), ('copy and move operations', 'library/datastructure/*.hpp, library/datastructure/segment_tree/sortable_segment_tree.hpp, library/util/object_pool.hpp')],
     'ownership analysis: interprocedural abstract interpretation over abstract heaps with function summaries, plus rules on the copy operations of owning classes',
     'Loops and recursion are joined: losing a node inside a loop is not reported where states were merged. Nodes held in a std::vector during an operation are treated as borrowed. Pool-allocated trees whose nodes are never released (treaps, red-black trees, persistent trees) have no owner to check.')

prop('S11', 'References never outlive what they refer to',
     'No library operation reads or writes through a reference, pointer, iterator or structured binding after the container element it refers to may have moved or gone (the container grew, was replaced, popped or had that element erased, directly or in a function it calls, such as one that takes a new node from a pool); no operation returns a reference, or a callable or update proxy, that refers to its own parameters or local variables; none loops over a container that the loop body makes grow; and none reads a value it has moved away, counting member initialisers in the order in which they run.',
     ['inputs', 'histories'], 'for every input and every history of growth, on every path through every library function, whatever the capacity of the containers happens to be',
     'A stale reference is harmless until the very operation at which the container reallocates, and then usually still reads the old value; the tests run without memory checkers and few structures grow in them.',
     ['library'], [('node pools and growing vectors', 'library/datastructure/segment_tree/sparse_segment_tree.hpp, library/string/palindromic_tree.hpp, library/string/suffix_automaton.hpp, library/string/trie_array.hpp, library/util/object_pool.hpp'), ('work lists', 'library/graph, library/tree'), ('update proxies', 'library/datastructure/segment_tree, library/util/update_proxy_object.hpp'), ('std::move', 'every header')],
     'interprocedural invalidation dataflow (which containers each function may grow) with escape and use-after-move rules over the syntax trees of all headers',
     'Sound for references held in local variables and handed to callees in the same header, up to aliases through raw node pointers and user callbacks that modify the container. Containers for which room is reserved in the same function, and elements of an inner container when the outer one grows, are taken to stay in place. References stored in members are not followed.')

prop('N01', 'Every algorithm returns the mathematically right answer',
     'Every query and algorithm (range folds, shortest paths, matchings, flows, convolutions, polynomial inverses and logarithms, primitive roots, suffix structures, ...) returns exactly the value its documentation defines, for every input.',
     ['inputs'], 'for every input of every public algorithm', 'Each needs an argument over unbounded run-time data.',
     ['library'], [('all algorithms', 'library/')],
     na='Functional correctness quantifies over run-time data that no sound static argument in reach can bound; deciding it would need proofs or execution. The structural preconditions of it (operand order, pending operations, constants, ownership, state) are claimed separately.')
prop('N02', 'Documented time and memory bounds are met',
     'Every operation meets its documented asymptotic cost (O(log n) amortised for splay trees, O(n log n) for convolutions, O(alpha(n)) for union-find, ...) on every input and history.',
     ['inputs', 'histories'], 'for every input and history', 'Needs amortised or number-theoretic arguments over run-time quantities.',
     ['library'], [('all algorithms', 'library/')],
     na='Amortised potentials, randomised depths and input-dependent loop counts cannot be bounded by a static rule here.')
prop('N03', 'Every operation ends',
     'Every library operation terminates on every input inside its precondition.',
     ['inputs'], 'for every input', 'Loop variants depend on run-time data.',
     ['library'], [('while loops', 'library/')],
     na='The loops of the number-theoretic, randomised and pointer-chasing algorithms end for reasons that depend on data (a root exists, a random draw succeeds, links are acyclic); a syntactic variant rule would either be unsound or alarm on correct code.')
prop('N04', 'Geometric predicates are robust',
     'Orientation, intersection and containment tests give consistent answers for every floating-point input, including degenerate ones.',
     ['inputs'], 'for every floating-point input', 'Needs rounding-error bounds for all inputs.',
     ['library/geom'], [('tolerances', 'library/geom')],
     na='Depends on rounding of run-time values against a fixed tolerance; there is no static bound that separates right from wrong answers.')
prop('N05', 'Hash-based comparisons are reliable',
     'Rolling hashes, tree hashes and Zobrist-style set hashes confuse two different inputs only with negligible probability.',
     ['inputs'], 'for every pair of different inputs', 'Probabilistic over the random bases.',
     ['library/string', 'library/tree'], [('random bases', 'library/string/rolling_hash*.hpp, library/tree/tree_isomorphism*.hpp')],
     na='A probability over random bases and all input pairs is not decidable by inspecting the source; that the bases and moduli are sound constants is part of S13.')
