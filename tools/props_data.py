NOTE = 'Seeded sampling, not proof: a clean batch is evidence over the runs it made. Real library code runs against a naive reference model; trusted: the model, the simulator, g++-10. '
CLAIMED = [
P('C01', 'Treap sequences answer like a plain array whatever the priorities',
  'For every interleaving of inserts, erases, sets, splits, concatenations, copies-by-move and range products on any number of randomised sequence containers (dynamic array, dynamic segment tree), every returned value and every later traversal equals that of an ordinary array holding the same elements. This holds for every outcome of the random number generator, for every number of containers alive at once and for every order in which their owners take turns. Reads, iteration, searches by lower/upper bound and product-threshold searches never change the contents. When a request for memory fails during an insertion, a construction or a split, every sequence keeps its contents, no node is lost or handed out twice, and the same operation succeeds once memory is back.',
  ['histories', 'schedules', 'configurations'], 'all operation histories over several simultaneously live containers x all random-priority outcomes x all memory layouts',
  'The tests run a fixed random stream over one container at a time with the engine seeded once; adversarial priorities (ties, monotone, extreme) and interleaved owners of the shared node pool are never tried.',
  [L+'datastructure/bbst/implicit_treap.hpp', L+'datastructure/bbst/implicit_treap_base.hpp', L+'datastructure/bbst/implicit_treap_segtree.hpp', L+'util/pointer_32bit.hpp'] ,
  [('split/merge by random priority', 'implicit_treap_base.hpp'), ('node pool shared by all containers of a type', 'implicit_treap_base.hpp, util/object_pool')], NOTE + 'Containers up to ~250 elements, up to 6 alive at once.'),
P('C02', 'Reversible and lazily-updated treap sequences answer like a plain array',
  'With range reversal and range updates added, sequence containers that keep aggregated products (plain, updatable by actions, and both) still return exactly what an array with eager reversal and eager updates returns, for non-commutative products and non-commuting actions. The answer does not depend on the random priorities, on which reads happened in between, or on pending work left by earlier splits, concatenations and searches. Erase, insert, split, concat, bound-search and product-search all respect reversals and updates issued before them. A failed request for memory leaves every sequence, with its pending work, as it was.',
  ['histories', 'schedules', 'configurations'], 'all histories mixing updates, reversals, splits, merges and queries over several live containers x all random-priority outcomes',
  'Tests use commutative products or a handful of operations and one random stream; pending flags meeting rare tree shapes are not reached.',
  [L+'datastructure/bbst/reversible_implicit_treap.hpp', L+'datastructure/bbst/reversible_implicit_treap_base.hpp', L+'datastructure/bbst/reversible_implicit_treap_segtree.hpp', L+'datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp', L+'datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp'],
  [('lazy reversal and lazy action pushed before descent', 'reversible_implicit_treap_*.hpp')], NOTE + 'Algebra: polynomial-hash words under affine maps (non-commutative); collisions have probability about 2^-61.'),
P('C03', 'Sortable sequence: range sorts, products and searches match an array',
  'A sequence of key-value entries that supports sorting any range in either direction returns, after every history of sorts, inserts, erases, value and key changes, splits and concatenations, exactly the entries, products and threshold-search results of an array that was really sorted. Products are taken in current sequence order even for non-commutative operations. This holds for every random-priority outcome and with several sequences alive at once.',
  ['histories', 'schedules', 'configurations'], 'all histories of sort/insert/erase/update/split/concat over several live sequences x all random outcomes',
  'No stable unit test runs this structure; an online-judge sample only sorts ascending/descending on one instance.',
  [L+'datastructure/segment_tree/sortable_segment_tree.hpp'],
  [('outer randomised tree of inner radix tries with direction flags', 'sortable_segment_tree.hpp')], NOTE + 'Distinct keys, as the documentation requires.'),
P('C04', 'Randomised number theory is exact for every random draw',
  'Integer factorization, primality testing, power towers modulo m, totients, primitive roots, multiplicative orders and discrete logarithms return the mathematically exact answer for every argument of their declared integer types, whatever the random number generator, hash seeds or earlier calls delivered. Only the running time may depend on the draws, and as soon as draws are no longer adversarial each call finishes within a bounded number of steps. Where no answer exists (no logarithm, no primitive root) that is reported, never an approximate or wrong value.',
  ['inputs', 'histories', 'schedules'], 'all argument values up to the declared type widths x all outcomes of the random draws x all orders of calls sharing static tables',
  'Tests factor a few numbers with one engine seed; repeated draws, the zero draw, cycles that collapse at once, prime powers and operands near the type limit are not reached.',
  [L+'number/fast_factorize.hpp', L+'number/deterministic_miller_rabin.hpp', L+'number/internal_eratosthenes.hpp' , L+'number/order_Z_mZ.hpp', L+'number/discrete_logarithm.hpp', L+'number/fast_discrete_logarithm.hpp', L+'number/montogomery.hpp'],
  [('Pollard rho with random polynomial constant', 'number/fast_factorize.hpp'), ('random candidates tested against the factorized group order', 'number/order_Z_mZ.hpp'), ('baby-step giant-step hash table', 'number/discrete_logarithm.hpp')], NOTE + 'Draws come from the simulated engine: fair, constant, tied, monotone, extreme, zero; progress is judged by a 20 s CPU watchdog per run of at most ~200 calls.'),
P('C05', 'Hash-based identity: equal contents always match, distinct ones differ',
  'Substring hashes (static, dynamic under insert/erase/set, and over a user field), set hashes built by toggling elements, and tree-isomorphism classes treat equal contents as equal for every random draw, every order of construction and every number of objects alive at once. When the draws are not adversarial, different contents of the same length get different 61-bit (or wider) hashes, and trees that are not isomorphic get different identifiers; the exact identifier table separates them for every draw. Concatenation, longest common prefix, rerooting and isomorphism witnesses derived from the hashes are correct, and rebasing between epochs does not disturb later results.',
  ['inputs', 'histories', 'schedules'], 'all contents and edit histories over several objects sharing bases, power tables, node pools and identifier tables x all random draws',
  'Tests hash a few strings under one engine state; edits that return to earlier contents, shared tables that grow between queries, zero or repeated draws and two-centroid trees are not sampled.',
  [L+'string/rolling_hash.hpp', L+'string/dynamic_rolling_hash.hpp', L+'string/rolling_hash_field.hpp', L+'util/zobrist_hash.hpp', L+'tree/tree_isomorphism_classification.hpp', L+'math/pow_mods.hpp', L+'number/modint_2^61m1.hpp'],
  [('random base drawn once, shared static power table', 'string/rolling_hash.hpp'), ('sequence hash as balanced-tree product', 'string/dynamic_rolling_hash.hpp'), ('lazily drawn per-element keys', 'util/zobrist_hash.hpp, tree/tree_isomorphism_classification.hpp')], NOTE + 'Distinctness is asserted only under fair draws and >=61-bit hashes (false-alarm probability below 2^-40 per check).'),
P('C06', 'Contour queries on trees do not depend on the random decomposition',
  'Structures that answer queries about all vertices at a given distance (or distance range) from a vertex start from a randomly chosen vertex. For every tree, every draw, every order of edge insertion and every history of point and contour updates, the reported sums, values and aggregates equal those computed by walking the tree. Two structures built over the same tree with different draws always agree, and several of them, their copies and moved-to and assigned ones included, may be alive and updated in turn.',
  ['inputs', 'histories', 'schedules'], 'all trees x all random start vertices x all interleavings of updates and queries over several structures',
  'Tests run one tree per problem with one engine state; wrong answers that need a particular start vertex, a star-shaped merge or a distance outside the tree are not reached.',
  [L+'tree/contour_sum.hpp', L+'tree/point_add_range_contour_sum.hpp', L+'tree/point_add_range_contour_sum_invertible.hpp', L+'tree/range_contour_sum_invertible.hpp', L+'tree/point_get_range_contour_add_invertible.hpp', L+'tree/point_get_range_contour_operate.hpp', L+'tree/point_set_range_contour_sum.hpp'],
  [('binary centroid decomposition from a random start', 'build() in each file')], NOTE + 'Trees up to 70 vertices, commutative aggregates as the structures require.'),
P('C07', 'Old versions of persistent structures never change',
  'Persistent arrays, persistent segment trees (plain, lazy, dual and commutative-dual), persistent Fenwick trees, persistent union-find and persistent balanced sequences hand out versions. For every branching history of updates, any version ever obtained keeps answering exactly as when it was created, no matter how many later versions were derived from it or from its siblings, in which order, and how many structures share the same node pool. Every new version equals its parent with exactly the requested change applied, including splits, concatenations and self-insertion, where one version appears several times in another.',
  ['histories', 'schedules', 'configurations'], 'all branching version histories x all interleavings of reads of old versions x all node-pool sharing patterns',
  'Tests walk one linear chain of versions and read the newest; writes that leak into a shared node only show when an older sibling is read later.',
  [L+'datastructure/segment_tree/persistent_segment_tree.hpp', L+'datastructure/segment_tree/persistent_lazy_segment_tree.hpp', L+'datastructure/segment_tree/persistent_dual_segment_tree.hpp', L+'datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp', L+'datastructure/fenwick_tree/persistent_fenwick_tree.hpp', L+'datastructure/persistent_array.hpp', L+'datastructure/union_find/persistent_union_find.hpp', L+'datastructure/bbst/persistent_red_black_tree.hpp', L+'datastructure/bbst/persistent_red_black_segment_tree.hpp', L+'datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp', L+'datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp'],
  [('copy-on-write nodes taken from a static pool', 'persistent_*.hpp')], NOTE + 'Versions up to ~60 per run; branches, old-version reads and pool sharing chosen by the seed.'),
P('C08', 'Red-black sequences sharing one node pool match independent arrays',
  'Red-black tree sequences (plain, with products, with lazy actions, reversible) answer every insert, erase, set, split, merge, range product, range action and reversal exactly as an array would, with any number of sequences of a type alive at once and drawing nodes from the same pool in any order. Trees stay balanced (the height is logarithmic in the length after every operation), and nodes of erased or freed sequences go back to the pool exactly once: repeated build-and-free cycles do not exhaust it and a freed node never shows up in a live sequence.',
  ['histories', 'schedules', 'resources'], 'all operation histories over several sequences interleaved on one pool of recycled nodes',
  'Tests drive one sequence from an empty pool; recycled slots, leaked or double-freed nodes and imbalance after unequal merges need long interleaved histories.',
  [L+'datastructure/bbst/red_black_tree.hpp', L+'datastructure/bbst/red_black_tree_base.hpp', L+'datastructure/bbst/red_black_segment_tree.hpp', L+'datastructure/bbst/red_black_lazy_segment_tree.hpp', L+'datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp', L+'util/object_pool.hpp'],
  [('merge/split by black height', 'red_black_tree_base.hpp'), ('shared static ObjectPool with recycling', 'util/object_pool.hpp')], NOTE + 'Sequences up to ~300 elements, up to 6 alive at once; reversible lazy trees with commutative products only, as documented.'),
P('C09', 'Link-cut forests track every link, cut and reroot exactly',
  'For every history of node creation, link, cut, reroot, path queries and path updates over any number of trees sharing the node pool, connectivity, lowest common ancestors, paths, vertex values, ordered path products and the effect of path updates equal those of an explicitly stored forest, for non-commutative products and non-commuting updates. The root after each operation is the documented one. Queries restructure the splay trees internally but never change any later answer, and a node in use is never handed out again.',
  ['histories', 'schedules'], 'all histories of link/cut/evert/query/update over all forests on a shared pool',
  'Tests replay a few judge inputs; interplay of pending reversals, pending updates and restructuring reads depends on long mixed histories.',
  [L+'tree/link_cut_tree_base.hpp', L+'tree/link_cut_tree.hpp', L+'tree/link_cut_tree_path_foldable.hpp', L+'tree/link_cut_tree_path_foldable_lazy.hpp', L+'util/object_pool.hpp'],
  [('expose / evert with lazy reversal', 'link_cut_tree_base.hpp'), ('lazy path action', 'link_cut_tree_path_foldable_lazy.hpp')], NOTE + 'Up to 80 vertices, 140 operations per run.'),
P('C10', 'Sparse segment trees over a shared pool match a full array',
  'A (lazily updated) segment tree over an index range as large as the index type allows, holding only touched nodes in a pool shared by all trees of its type, answers every point read, range product, point update, range update and whole-range update exactly like a full array with the given initial contents, whatever other trees do in between, including an update of another tree issued from within an update callback. Creating trees or updating others never changes a tree. If memory runs out during a read or a point update, or a user callback throws, the failure is reported and the contents stay as they were.',
  ['histories', 'schedules', 'faults'], 'all histories over several trees interleaved on one growing pool x all points where an allocation or a user callback may fail',
  'Tests use one tree of moderate range and never let an allocation or a callback fail, or nest two trees.',
  [L+'datastructure/segment_tree/sparse_segment_tree.hpp', L+'datastructure/segment_tree/sparse_lazy_segment_tree.hpp'],
  [('static growing node pool', 'both files'), ('children created on demand while pushing', 'sparse_lazy_segment_tree.hpp')], NOTE + 'Index types int, unsigned and long long up to their maxima; trees are distinct objects (copies of a tree share nodes and are not claimed).'),
P('C11', 'Set families in the shared ZDD table stay exact and canonical',
  'Families of sets are represented by nodes of one table shared by the whole program. For every history of union, intersection, difference, symmetric difference, toggling an item, selecting by presence or absence of an item, filtering by containing or contained sets, counting, longest-set and enumeration queries, over any number of families built in any order, each result is exactly the family defined by set algebra, equal families are always represented by the same node (so equality is a node comparison), and families obtained earlier never change. If memory runs out during an operation the failure is reported, and every family built before it and every later operation is still correct.',
  ['histories', 'schedules', 'faults'], 'all histories of family operations over a shared growing node table and memo caches x all points at which an allocation may fail',
  'The tests build one family per program and never let an allocation fail; stale memo entries and half-registered nodes only show in later, unrelated operations.',
  [L+'datastructure/ZDD.hpp'],
  [('static node arrays, unique table and operation memo shared by all families', 'datastructure/ZDD.hpp')], NOTE + 'Universe of up to 10 items; families are kept explicitly as sets of bit masks in the model.'),
P('C12', 'Lazily grown shared tables never change an answer',
  'Factorials, inverses, powers, small-prime binomial and Stirling tables, discrete square roots and the counting sequences and sums computed from them keep tables that grow on first use and are shared by all objects of a type. Every answer equals its definition modulo the prime for every order and size of requests, for every number of objects created, copied or destroyed in between, and when several results are used in one expression while a table grows. Indices at and beyond the modulus keep their defined value. If memory runs out while a table grows, the failure is reported, and all earlier and later answers are still correct; where the modulus may be changed at run time, values taken after the change belong to the new modulus.',
  ['histories', 'schedules', 'faults', 'configurations'], 'all orders of requests over shared growing tables x all points at which an allocation may fail x all moduli',
  'Each test process asks for one sequence from fresh tables of the largest size, so growth in unfavourable order, growth past the modulus and failed growth never happen.',
  [L+'math/factorial.hpp', L+'math/inv_mods.hpp', L+'math/pow_mods.hpp', L+'math/modint_extension.hpp', L+'math/factorial_large.hpp', L+'math/sum_i^d_r^i.hpp', L+'math/binomial_coefficient_sum.hpp', L+'sequence/*.hpp', L+'polynomial/formal_power_series.hpp', L+'polynomial/formal_power_series_relaxed.hpp'],
  [('static vectors grown by ensure()', 'math/factorial.hpp, math/inv_mods.hpp, math/pow_mods.hpp'), ('static tables of small-prime sequences', 'sequence/*_small_prime_mod.hpp')], NOTE + 'Sequences up to length 150, factorials up to 3000, prime moduli from 2 to 2^31-1. factorial / inverse tables belong to one modulus per type, as documented.'),
P('C13', 'Undo logs and offline replay restore exactly the earlier state',
  'A union-find with undo (with or without per-component data), after any history of merges, undos, snapshots and rollbacks, answers connectivity, component sizes, groups and component data exactly as if the undone merges had never happened; a merge that fails half-way (no memory, or a throwing user callback) changes nothing. Offline dynamic connectivity answers each query for exactly the edges present when it was asked, with duplicate edges, with repeated calls for the answers, and with queries added afterwards. The incremental window driver visits every query with exactly its range, never inverts or skips the window, and can be started again after a callback aborted it.',
  ['histories', 'faults', 'schedules'], 'all histories of merge/undo/snapshot/rollback over several objects x all points where an allocation or callback may fail; all add/delete/query histories',
  'Tests replay one judge input with no failures, one object and one request for the answers.',
  [L+'datastructure/union_find/undo_union_find.hpp', L+'datastructure/union_find/undo_union_find_component_sum.hpp', L+'algorithm/offline_dynamic_connectivity.hpp', L+'algorithm/offline_dynamic_connectivity_component_sum.hpp', L+'algorithm/mo.hpp'],
  [('history stack', 'undo_union_find.hpp: merge / undo / snapshot / rollback'), ('segment tree over query times', 'offline_dynamic_connectivity*.hpp'), ('window moves', 'mo.hpp')], NOTE + 'Up to 60 elements and 120 operations per run.'),
P('C14', 'Readers deliver exact values or report failure, however bytes arrive',
  'For every way in which the bytes of the input arrive (any sizes of pieces, any whitespace between values), the stream readers of the library (integers including 128-bit, strings, pairs, tuples, containers, modular integers, big integers, points, nimbers, affine maps) deliver exactly the value written in the text, leading zeros and negative zero included. When the input ends or the device fails before a value begins, the read is reported as failed, nothing crashes, and the target keeps its value (a returned value is the type default) instead of holding garbage. Several readers may be used in turn without affecting each other, and once a fault is cleared the same reader continues with the next value.',
  ['inputs', 'faults', 'schedules'], 'all value sequences x all fragmentations of the byte stream x all positions of end-of-input or device error x all interleavings of several readers',
  'Tests read well-formed input from one file; short reads, torn values, end of input and device errors never occur.',
  [L+'io/input_stream.hpp', L+'number/modint.hpp', L+'math/bigint.hpp', L+'math/unsigned_bigint.hpp', L+'integral_geom/point.hpp', L+'geom/geometry.hpp', L+'algebra/field/nimber.hpp', L+'algebra/monoid/affine.hpp', L+'algebra/monoid/affine_clamp.hpp'],
  [('generic reader and conversion on return', 'io/input_stream.hpp'), ('operator>> of the value types', 'files above')], NOTE + 'A value cut in the middle is only required not to crash and, after a device error, to be reported; malformed text is outside the property.'),
P('C15', 'Writers emit exactly their text, and a refused byte is never hidden',
  'The stream writers of the library (integers including 128-bit, strings, pairs, tuples, containers with any separators, modular integers, big integers, rationals, points, nimbers, affine maps, bit sets) deliver exactly the documented text of the values in order, whatever the buffer sizes of the sink, and the readers turn that text back into equal values. When the sink fills up, refuses part of a write or throws, the error shows in the stream state, no foreign exception escapes, and the sink holds exactly a prefix of the text with nothing written after the first refused byte; after the fault is cleared, writing continues normally. Several writers may be used in turn.',
  ['inputs', 'faults', 'schedules'], 'all value sequences x all sink buffer sizes x all positions at which the sink refuses or throws x all interleavings of several writers',
  'Tests write to a pipe that never fails and compare the final text of one run.',
  [L+'io/output_stream.hpp', L+'number/modint.hpp', L+'number/rational.hpp', L+'math/bigint.hpp', L+'math/unsigned_bigint.hpp', L+'integral_geom/point.hpp', L+'geom/geometry.hpp', L+'algebra/field/nimber.hpp', L+'algebra/monoid/affine.hpp', L+'algebra/monoid/affine_clamp.hpp', L+'datastructure/util/static_bitset.hpp'],
  [('generic writer, 128-bit printing, print / print_all', 'io/output_stream.hpp'), ('operator<< of the value types', 'files above')], NOTE),
P('C16', 'Timers report the time that really passed',
  'A timer reports, in the requested unit, exactly the whole number of units that passed since it was last started, for every sequence of starts, readings, copies and nested measurements and for every adjustment of the wall clock in between: the result is never negative, never runs backwards and does not change when the clock is stepped forwards or back. Measuring a procedure reports the time spent in that procedure, and an exception thrown by the procedure reaches the caller.',
  ['schedules', 'faults', 'histories'], 'all schedules of timer operations, passing time and wall-clock steps',
  'A test cannot step the clock of the machine; a run without clock adjustment never shows the difference.',
  [L+'util/timer.hpp'], [('start / elapsed / measure', 'util/timer.hpp')], NOTE + 'The simulated clock does not advance between two library calls unless the schedule says so.'),
P('C17', 'Disjoint-set forests stay exact, many alive at once, through failed requests',
  'Every union-find (plain, with component sums or bags, linked, lazily updated, weighted by a possibly non-commutative group, and with merge history) answers root, same, size, groups, component, sum, value, potential difference and past-time queries exactly as the partition given by the merges made on that object, for every interleaving of operations on any number of such objects and their copies. Although queries compress paths, no query changes an answer; a request that fails because memory ran out or a user operation threw leaves every object, the failing one included, answering as before the request.',
  ['histories', 'faults'], 'all interleavings of operations over several live union-finds with failing requests',
  'Tests use one structure with enough memory; damage from an interrupted query appears in a later query, possibly of another object.',
  [L+'datastructure/union_find/*.hpp'], [('path compression', 'datastructure/union_find/union_find.hpp'), ('merge / propagate', 'datastructure/union_find/union_find_lazy.hpp'), ('weight / merge', 'datastructure/union_find/weighted_union_find.hpp'), ('history forest', 'datastructure/union_find/merge_history_forest.hpp')], NOTE + 'Element operations that allocate (component bags) are not failed inside merge'),
P('C18', 'Graph solvers always answer for the graph as it is now',
  'A graph, matching, flow, spanning-tree, Euler-trail, colouring, satisfiability or project-selection object may be extended, (re)built, solved and queried in any order and any number of times, with many such objects and their copies alive at once: every answer is correct for exactly the edges, clauses and costs added to that object so far, repeated solving continues correctly from the current state, queries never change the graph, and a build, solve or query that fails because memory ran out leaves the object able to answer correctly when asked again.',
  ['histories', 'faults'], 'all orders of adding, building, solving and querying over several live solvers with failing requests',
  'Tests build once and query once on one object; leftovers of an earlier build, solve or failed request only matter for a later one.',
  [L+'graph/low_link.hpp', L+'graph/biconnected_components.hpp', L+'graph/two_edge_connected_components.hpp', L+'graph/block_cut_forest.hpp', L+'graph/kruscal.hpp', L+'graph/directed_eulerian_graph.hpp', L+'graph/undirected_eulerian_graph.hpp', L+'graph/bipartite_matching.hpp', L+'graph/dulmage_mendelsohn_decomposition.hpp', L+'graph/edge_coloring_of_bipartite_graph.hpp', L+'graph/min_cost_flow.hpp', L+'algorithm/horn_sat.hpp', L+'algorithm/two_sat.hpp', L+'optimization/project_selection_problem.hpp', L+'optimization/k_project_selection_problem.hpp'],
  [('build / add_edge', 'graph/low_link.hpp'), ('solve', 'graph/bipartite_matching.hpp'), ('eulerian_trail', 'graph/directed_eulerian_graph.hpp'), ('min_cost_flow_slope', 'graph/min_cost_flow.hpp'), ('min_cost', 'optimization/project_selection_problem.hpp')], NOTE + 'Small graphs against brute-force references; edges are added to a flow network before its first flow only; adding itself is not failed.'),
P('C19', 'Compressed graphs own their edges through copies, moves and edits',
  'A compressed adjacency graph, directed or undirected, weighted or not, and every copy, moved-to, assigned or swapped graph made from it, holds its own edges: pushing, inserting, erasing, sorting, editing, clearing and shrinking adjacency lists of one graph changes that list and nothing else, whatever happened to the graph it came from (including destruction), and iteration, reversal and depth-first search always report exactly its own current edges. A shrink that runs out of memory changes nothing.',
  ['histories', 'faults'], 'all interleavings of copying, moving, editing, shrinking and destroying several live graphs',
  'Tests use one graph that is never copied or moved; a list that still looks at another graph gives right answers until that graph changes or dies.',
  [L+'graph/csr_graph.hpp'], [('Graph, AdjacentList, shrink_to_fit, dfs_tree, GraphBuilder', 'graph/csr_graph.hpp')], NOTE),
P('C20', 'Self-adjusting maps and sequences stay exact while every access reshapes them',
  'Splay-tree maps, sets and sequences (plain, with range products, with lazily applied maps) answer every query exactly like the ordinary map or list given by the operations made on that object, for every order of insertion, removal, access by key and by index, proxy update, range product, range map, reversal, split, merge, concatenation, swap and move-assignment over any number of live objects. Every access, reads included, rebuilds the tree, yet no read changes an answer; an object that has been merged or moved away is empty and usable; a request that fails because memory ran out leaves every object, the failing one included, as before the request. All memory is returned when the objects die, also when a tree is as deep as it is large.',
  ['histories', 'faults'], 'all interleavings of operations over several live trees x all points at which an allocation may fail',
  'Tests drive one tree with enough memory; a link lost by one access shows only in a later access of possibly another object.',
  [L+'datastructure/splay_tree_map.hpp', L+'datastructure/splay_tree_set.hpp', L+'datastructure/range_foldable_map.hpp', L+'datastructure/lazy_eval_map.hpp', L+'datastructure/dynamic_sequence.hpp', L+'datastructure/range_foldable_dynamic_sequence.hpp', L+'datastructure/lazy_eval_dynamic_sequence.hpp', L+'util/update_proxy_object.hpp'],
  [('splay_by_key / splay_by_index / split / merge / insert', 'datastructure/splay_tree_map.hpp'), ('splay / reverse', 'datastructure/dynamic_sequence.hpp'), ('push / apply', 'datastructure/lazy_eval_map.hpp, datastructure/lazy_eval_dynamic_sequence.hpp')], NOTE + 'Reversal is exercised with commutative products only, because a node keeps one product.'),
P('C21', 'Object pools never hand out a slot twice, lose one, or leak an object',
  'An object pool (fixed or growing) and the shared 32-bit pointer pool hand out only slots that no live object occupies: live objects never share storage and keep their values and addresses for as long as they live, whatever is allocated, released and reallocated around them and however often the pool grows. Every object is constructed once and destroyed once; a released slot is handed out again. An allocation that fails, because memory ran out while growing or because the constructor threw, leaves the pool and every live object as before, loses no slot, and a later allocation succeeds.',
  ['histories', 'faults'], 'all interleavings of allocations and releases x all growth points x all points at which memory or a constructor may fail',
  'Tests never make growth or a constructor fail; a lost or doubled slot shows only after the pool wraps around.',
  [L+'util/object_pool.hpp', L+'util/pointer_32bit.hpp'], [('alloc / free / extension', 'util/object_pool.hpp'), ('alloc / free / free list', 'util/pointer_32bit.hpp')], NOTE + 'Copying or moving a pool with live objects is not claimed.'),
P('C22', 'Queues, heaps, hulls and range sets lose nothing under any history or failure',
  'Heaps, interval heaps, double-ended and ordinary priority queues, sums of the k first elements, queues and deques with running products, sliding-window minima, range sets, Fenwick-tree sets, convex-hull containers and slope-trick functions answer every query exactly as the multiset, sequence, set of integers, set of lines or convex function given by the operations made so far, for every order of operations and for every copy, moved-to, assigned, swapped and cleared object, empty ones included. A change of an object (assignments between objects aside) that fails because memory ran out leaves it answering as before; a product of a queue or deque that throws does too.',
  ['histories', 'faults'], 'all operation histories over several live objects x all points at which an allocation or a product may fail',
  'Tests drive one object with enough memory; a copy that still looks at its original or an element lost by a failed request shows only much later.',
  [L+'datastructure/heap/binary_heap.hpp', L+'datastructure/heap/interval_heap.hpp', L+'datastructure/double_ended_priority_queue.hpp', L+'datastructure/priority_queue.hpp', L+'datastructure/util/priority_sum.hpp', L+'datastructure/queue_aggregation.hpp', L+'datastructure/deque_aggregation.hpp', L+'datastructure/sliding_window_minimum.hpp', L+'datastructure/util/range_set.hpp', L+'datastructure/fenwick_tree/fenwick_tree_set.hpp', L+'datastructure/convex_hull_trick.hpp', L+'datastructure/monotonic_convex_hull_trick.hpp', L+'datastructure/slope_trick.hpp'],
  [('push / pop / rebalance', 'datastructure/heap/*.hpp, datastructure/double_ended_priority_queue.hpp'), ('pop_front / push_back', 'datastructure/queue_aggregation.hpp'), ('insert / erase', 'datastructure/util/range_set.hpp'), ('add_line', 'datastructure/monotonic_convex_hull_trick.hpp'), ('chmin_*, add_*', 'datastructure/slope_trick.hpp')], NOTE + 'No memory failures for sums of the k first elements; SlopeTrick::add_abs is not failed half-way; throwing comparators are not claimed.'),
P('C23', 'Tries and string automata stay exact through growth, copies and failures',
  'Tries (array, map), Aho-Corasick automata, palindromic trees, suffix automata, sets of substrings and binary tries (plain and path-compressed) answer every query exactly as the words, text or multiset of integers put into that object so far, for every order of additions, removals, rebuilds, clears, copies, assignments and swaps over several live objects; integers may be as wide as their type. An addition, rebuild or copy that fails because memory ran out changes no answer, and the object can be used and extended afterwards. All memory is returned when the objects die.',
  ['histories', 'faults'], 'all histories of growth, removal, rebuilding and copying over several live objects x all points at which an allocation may fail',
  'Tests build each structure once, in full, with enough memory; an edge to a node that was never made, or counts left by an earlier build, shows only later.',
  [L+'string/trie_array.hpp', L+'string/trie_map.hpp', L+'string/aho_corasick.hpp', L+'string/aho_corasick_array.hpp', L+'string/palindromic_tree.hpp', L+'string/suffix_automaton.hpp', L+'string/substring_set.hpp', L+'datastructure/binary_trie.hpp', L+'datastructure/binary_trie_patricia.hpp'],
  [('add', 'string/trie_array.hpp, string/trie_map.hpp'), ('add / build', 'string/aho_corasick.hpp'), ('add / clear', 'string/palindromic_tree.hpp'), ('append', 'string/suffix_automaton.hpp'), ('build', 'string/substring_set.hpp'), ('insert / erase / xor_*', 'datastructure/binary_trie.hpp, datastructure/binary_trie_patricia.hpp')], NOTE + 'A failed addition to an Aho-Corasick automaton asks for a new build; patterns are added to the array variant before its build.'),
P('C24', 'Online convolutions stay exact for streams that feed on their own output',
  'A relaxed or semi-relaxed convolution returns, for each appended term, the exact next coefficient of the product of the two sequences appended so far, where a term may depend on all earlier coefficients, for any length and for any interleaving of appends over any number of streams, copies, assigned and swapped streams. An append that fails because memory ran out or the convolution callback threw changes nothing: the coefficients already returned stay, and appending again continues as if the failed append had not been made.',
  ['histories', 'faults'], 'all interleavings of appends over several live and forked streams x all points at which an append may fail',
  'Tests append to one stream with enough memory; a block half added by a failed append, or state shared by two copies, shows only many appends later.',
  [L+'convolution/relaxed_convolution.hpp', L+'convolution/relaxed_convolution_ntt.hpp', L+'convolution/semi_relaxed_convolution.hpp', L+'convolution/semi_relaxed_convolution_ntt.hpp'],
  [('append', 'convolution/relaxed_convolution.hpp, convolution/relaxed_convolution_ntt.hpp'), ('append', 'convolution/semi_relaxed_convolution.hpp, convolution/semi_relaxed_convolution_ntt.hpp')], NOTE + 'Only coefficients that are already determined are claimed; the relaxed power-series streams are part of C12.'),
P('C25', 'Segment trees, Fenwick trees and bit sets answer for their own array, always',
  'Segment trees (plain, lazy, dual, compressed, two-dimensional dense and sparse, Li Chao, range chmin/chmax/add/sum, range assignment with products), Fenwick trees (plain, over a map, prefix, two-dimensional dense and sparse, compressed, rectangle add with rectangle sum) and bit sets (dynamic, static) answer every query exactly as the array, set of points, set of lines or sequence of bits given by the updates made to that object, for every history of updates through any of their interfaces and of queries, over several live objects and their copies, moved-to, assigned and swapped objects, empty and default-constructed ones included. A query whose product, map or predicate throws, and a copy, growth or addition of a node that runs out of memory, changes no answer of any object.',
  ['histories', 'faults'], 'all histories over several live objects x all points at which a query is interrupted or an allocation fails',
  'Tests use one object and operations that never throw; a map pushed twice by an interrupted query, or a bit beyond the end, shows only in a later answer.',
  [L+'datastructure/segment_tree/segment_tree.hpp', L+'datastructure/segment_tree/lazy_segment_tree.hpp', L+'datastructure/segment_tree/dual_segment_tree.hpp', L+'datastructure/segment_tree/commutative_dual_segment_tree.hpp', L+'datastructure/segment_tree/compressed_segment_tree.hpp', L+'datastructure/segment_tree/segment_tree_2d.hpp', L+'datastructure/segment_tree/segment_tree_2d_sparse.hpp', L+'datastructure/segment_tree/segment_tree_beats.hpp', L+'datastructure/segment_tree/li_chao_segment_tree.hpp', L+'range_query/range_chmin_chmax_add_range_sum.hpp', L+'range_query/range_set_range_composite.hpp', L+'datastructure/fenwick_tree/fenwick_tree.hpp', L+'datastructure/fenwick_tree/fenwick_tree_prefix.hpp', L+'datastructure/fenwick_tree/fenwick_tree_2d.hpp', L+'datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp', L+'datastructure/fenwick_tree/compressed_fenwick_tree.hpp', L+'datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp', L+'datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp', L+'datastructure/util/dynamic_bitset.hpp', L+'datastructure/util/static_bitset.hpp'],
  [('push / apply / prod / max_right / min_left', 'datastructure/segment_tree/lazy_segment_tree.hpp'), ('update', 'datastructure/segment_tree/segment_tree_2d_sparse.hpp'), ('add_segment', 'datastructure/segment_tree/li_chao_segment_tree.hpp'), ('mapping / composition', 'range_query/range_chmin_chmax_add_range_sum.hpp'), ('set / prod', 'range_query/range_set_range_composite.hpp'), ('add / sum', 'datastructure/fenwick_tree/fenwick_tree.hpp'), ('shifts, ranges, comparisons', 'datastructure/util/dynamic_bitset.hpp, datastructure/util/static_bitset.hpp')], NOTE + 'Faults are injected into queries, copies and growth, not into updates through a user operation; structures over several dimensions are used with commutative products; points are registered before the build.'),
P('C26', 'Indexes over sequences, points and texts answer for exactly their own data',
  'Sparse tables, bit vectors, wavelet matrices (plain and compressed), range-minimum indexes for plus-minus-one sequences, Cartesian trees, permutation trees, cumulative sums (one- and two-dimensional), step sums, indexes for range inversions, modes, mex under xor and distinct values, offline rectangle-add point-get and rectangle sums, coordinate compressors, offline dynamic convex hulls, xor bases and substring comparison answer every query exactly for the data given to that object, for every size including empty and default-constructed objects, every value the element type holds, and every history of building, rebuilding, copying, moving, assigning, swapping and destroying several live objects. A build or copy that fails because memory ran out leaks nothing and changes no other object; building again succeeds.',
  ['histories', 'faults'], 'all histories of builds, copies, moves, swaps and queries over several live indexes x all points at which a build runs out of memory',
  'Tests build one index once with enough memory and never copy, move or default-construct it; a copy that still looks at its original answers rightly until that changes or dies.',
  [L+'datastructure/sparse_table.hpp', L+'datastructure/bit_vector.hpp', L+'datastructure/wavelet_matrix.hpp', L+'datastructure/compressed_wavelet_matrix.hpp', L+'datastructure/cartesian_tree.hpp', L+'datastructure/permutation_tree.hpp', L+'algorithm/rmq_pm1.hpp', L+'algorithm/rmq_pm1_with_index.hpp', L+'util/cumulative_sum.hpp', L+'util/cumulative_sum_2d.hpp', L+'util/coordinate_compressor.hpp', L+'util/step_sum.hpp', L+'range_query/static_range_inversion_number_query.hpp', L+'range_query/static_range_mode_query.hpp', L+'range_query/static_range_xored_mex_query.hpp', L+'range_query/static range_count_distinct.hpp', L+'datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp', L+'datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp', L+'algorithm/dynamic_convex_hull_offline.hpp', L+'linear_algebra/xor_base.hpp', L+'string/compare_substring.hpp'],
  [('build / rank / select', 'datastructure/bit_vector.hpp'), ('succ / range_*', 'datastructure/wavelet_matrix.hpp'), ('build', 'datastructure/permutation_tree.hpp'), ('operator()', 'algorithm/rmq_pm1.hpp'), ('solve', 'datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp')], NOTE + 'The inversion index is asked for non-empty ranges only; assignment over a live index is not failed half-way; adding a line to the offline hull is not failed.'),
P('C27', 'Tree indexes and tree dynamic programs answer for exactly their own tree',
  'Lowest-common-ancestor and level-ancestor indexes, Euler tours, heavy-light decompositions (trees and forests, with folds and updates over paths and subtrees in path order), auxiliary trees, centroid decompositions (plain and weighted), centroids, tree paths, distance tables, rerooting (plain and invertible, with and without weights), static top trees and cursors on the Stern-Brocot tree give, for every shape, root and numbering of the tree and every history of building, rebuilding, extending, updating, copying, moving, assigning and swapping several live objects, exactly the answer that the definition gives for that object\'s own current tree. Paths decompose into logarithmically many heavy paths and centroids into logarithmically many levels. A build, query, fold or move that fails because memory ran out or a user function threw changes no answer and can be repeated; an interrupted rebuild of an auxiliary tree or update of a top tree is repaired by repeating it.',
  ['histories', 'faults'], 'all histories over several live objects and trees x all points at which an allocation or a user function may fail',
  'Tests build one index on one tree with enough memory and never copy it or interrupt it.',
  [L+'tree/lowest_common_ancestor.hpp', L+'tree/euler_tour.hpp', L+'tree/level_ancestor.hpp', L+'tree/heavy_light_decomposition.hpp', L+'tree/auxiliary_tree.hpp', L+'tree/centroid_decomposition.hpp', L+'tree/find_centroid.hpp', L+'tree/get_path.hpp', L+'tree/frequency_table_of_tree_distance.hpp', L+'tree/rerooting.hpp', L+'tree/rerooting_invertible.hpp', L+'tree/static_top_tree.hpp', L+'number/stern_brocot_tree.hpp'],
  [('fold_path_noncommutative / la / jump', 'tree/heavy_light_decomposition.hpp'), ('build', 'tree/auxiliary_tree.hpp'), ('build / collect', 'tree/centroid_decomposition.hpp'), ('run_dp', 'tree/rerooting.hpp, tree/rerooting_invertible.hpp'), ('update', 'tree/static_top_tree.hpp'), ('move_to', 'number/stern_brocot_tree.hpp')], NOTE + 'Non-empty trees; auxiliary trees are built from distinct vertices; queries between different trees of a forest are not made.'),
P('C28', 'Algebraic values stay exact and independent under aliasing and failure',
  'Big integers, dynamic, fixed-size, binary and circulant matrices, permutations, factorial-base numbers, rationals, formal power series (NTT, general, naive and array), quotients of series, sparse series stored as runs of terms, and set power series are values: every arithmetic operation, in place or not, gives exactly the mathematical result for the values the operands had when it was called, through histories in which results feed later operations, operands are the same object or a scalar inside it, and values are copied, moved, assigned and swapped; a copy never changes with its original, equal values compare and hash equal, and shapes include empty and default-constructed values. An operation that fails because memory ran out leaves the values of all its operands, and of every other object, as they were, and the operation succeeds when repeated.',
  ['histories', 'faults'], 'all histories of operations over several live values, aliased operands included, x all points at which an allocation may fail',
  'Tests evaluate one expression over fresh operands with enough memory; an operand overwritten while it is still read, or a value left half-updated, shows only with aliasing or failure.',
  [L+'math/unsigned_bigint.hpp', L+'linear_algebra/matrix.hpp', L+'linear_algebra/array_matrix.hpp', L+'linear_algebra/matrix_f2.hpp', L+'linear_algebra/circulant_matrix.hpp', L+'util/permutation.hpp', L+'number/factorial_number.hpp', L+'number/rational.hpp', L+'polynomial/fps.hpp', L+'polynomial/fps_naive.hpp', L+'polynomial/formal_power_series.hpp', L+'polynomial/array_fps_naive.hpp', L+'math/set_power_series.hpp', L+'math/array_set_power_series.hpp', L+'polynomial/rational_fps.hpp', L+'polynomial/vec_sparse_fps.hpp'],
  [('operator+=, -=, *=, /=, %=', 'math/unsigned_bigint.hpp'), ('operator*=, inv, pow', 'linear_algebra/matrix.hpp, linear_algebra/array_matrix.hpp'), ('operator*=', 'number/factorial_number.hpp'), ('compare / floor / ceil', 'number/rational.hpp'), ('operator*=, inv_inplace, diff_inplace', 'polynomial/fps.hpp, polynomial/formal_power_series.hpp')], NOTE + 'Arguments are admissible (no division by zero, no underflow); rationals stay within their integer type.'),
P('C29', 'Graph searches answer for their own graph, also after it changed',
  'Breadth-first search (plain, on the complement graph, and 0/1 over numbered or arbitrary nodes), shortest paths (general and on acyclic graphs), topological orders, cycle searches, functional graphs with their iterates, infinite paths and doubling tables (with and without products), and segment-tree graphs give exactly the answers that the definition gives for the graph as it was when the search was made or the table was built. Results, tables and copies keep answering for that graph when the graph object is changed, copied, moved, assigned or destroyed; paths and cycles that are returned follow edges of the graph, each edge once. A search whose user function threw or for which memory ran out leaks nothing, changes no answer of any object, and succeeds when it is repeated; an order that could not be added to a segment-tree graph leaves it as it was.',
  ['histories', 'faults'], 'all histories over several live graphs, results and tables x all points at which an allocation or a user function may fail',
  'Tests search one fresh graph once with enough memory; a table that still looks at its graph, or state that a failed search left behind, shows only when the graph changes or the search is repeated.',
  [L+'graph/bfs.hpp', L+'graph/bfs_complement.hpp', L+'graph/bfs01.hpp', L+'graph/dijkstra.hpp', L+'graph/topological_sort.hpp', L+'graph/functional_graph.hpp', L+'graph/segment_tree_graph.hpp', L+'graph/cycle_detection.hpp', L+'graph/single_source_shortest_path_dag.hpp'],
  [('distance / connected_components', 'graph/bfs.hpp, graph/bfs_complement.hpp'), ('dijkstra / path_to', 'graph/dijkstra.hpp'), ('doubling / max_step / step_until / infinite_paths', 'graph/functional_graph.hpp'), ('add_order / add_edge', 'graph/segment_tree_graph.hpp'), ('get_cycle_directed / get_cycle_undirected', 'graph/cycle_detection.hpp')], NOTE + 'Non-negative weights for shortest paths, sources without incoming edges on acyclic graphs, queries within the range the table was built for; adding an edge is not failed half-way.'),
P('C30', 'Helpers keep exact state across calls; user code may throw at any time',
  'Run-length encoders, vectors with a default value, strided views, two-variable linear equations, prefix sums of the Moebius and totient functions, streaming pattern matchers, convex inclusion tests and tree decompositions give the exact answer on every call of a history in which objects are filled, emptied, copied, moved, swapped, queried in any order and outlive what they were built from. Searches and optimisations driven by a user function (binary and ternary search, monotone minima, Lagrangian relaxation, clique and triangle enumeration, largest rectangle, increasing subsequences, dynamic programs on tree decompositions) call it within the documented domain only and return the exact optimum. A call that ends because the user function threw or memory ran out leaks nothing, leaves every other object and global table answering as before, and succeeds when repeated.',
  ['histories', 'faults'], 'all histories of calls over several live objects x all points at which an allocation or a user function may fail',
  'Tests call each helper once with enough memory; state carried between calls, and what a failed call leaves behind, show only in longer histories with faults.',
  [L+'util/run_length_encoder.hpp', L+'util/default_vector.hpp', L+'util/step_view.hpp', L+'util/search.hpp', L+'number/bezout_equation.hpp', L+'number/sum_of_mobius_function.hpp', L+'number/sum_of_totient_function.hpp', L+'number/mobius_function.hpp', L+'string/morris_pratt.hpp', L+'algorithm/monotone_minima.hpp', L+'algorithm/maximum_rectangle.hpp', L+'optimization/alien_dp.hpp', L+'graph/enumerate_cliques.hpp', L+'graph/enumerate_triangles.hpp', L+'graph/tree_decomposition_tw2.hpp', L+'graph/tree_decomposition_tw2_dp.hpp', L+'integral_geom/convex_hull_inclusion.hpp', L+'dp/longest_increasing_subsequence.hpp'],
  [('push_back / pop_back / swap / clear', 'util/run_length_encoder.hpp'), ('operator[] / resize', 'util/default_vector.hpp'), ('solve', 'number/bezout_equation.hpp'), ('operator() over cached sums', 'number/sum_of_mobius_function.hpp, number/sum_of_totient_function.hpp'), ('next', 'string/morris_pratt.hpp'), ('build / nice_decomp / run', 'graph/tree_decomposition_tw2.hpp, graph/tree_decomposition_tw2_dp.hpp'), ('monotone_minima / alien_dp', 'algorithm/monotone_minima.hpp, optimization/alien_dp.hpp')], NOTE + 'Arguments are admissible; tree decompositions are made for simple non-empty graphs.'),
]
NAR = 'Pure function of its arguments: there is no schedule, clock, entropy, I/O, allocator or shared mutable state for a simulator to decide, so generating inputs would be ordinary testing, not deterministic simulation. '
def N(id, title, statement, files, extra=''):
    return P(id, title, statement, ['inputs'], 'all inputs', 'Tests sample a few inputs of an infinite domain.', files, [('closed-form / transform algorithm', files[0])], NAR + extra)
NA = [
N('N01', 'Convolutions equal their defining sums', 'Every convolution (additive, subset, and/or/xor, gcd/lcm, min-plus, Dirichlet, multi-variate) returns exactly the defining sum for every pair of inputs.', [L+'convolution/*.hpp']),
N('N02', 'Power-series and polynomial operations satisfy their defining identities', 'Inverse, log, exp, sqrt, composition, division, multipoint evaluation and interpolation satisfy their defining identities to the requested precision for every admissible input.', [L+'polynomial/*.hpp', L+'math/*.hpp'], 'Series as values in histories with aliasing and failing memory, and the streams of online convolutions, are claimed separately.'),
N('N03', 'Deterministic number-theoretic functions are exact', 'Sieves, deterministic primality, multiplicative-function prefix sums, floor sums, linear equations and extended gcd return the exact value for every representable input.', [L+'number/*.hpp'], 'The randomised parts, and tables and equations that keep state between calls, are claimed separately.'),
N('N04', 'Linear algebra results satisfy their equations', 'Determinants, inverses, ranks, solutions, characteristic polynomials and matroid intersections satisfy their defining equations for every matrix.', [L+'linear_algebra/*.hpp'], 'Matrices as values in histories with aliasing and failing memory are claimed separately.'),
N('N05', 'Graph and tree algorithms return correct answers', 'Shortest paths, connectivity decompositions, matchings, flows and tree queries return the mathematically correct answer for every graph.', [L+'graph/*.hpp', L+'tree/*.hpp'], 'Independence from earlier calls, memory and entropy is claimed separately.'),
N('N06', 'String algorithms return correct answers', 'Suffix arrays, Z-, prefix- and palindrome functions and run enumeration return the correct arrays for every string.', [L+'string/*.hpp'], 'Hash-based string comparison and the automata that grow online are claimed separately.'),
N('N07', 'Geometry predicates and constructions are correct', 'Predicates and constructions on points, segments, circles and polygons agree with exact geometry up to the stated tolerance.', [L+'geom/*.hpp', L+'integral_geom/*.hpp']),
N('N09', 'Optimisation and DP routines return optimal values', 'Monotone-minima, LIS, optimal-stopping, knapsack and related routines return optimal values whenever their documented preconditions hold.', [L+'algorithm/*.hpp', L+'dp/*.hpp', L+'optimization/*.hpp'], 'Routines driven by a user function that may throw, and repeated after failure, are claimed separately.'),
N('N10', 'Counting sequences are exact', 'Enumerated combinatorial sequences (Stirling, Bernoulli, partition, Eulerian and similar) equal their definitions modulo the given prime for every length.', [L+'sequence/*.hpp']),
]
