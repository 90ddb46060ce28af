#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Union, intersection and difference compute exact set algebra",
  "Every decision diagram denotes a set of (possibly nested) assignments, and for all diagrams over the same variables the union, the intersection (of two or of any number of operands, in any order and with repetitions) and the difference denote exactly the union, intersection and difference of the operands' sets. This holds for flat and hierarchical diagrams of any depth, for every value-set representation, and whether the operator, the in-place operator or the n-ary form is used.",
  ["inputs", "programs", "configurations"],
  "all tuples of compatible diagrams, all shapes, all arities, all shipped configurations",
  "The tests compare a few dozen hand-written pairs; the algorithms have case splits (n-ary flattening, pairwise partition refinement, square union, early exits) whose combinations grow with arity, width and depth.",
  ["sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/dd/nary.hh", "sdd/dd/square_union.hh", "sdd/dd/alpha.hh", "sdd/dd/definition.hh"],
  [("n-ary union by partition refinement", "sdd/dd/sum.hh"), ("n-ary intersection by successive refinement", "sdd/dd/intersection.hh"), ("binary difference", "sdd/dd/difference.hh"), ("operand flattening, sorting and terminal shortcuts", "sdd/dd/nary.hh"), ("merging of arcs with the same successor", "sdd/dd/square_union.hh")],
  [("denotation", "the set of assignments of a diagram", "spec/SddSem.tla")],
  ["return of every set operation: the arcs of the result"])

p("C02", "Canonical form: equal sets are the same diagram, different sets differ",
  "Two diagrams alive at the same time compare equal, and hash equally, if and only if they denote the same set over the same variables, whatever sequence of constructions, operations, homomorphism applications, cache clearings and deletions produced them. Every non-terminal diagram is stored in canonical form: at least one arc, non-empty and pairwise disjoint valuations, non-empty and pairwise distinct successors.",
  ["inputs", "histories", "configurations"],
  "all pairs of live diagrams after any history of public calls",
  "Canonicity is a relation over all construction routes of the same set; the tests check chosen pairs of routes and never after reclamation or table growth.",
  ["sdd/dd/definition.hh", "sdd/dd/alpha.hh", "sdd/dd/node.hh", "sdd/dd/square_union.hh", "sdd/mem/unique_table.hh", "sdd/mem/unique.hh", "sdd/util/hash.hh"],
  [("unification of nodes in a unique table", "sdd/mem/unique_table.hh"), ("canonical alpha construction", "sdd/dd/alpha.hh"), ("square union", "sdd/dd/square_union.hh")],
  [("live nodes", "the nodes reachable from live handles", "spec/SddSem.tla")],
  ["operator==, std::hash and the arcs of every live diagram after each public call"])

p("C03", "Incompatible operands are refused and leave the library intact",
  "When the evaluation of a union, intersection or difference has to combine diagrams that are not over the same variables (different variable, flat against hierarchical, non-empty terminal against node) it raises the dedicated exception naming the operands, never returns a wrong diagram, and never corrupts anything. After the exception every live diagram still denotes the same set, later operations give exact results, and repeating the call raises again.",
  ["inputs", "histories", "fault_sequences"],
  "all incompatible operand pairs and tuples, at any depth, at any point of a history, repeated any number of times",
  "The tests check that an exception is raised for a few pairs, never what survives it: memory of the half-built result, the cache, the allocator and later results.",
  ["sdd/dd/top.hh", "sdd/dd/check_compatibility.hh", "sdd/dd/sum.hh", "sdd/dd/intersection.hh", "sdd/dd/difference.hh", "sdd/mem/cache.hh"],
  [("on-the-fly compatibility check", "sdd/dd/check_compatibility.hh"), ("cache insertion after evaluation only", "sdd/mem/cache.hh"), ("arena rewinding on scope exit", "sdd/mem/linear_alloc.hh")],
  [], ["exception or return of each set operation; later results"])

p("C04", "The reported number of combinations is the exact cardinality",
  "For every diagram, however large or deeply nested, the reported size equals the number of assignments it denotes: 0 for the empty diagram, 1 for the unit diagram, and exact arbitrary-precision values beyond machine integers. The count never depends on sharing inside the diagram nor on earlier counts.",
  ["inputs", "histories"],
  "all diagrams, including counts beyond 64 and 128 bits",
  "The tests count six small diagrams; sharing, several arcs to the same node, hierarchical valuations shared with successors and very large counts are not reached.",
  ["sdd/dd/count_combinations.hh", "sdd/dd/definition.hh", "sdd/values/size.hh"],
  [("memoised recursive count", "sdd/dd/count_combinations.hh")], [], ["SDD::size()"])

p("C05", "Path enumeration yields every path of the diagram exactly once",
  "Enumerating the paths of a non-terminal diagram yields a finite sequence of value-set tuples, variables in order with nested variables expanded in place, such that every assignment of the diagram belongs to exactly one tuple and every assignment covered by a tuple belongs to the diagram. Terminal diagrams yield one empty path, enumeration can be abandoned at any point, and neither enumeration nor abandoning it changes any diagram.",
  ["inputs", "histories"],
  "all diagrams, and all points at which the consumer stops",
  "The tests enumerate a handful of diagrams to the end; early abandonment, nesting of several levels and several live generators are not exercised.",
  ["sdd/dd/path_generator.hh", "sdd/dd/path_generator_fwd.hh", "sdd/dd/sdd_stack.hh"],
  [("coroutine visiting arcs with an explicit continuation stack", "sdd/dd/path_generator.hh")], [], ["paths()"])

p("C06", "Handles are immutable values: what a live handle denotes never changes",
  "Whatever sequence of copy, move, swap, assignment (including self-assignment and assignment from a sub-diagram of the target), destruction, operations and cache activity happens, each live diagram or homomorphism handle keeps denoting the same object, bit for bit. No storage is used after it was released, and an object is released as soon as nothing (handle, other object, cache) refers to it, so that once all handles and caches are gone nothing remains allocated.",
  ["histories", "programs"],
  "all finite histories over any number of handles",
  "Lifetime errors depend on the order of increments, decrements and reuse of freed storage over long histories; the tests cover single assignments with a mock object.",
  ["sdd/mem/ptr.hh", "sdd/mem/unique.hh", "sdd/mem/unique_table.hh", "sdd/mem/variant.hh", "sdd/dd/definition.hh", "sdd/hom/definition.hh", "sdd/values/flat_set.hh"],
  [("intrusive reference counting", "sdd/mem/ptr.hh"), ("deletion handlers", "sdd/internal_manager.hh")],
  [("reference counts", "number of owners of each unified object", "spec/Ptr.tla")],
  ["structure dump of all live handles; live-object statistics; allocation balance at shutdown"])

p("C07", "Tuning parameters and history never change a result",
  "The result of a program over diagrams and homomorphisms is the same set, whatever the sizes of caches, tables and scratch buffer, however often the homomorphism cache is reset, entries are evicted or nodes reclaimed, and whatever was computed before. A result served from a cache is the result that recomputation would give.",
  ["configurations", "histories", "programs"],
  "all sizes (0 and 1 included), all histories; user code that is truthful (equality, selector, shifter, skip) and behaves the same under every order it is applied with",
  "All tests run one configuration with caches that never fill and a scratch buffer that never overflows.",
  ["sdd/mem/cache.hh", "sdd/mem/cache_entry.hh", "sdd/mem/linear_alloc.hh", "sdd/mem/hash_table.hh", "sdd/hom/evaluation.hh", "sdd/hom/context.hh", "sdd/dd/context.hh", "sdd/internal_manager.hh"],
  [("operation keys compared by full equality", "sdd/hom/evaluation.hh, sdd/dd/nary.hh"), ("LRU eviction", "sdd/mem/cache.hh"), ("fallback of the scratch arena to the heap", "sdd/mem/linear_alloc.hh")],
  [], ["results of the same program under different sizes"])

p("C08", "Operation cache: bounded, least-recently-used, exact and exception safe",
  "The operation cache returns for each operation the result of evaluating it, evaluates an operation again only if it was never cached, was evicted, cleared or is excluded by a filter, never holds more entries than its fixed capacity, and evicts exactly the least recently used entry when full. An evaluation that throws leaves no entry behind, clearing empties the cache completely and leaves it usable like a new one, and the hit, miss, filtered, discarded and size statistics count exactly these events.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of lookups (including nested lookups made by an evaluation), throws and clears, for all capacities (a requested capacity of 0 is one)",
  "The tests do six insertions into a cache of 100 entries: no eviction, no nested lookup, no clear, no reuse after an exception.",
  ["sdd/mem/cache.hh", "sdd/mem/cache_entry.hh", "sdd/mem/lru_list.hh", "sdd/mem/hash_table.hh"],
  [("LRU list spliced on hit", "sdd/mem/cache.hh"), ("insert_check / insert_commit around evaluation", "sdd/mem/cache.hh"), ("fixed pool of entries", "sdd/mem/cache.hh")],
  [("entries", "operations cached, in recency order", "spec/Cache.tla")],
  ["evaluation callback, return value, statistics"])

p("C09", "Hash and unique tables keep one representative per value",
  "For every sequence of insertions, erasures, clears and automatic growth, and for every hash function (including one with many or only collisions), the table holds exactly the elements inserted and not erased: inserting a value already present returns the element already there, inserting an absent one returns the new element, and erasing one element never loses or duplicates another. Storage of a rejected duplicate or of an erased element is recycled at once, and the size, peak, access, hit and miss statistics are exact.",
  ["histories", "inputs"],
  "all operation sequences, hash functions and initial sizes",
  "The tests insert at most 100 elements with benign hashes, and erase two; growth while chains are long and erase-in-the-middle-of-a-chain after growth are not exercised.",
  ["sdd/mem/hash_table.hh", "sdd/mem/unique_table.hh", "sdd/util/next_power.hh"],
  [("chained intrusive hash table with power-of-two growth", "sdd/mem/hash_table.hh"), ("unification and recycling of blocks", "sdd/mem/unique_table.hh")],
  [("table content", "set of elements present", "spec/Table.tla")],
  ["return values, size(), statistics, dispose callbacks"])

p("C10", "Scratch memory: live blocks never overlap and are reclaimed in bulk",
  "Every block handed out by the scratch allocator is disjoint from all other live blocks and keeps its contents until it is released or its scope ends, for any sequence of allocations, releases in any order, nested scopes and any arena size (0 included), whether it comes from the arena or from the fallback heap. Ending a scope makes exactly the arena space taken since its beginning available again, and blocks from the fallback heap are returned to the heap when released.",
  ["histories", "configurations"],
  "all sequences of allocate, release and scope begin/end for all arena sizes",
  "No test touches the allocator; library operations in the tests never exceed the 16 MB default arena.",
  ["sdd/mem/linear_alloc.hh", "sdd/dd/context.hh"],
  [("bump allocation with LIFO release", "sdd/mem/linear_alloc.hh"), ("rewinder", "sdd/mem/linear_alloc.hh")],
  [("live blocks", "intervals of the arena in use", "spec/Arena.tla")],
  ["addresses returned, contents of live blocks"])

p("C11", "Value sets behave as mathematical sets and are unified",
  "Every shipped value-set type behaves as a finite set: as far as the type offers them, construction from a list, insertion, erasure, membership, iteration in increasing order, emptiness, cardinality, shifts, the textual form, union, intersection and difference agree with set theory, whatever the order and duplicates of insertions. Two value sets compare equal (and hash equally) if and only if they have the same elements, the less-than relation is a strict total order consistent with equality, and modifying one value set never affects a copy of it.",
  ["inputs", "histories"],
  "all sequences of operations over all element types and element values accepted by the type",
  "The tests check about twenty literal examples.",
  ["sdd/values/flat_set.hh", "sdd/values/bitset.hh", "sdd/values/empty.hh", "sdd/values/size.hh", "sdd/values_manager.hh"],
  [("unified sorted flat sets", "sdd/values/flat_set.hh"), ("word-level operations", "sdd/values/bitset.hh")],
  [("elements", "set of values", "spec/Values.tla")],
  ["all observers of the value-set types"])

p("C12", "Orders: positions, variables, nesting and lookups follow the builder",
  "From every builder (pushes, lists, concatenation and nesting in any combination) the order enumerates exactly the described identifiers in the described nesting, numbers positions in depth-first order and, at each level, variables consecutively from the last one upwards; lookup by identifier, containment between positions, head, next and nested all agree with that tree. Two whole orders compare equal exactly when they describe the same tree (sub-orders: also at the same positions), equal orders hash equally, an order or sub-order stays valid and unchanged after its builder and the order it was taken from are gone, duplicate identifiers are refused when the order is built and unknown identifiers when looked up, with the corresponding exceptions.",
  ["inputs", "programs"],
  "all builder programs over all identifiers",
  "The tests use orders of at most six identifiers and three levels; no test looks at variables of nested levels, errors or lifetime.",
  ["sdd/order/order.hh", "sdd/order/order_node.hh", "sdd/order/order_builder.hh", "sdd/order/order_identifier.hh", "sdd/order/order_error.hh"],
  [("depth-first numbering", "sdd/order/order.hh"), ("shared node vectors", "sdd/order/order.hh")],
  [("order tree", "nested sequence of identifiers", "spec/OrderSem.tla")],
  ["all observers of order and order_node; exceptions"])

p("C13", "Diagrams built from an order hold exactly the initial assignments",
  "Building a diagram from an order and an initializer yields exactly the Cartesian product of the value sets returned for the leaf identifiers, nested as in the order and labelled with the order's variables; the initializer is called for leaf identifiers only. If any leaf gets an empty set the result is the empty diagram, and an empty order gives the unit diagram.",
  ["inputs", "configurations"],
  "all orders and initializers",
  "The tests build seven tiny orders with a constant initializer.",
  ["sdd/dd/definition.hh", "sdd/order/order.hh"],
  [("recursive construction along the order", "sdd/dd/definition.hh")], [], ["SDD(order, initializer)"])

p("C14", "Elementary homomorphisms apply their pointwise meaning to every assignment",
  "Identity, constant, insertion of a variable, function on one variable, local application under a hierarchical variable, and user-defined inductive homomorphisms each map a diagram to exactly the union of the images of its assignments under the described pointwise meaning, and map the empty diagram to itself. Declaring a function or inductive a selector or a shifter, letting it skip variables, or targeting a variable at any depth of the order through its identifier never changes the result.",
  ["inputs", "programs"],
  "all truthful user functions and inductives (same behaviour under every order applied), all targets, all orders, all diagrams over the order",
  "The tests apply a few increments to diagrams with one or two assignments.",
  ["sdd/hom/identity.hh", "sdd/hom/constant.hh", "sdd/hom/cons.hh", "sdd/hom/function.hh", "sdd/hom/local.hh", "sdd/hom/inductive.hh", "sdd/hom/evaluation.hh", "sdd/order/carrier.hh"],
  [("skip-driven recursive evaluation", "sdd/hom/evaluation.hh"), ("selector / shifter fast paths", "sdd/hom/function.hh, sdd/hom/local.hh"), ("carrier to the target's level", "sdd/order/carrier.hh")],
  [("image", "set of assignments", "spec/HomSem.tla")],
  ["homomorphism application"])

p("C15", "Homomorphism combinators compute their mathematical combination",
  "Applying a sum, an intersection, a composition, a fixpoint or an if-then-else of homomorphisms gives exactly the union of the operands' results, the intersection of the operands' results, the result of the right operand fed to the left one, the first stable iterate, and the union of the then-branch on the assignments satisfying the condition with the else-branch on all others. This holds for all operands, arities, nestings and orders of operands, including operands that act on different levels or on the same hierarchical variable.",
  ["inputs", "programs"],
  "all terms over the combinators and all diagrams; operands under a local application or a fixpoint are linear (they distribute over union)",
  "The tests check construction shortcuts and a few evaluations; combinations of operands that are grouped, flattened or pushed under hierarchical variables are not explored.",
  ["sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/composition.hh", "sdd/hom/fixpoint.hh", "sdd/hom/if_then_else.hh", "sdd/hom/evaluation.hh"],
  [("flattening and grouping of operands", "sdd/hom/sum.hh, sdd/hom/intersection.hh"), ("iteration to stability", "sdd/hom/fixpoint.hh")],
  [("image", "set of assignments", "spec/HomSem.tla")],
  ["homomorphism application"])

p("C16", "Rewriting for saturation preserves the result of every homomorphism",
  "For every order, every homomorphism built for that order and every diagram over it, the rewritten homomorphism gives exactly the same diagram as the original one; in particular saturation reaches the same least fixpoint as plain iteration. Rewriting never fails where plain evaluation succeeds.",
  ["programs", "inputs"],
  "all homomorphism terms with linear operands under local applications and fixpoints, orders (flat and hierarchical) and diagrams",
  "The tests compare the rewritten shape of six terms; the saturation evaluation order (sub-levels first, chaining of the remaining operands) is only exercised on single-assignment diagrams.",
  ["sdd/hom/rewrite.hh", "sdd/hom/saturation_sum.hh", "sdd/hom/saturation_fixpoint.hh", "sdd/hom/saturation_intersection.hh", "sdd/hom/fixpoint.hh", "sdd/hom/local.hh"],
  [("partition into skip, local and other operands", "sdd/hom/rewrite.hh"), ("saturation evaluation", "sdd/hom/saturation_fixpoint.hh")],
  [("image", "set of assignments", "spec/HomSem.tla")],
  ["application of rewrite(o,h) and of h"])

p("C17", "Homomorphisms are unified: same construction, same handle",
  "Two live homomorphisms built by the same constructions from equal parts compare equal and hash equally, whenever and however often they are built; sums and intersections do not depend on the order, nesting or repetition of their operands. Homomorphisms that map some diagram differently never compare equal, and the simplifications performed at construction never change the meaning.",
  ["programs", "histories"],
  "all pairs of construction programs",
  "The tests compare a few literal pairs, mostly of the same expression evaluated twice in the same scope.",
  ["sdd/hom/definition.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/composition.hh", "sdd/hom/fixpoint.hh", "sdd/hom/if_then_else.hh", "sdd/hom/local.hh", "sdd/hom/cons.hh", "sdd/hom/constant.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh"],
  [("unification in the homomorphism table", "sdd/hom/definition.hh"), ("structural equality and hash of each kind", "sdd/hom/*.hh")],
  [], ["operator== and std::hash of homomorphisms"])

p("C18", "User exceptions and invalid arguments leave the library consistent",
  "An exception thrown by user code at any call during the evaluation of a homomorphism reaches the caller unchanged, and a non-selector condition or an empty sum or intersection is refused with an invalid-argument error. Afterwards every live diagram and homomorphism still denotes the same thing, no partial result is ever visible, nothing is leaked, and evaluating again (with the user code no longer throwing) gives the exact result.",
  ["fault_sequences", "crash_points", "histories"],
  "every call of user code as a throwing point, in every homomorphism, repeatedly, at any point of a history",
  "The tests check that the exception propagates from six evaluations and stop there.",
  ["sdd/mem/cache.hh", "sdd/hom/evaluation.hh", "sdd/hom/if_then_else.hh", "sdd/hom/sum.hh", "sdd/hom/intersection.hh", "sdd/hom/function.hh", "sdd/hom/inductive.hh", "sdd/mem/linear_alloc.hh"],
  [("no cache entry before evaluation completed", "sdd/mem/cache.hh"), ("RAII of handles and scratch memory", "sdd/mem/ptr.hh, sdd/mem/linear_alloc.hh")],
  [], ["exception at each user call; results of re-evaluation"])

p("C19", "Structural reports describe exactly the diagram",
  "The node, arc-frequency, arc-number and memory-size reports and the DOT export of a diagram describe exactly its distinct reachable nodes: each node counted once however often it is shared (between successors, valuations and levels), flat and hierarchical counted separately, each with all of its arcs (a DOT node used at several places is labelled with the identifier of one of them). Producing a report changes nothing.",
  ["inputs"],
  "all diagrams",
  "The tests count ten small diagrams and never look at memory size or DOT output.",
  ["sdd/tools/nodes.hh", "sdd/tools/arcs.hh", "sdd/tools/size.hh", "sdd/tools/sdd_statistics.hh", "sdd/tools/dot/sdd.hh"],
  [("visited set of nodes", "sdd/tools/*.hh")], [], ["tools::nodes, arcs, number_of_arcs, size, statistics, dot"])

p("C20", "Ordering strategies only rearrange: no identifier lost, added or moved wrongly",
  "Flattening a builder yields all its leaf identifiers once, in depth-first order; grouping by n identifiers per hierarchy keeps all identifiers, in order, with at most n per level under artificial hierarchy levels; the FORCE heuristic returns a flat order containing exactly the vertices of its hypergraph, one of smallest total span among those it computes, for every hypergraph and number of iterations, whatever was computed before, and with the reverse option the exact mirror image. The strategies terminate on every input they accept and do not modify the builders they are given.",
  ["inputs", "configurations"],
  "all builders, all n of at least 1 (for n = 1 the builder is returned as it is), all hypergraphs and iteration counts",
  "Only flatten is tested, on six inputs.",
  ["sdd/order/strategies/flatten.hh", "sdd/order/strategies/identifiers_per_hierarchy.hh", "sdd/order/strategies/force.hh", "sdd/order/strategies/force_hypergraph.hh", "sdd/order/strategies/force_hyperedge.hh", "sdd/order/strategies/force_vertex.hh"],
  [("recursive flattening and grouping", "sdd/order/strategies/*.hh"), ("centre-of-gravity sort", "sdd/order/strategies/force.hh")],
  [("order tree", "nested sequence of identifiers", "spec/OrderSem.tla")],
  ["builders returned by the strategies"])

p("C21", "Initialisation is exclusive and shutdown is complete",
  "While any copy of the manager of a configuration is alive, initialising the same configuration (or another one sharing its stateful value type) again throws and changes nothing; once the last copy is gone everything the library allocated is released and the configuration can be initialised again, with possibly different sizes, and starts from an empty state. Managers that may coexist are independent of each other, and an initialisation for which memory runs out leaves nothing initialised.",
  ["histories", "configurations"],
  "all sequences of initialisation, copies, moves and destructions of managers of all configurations, interleaved with library use, and all points at which an allocation of an initialisation can fail",
  "Each test initialises one configuration once per process run in a fixed order; failed initialisation and interleaved configurations are not tested.",
  ["sdd/manager.hh", "sdd/internal_manager.hh", "sdd/values_manager.hh", "sdd/values_manager_fwd.hh", "sdd/internal_manager_fwd.hh"],
  [("global manager pointers", "sdd/manager.hh"), ("deletion handlers reset", "sdd/internal_manager.hh, sdd/values_manager.hh")],
  [("initialised configurations", "which configurations are in use, by how many managers", "spec/Manager.tla")],
  ["init(), destruction of managers, statistics"])

p("C22", "Orders survive being dumped as JSON and loaded again",
  "The dump of every order or sub-order is a JSON array of its leaf identifiers nested as in the order, whatever characters the identifiers hold, and loading it gives a builder with the same leaf identifiers in the same sequence and nesting, except that hierarchies get new artificial identifiers and that a level with a single element is merged with the one above. Loading any JSON nesting of arrays and identifiers follows the same rule (an empty array adds nothing), an empty input loads nothing, and a text that is not an integer is refused with an exception where identifiers are integers. Dumping a loaded order and loading it again gives the same nesting.",
  ["inputs", "configurations"],
  "all orders, all nestings of JSON arrays, string and integer identifiers",
  "No test includes these functions: they need a copy of rapidjson that the build does not provide.",
  ["sdd/tools/order.hh", "sdd/order/order_builder.hh"],
  [("recursive dump", "sdd/tools/order.hh"), ("recursive load", "sdd/tools/order.hh")],
  [("order tree", "nested sequence of identifiers", "spec/OrderSem.tla")],
  ["tools::dump_order, tools::load_order"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
