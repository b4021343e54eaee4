#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p('P01', 'PortGraph always agrees with a plain set of nodes, ordered ports and links',
  "After any history of node additions and removals, linking, unlinking, resizing, swapping, compaction, reservation, shrinking, clearing, cloning and checkpoint restarts, every query of a PortGraph (counts, membership, port lists, offsets, directions, links, neighbours, connections) answers exactly as an abstract graph that has undergone the same operations. Each port has at most one link, links are symmetric and join an output to an input, and a node or port keeps its index until an operation documented to move or remove it. Capacity that was asked for when creating or reserving is there.",
  ['histories', 'inputs', 'crash_points', 'configurations'],
  'Every sequence of mutating calls issued by any interleaving of clients holding fresh or stale handles, with a checkpoint crash/restart or clone allowed between any two of them; all sizes, including very large port lists and graphs full of free slots, and port offsets of 8, 16 or 32 bits.',
  'Unit tests run a few scripted operations from an empty graph; slot reuse, in-place versus reallocating resizes, free lists touched by swaps, and compaction only interact in long mixed histories.',
  ['src/portgraph.rs', 'src/portgraph/iter.rs', 'src/view.rs'],
  [('node and port slab allocation with free lists', 'src/portgraph.rs alloc_node/alloc_ports/free_node/free_ports'), ('symmetric link array', 'src/portgraph.rs link_ports/unlink_port'), ('in-place resize', 'src/portgraph.rs resize_ports_inplace')],
  ['PortView, LinkView, PortMut and LinkMut methods of PortGraph'])
p('P02', 'Index-move callbacks are exactly sufficient to keep side tables correct',
  "A caller that keeps per-node and per-port data in any secondary map or Weights, and that only applies the moves and removals reported by resizing and compaction (and swaps on node swaps), finds after every operation exactly its own data under every live node and port. Ports that are not reported keep their index, each moved port is reported with its true new index, each removed port is reported exactly once with the port it was linked to (if any), and the callbacks are delivered in an order that makes applying them one at a time safe.",
  ['histories', 'inputs', 'configurations'],
  'All histories of operations on PortGraph and MultiPortGraph, all resize shapes (grow, shrink, mixed, to and from zero, across capacity boundaries), every combination of side-table types (dense, bit vector, set, weights).',
  'Tests check the callback list of one or two resizes; overlapping moves (in-place shifts in both directions) and moves into slots freed earlier need particular histories.',
  ['src/portgraph.rs', 'src/multiportgraph.rs', 'src/weights.rs', 'src/unmanaged.rs', 'src/secondary.rs'],
  [('rekey callbacks', 'src/portgraph.rs set_num_ports/compact_nodes/compact_ports'), ('SecondaryMap::rekey and swap', 'src/secondary.rs, src/unmanaged.rs'), ('Weights::rekey_node/rekey_port', 'src/weights.rs')],
  ['callbacks of set_num_ports, compact_nodes, compact_ports', 'Weights, UnmanagedDenseMap, BitVec, HashSet contents, and those of a SecondaryMap supplied by the caller'])
p('P03', 'A rejected operation changes nothing and names a culprit that really is at fault',
  "Whenever a linking, unlinking, attaching or copying call reports an error or absence (unknown, already linked, wrong direction, already attached, root, cycle, stale handle), or adding or resizing a node is refused by a panic because the node cannot have that many ports, every node, port, link and hierarchy relation is the same as before the call and stays consistent in all later calls. The error names an argument of the call that really has the reported defect, calls whose arguments are all valid are never rejected, and port counts that port offsets cannot represent are always refused.",
  ['histories', 'inputs', 'fault_sequences'],
  'Every call with any mix of valid, stale, never-valid, internally hidden, wrong-direction or occupied arguments, or with port counts around the limits of the offset type, at any point of any history, on PortGraph, MultiPortGraph and Hierarchy.',
  'Tests provoke each error once on a fresh structure; partial effects before the error (for instance hidden nodes created for a first multiport endpoint) show only in later operations.',
  ['src/portgraph.rs', 'src/multiportgraph.rs', 'src/hierarchy.rs', 'src/view.rs'],
  [('argument validation before mutation', 'src/portgraph.rs link_ports; src/multiportgraph.rs link_ports/link_subports; src/hierarchy.rs attach/insert')],
  ['Result and Option values of LinkMut, MultiMut and Hierarchy mutators', 'all queries after the call'])
p('P04', 'MultiPortGraph always agrees with a multiset of links between visible ports',
  "After any history, every MultiPortGraph query (counts, nodes, ports, links, subports, neighbours, connections) answers as an abstract graph whose ports may carry any number of links, parallel links and self-loops included, and the internal machinery that implements multiple links is never visible in membership, counts or iteration. A subport returned when linking stays the handle of that link until that link is removed, and linking two existing ports of opposite direction always succeeds with a fresh link. A MultiPortGraph made from a PortGraph with any past has the same indices and links and goes on from there, and the plain graph behind a MultiPortGraph joins, for every visible link, the visible nodes or their hidden copies.",
  ['histories', 'inputs', 'crash_points', 'configurations'],
  'Every history of node, port, link and subport operations issued by interleaved clients, including removal and resizing of nodes with multiply linked ports on either side, compaction and swaps, and checkpoint restarts.',
  'Tests build small scripted multi-links; hidden copy nodes interact with resizing, swapping, compaction and index reuse only in mixed histories.',
  ['src/multiportgraph.rs', 'src/multiportgraph/iter.rs'],
  [('copy nodes and subports', 'src/multiportgraph.rs get_free_multiport/remove_copy_node'), ('filtering of copy nodes', 'src/multiportgraph/iter.rs')],
  ['PortView, LinkView, MultiView and mutators of MultiPortGraph'])
p('P05', 'Replicas fed the same operations never diverge',
  "Two replicas of a graph, hierarchy and weights that start equal (both empty, one a clone of the other, or one restored from the other's checkpoint) and apply the same operations return the same results, including the indices handed out, and stay equal, whatever capacity management (reserve, shrink) each performs in between and whatever the hash seeds. Operating on one replica never changes the other.",
  ['histories', 'crash_points', 'schedules', 'configurations'],
  'All operation histories, all points at which a replica crashes and is rebuilt from a checkpoint or a clone, all relative schedules of the replicas, all allocation capacities and hash seeds.',
  'No test compares two copies over a shared history; serialisation tests stop at a single round trip without using the restored graph afterwards.',
  ['src/portgraph.rs', 'src/multiportgraph.rs', 'src/hierarchy.rs', 'src/weights.rs', 'src/unmanaged.rs'],
  [('derived Clone/PartialEq/Serialize of all state including free lists', 'src/portgraph.rs, src/multiportgraph.rs, src/hierarchy.rs, src/weights.rs')],
  ['return values of every mutator', 'PartialEq between replicas'])
p('P06', 'Hierarchy is always a forest with exactly the requested sibling order',
  "After any history of attaching, inserting, detaching, removing, rekeying, swapping, cloning and restarts, the parent, child, sibling, depth-of-descent and count queries of a Hierarchy all describe one and the same forest in which the children of every node are in the order the calls requested. No call sequence can create a cycle, give a node two parents, or lose a node's children, and descendants are visited exactly once each, every node after its parent.",
  ['histories', 'inputs', 'crash_points'],
  'Every history of hierarchy calls with valid, stale and conflicting arguments, including rekeying onto fresh or occupied indices and swapping related nodes.',
  'Tests exercise each mutator on a handful of nodes; sibling-list surgery is wrong only for specific positions (first, last, only child, adjacent siblings, parent-child swaps).',
  ['src/hierarchy.rs'],
  [('doubly linked sibling lists', 'src/hierarchy.rs attach/detach/insert'), ('cycle check', 'src/hierarchy.rs cycle_check'), ('rekey and swap_nodes', 'src/hierarchy.rs')],
  ['every public query and iterator of Hierarchy'])
p('P07', 'All secondary maps implement one total map with a default value',
  "For every provided secondary map type, after any sequence of set, take, remove, rekey, swap, capacity and iteration calls, reading a key returns the last value stored under it or the default, and never depends on capacity or on other keys, while asking for a capacity provides it. Iterating yields every key that holds a non-default value exactly once with its current value, no key twice, and moving a key onto another leaves the default behind. Two dense maps are equal exactly when they have the same default and every key has the same value in both, whatever their capacities and pasts.",
  ['histories', 'inputs', 'configurations'],
  'All call sequences over sparse and dense keys, both default values where configurable, every capacity change, every map type (dense, bit vector, set, and maps that rely on the provided trait methods), interleaved with checkpoint restarts.',
  'Tests cover a few get/set/rekey calls per type; out-of-capacity keys, custom defaults and aliasing keys are not crossed with each other.',
  ['src/secondary.rs', 'src/unmanaged.rs', 'src/weights.rs'],
  [('default-extending storage', 'src/unmanaged.rs ensure_capacity/get'), ('SecondaryMap trait impls', 'src/secondary.rs')],
  ['SecondaryMap methods of UnmanagedDenseMap, BitVec and HashSet, the provided methods of the trait, Weights'])
p('P08', 'A checkpoint restores exactly or fails cleanly, whatever the I/O does',
  "Writing a graph, hierarchy, weights or secondary map to a stream and reading it back yields a value equal to the original in every observable respect, however the reads and writes are split or interrupted, in self-describing text and in compact binary encodings. If the stream fails, fills up or is cut short at any byte, saving or loading reports an error rather than panicking or producing a value, and the in-memory original is unaffected.",
  ['crash_points', 'fault_sequences', 'histories'],
  'Every state reachable by any history, every cut point and failure point in the byte stream, every split into short or interrupted reads and writes, every supported encoding.',
  'Tests serialise a few fresh graphs through in-memory strings; states with free lists, freed slabs, hidden nodes and failing streams are not reached.',
  ['src/portgraph.rs', 'src/multiportgraph.rs', 'src/hierarchy.rs', 'src/weights.rs', 'src/unmanaged.rs', 'src/index.rs'],
  [('serde implementations', 'src/portgraph.rs, src/multiportgraph.rs, src/hierarchy.rs, src/weights.rs, src/unmanaged.rs, src/index.rs')],
  ['serde Serialize/Deserialize of the public types'])
p('P10', 'A panicking user callback never corrupts what is asked afterwards',
  "If code supplied by the caller (a filter, a node iterator, a custom graph implementation behind a view) panics in the middle of a query, traversal or view operation, the panic reaches the caller and every later query on the same graph, view, checker or fresh traversal gives the same correct answers as if the failed call had never been made. In particular no cache, lock or scratch buffer is left poisoned, locked or with partial results.",
  ['fault_sequences', 'schedules', 'histories'],
  'Every point (n-th callback invocation) at which the callback panics, for every read-side operation that runs caller code, repeatedly, from one or several threads sharing a view.',
  'No test injects a panic; the shared caches and reusable scratch buffers are exactly the state an unwinding call can leave behind.',
  ['src/view/region.rs', 'src/view/filter.rs', 'src/algorithms/convex/line_convex_checker.rs', 'src/algorithms/toposort.rs', 'src/algorithms/post_order.rs'],
  [('descendant cache lock discipline', 'src/view/region.rs is_descendant'), ('scratch space reset', 'src/algorithms/convex/line_convex_checker.rs get_intervals_from_nodes')],
  ['Region, FilteredGraph, LineConvexChecker, TopoSort, PostOrder, dominators with panicking callbacks'],
  hook='guarded RwLock wrapper so that lock operations are scheduling and fault points')
p('P11', 'Lazy iterators obey their contracts however they are consumed',
  "Every iterator handed out by graphs, views, hierarchies and maps yields the same items however its consumption is interleaved with other readers, cloned, resumed, partially dropped or, where supported, driven from both ends, and keeps returning nothing once finished. Its size hints bracket and its exact length and count equal the number of items actually left at every moment.",
  ['schedules', 'histories', 'inputs'],
  'All graph states reachable by churn, all iterators, all interleavings of next, next_back, clone, len, size_hint, count, nth and abandonment across several live iterators.',
  'Tests collect iterators front to back; length bookkeeping over holes, double-ended consumption over holes and mid-flight clones are not exercised.',
  ['src/portgraph/iter.rs', 'src/multiportgraph/iter.rs', 'src/hierarchy.rs', 'src/view.rs', 'src/unmanaged.rs'],
  [('remaining-length counters', 'src/portgraph/iter.rs Nodes/Ports; src/multiportgraph/iter.rs Nodes/Ports; src/hierarchy.rs Children')],
  ['all iterator-returning public methods'])
p('P12', 'Inserting or copying a graph yields a faithful disjoint copy',
  "Inserting a graph or view into another graph adds exactly one new node per visible node and reproduces port counts and all visible links, parallel links and self-loops included, under the returned mapping, leaving everything already present in the target as it was. Copying a subgraph into its parent also duplicates each link that crosses its boundary when the target supports multiple links, and otherwise reports the refusal.",
  ['inputs', 'histories', 'configurations'],
  'All pairs of target and source states reached by churn, all source kinds (plain, multi, filtered, hierarchical region, subgraph), all boundary shapes.',
  'Tests insert two or three fresh graphs; sources with holes, self-loops, multi-links or filtered nodes and fragmented targets are not covered.',
  ['src/view.rs', 'src/view/subgraph.rs'],
  [('insert_graph', 'src/view.rs LinkMut::insert_graph'), ('copy_in_parent', 'src/view/subgraph.rs')],
  ['insert_graph, Subgraph::copy_in_parent'])
p('P13', 'Subgraphs and boundaries describe exactly the enclosed part of the graph',
  "A subgraph built from a set of nodes or from boundary ports contains exactly the enclosed nodes, exposes exactly the links that do not cross its boundary, and its boundary lists exactly the crossing ports, in a stable order. Rebuilding a subgraph from its own boundary gives the same nodes, and the input/output dependency relation reported for a boundary is exactly reachability inside the subgraph.",
  ['inputs', 'histories'],
  'All node sets and boundary port lists over all graph states reached by churn, for single-link and multi-link graphs.',
  'Tests use a few hand-made subgraphs; multi-linked boundary ports, disconnected parts, isolated nodes and empty interiors are not crossed.',
  ['src/view/subgraph.rs', 'src/boundary.rs'],
  [('boundary exploration', 'src/boundary.rs internal_nodes'), ('port ordering', 'src/boundary.rs port_ordering')],
  ['Subgraph queries, Boundary queries, HasBoundary, port_ordering'])
p('P14', 'Hierarchical regions are right under any schedule of concurrent readers',
  "A region view over a root contains exactly the root and its descendants (the flat variant: the root, if included, and its direct children) and exactly the links among them, and this is what every thread sharing, cloning or nesting the view observes, whatever was queried before and however the threads interleave. What was asked of a region before does not matter when it is cloned or compared with another one. Readers always make progress: no schedule deadlocks or panics.",
  ['schedules', 'histories', 'fault_sequences'],
  'All interleavings of membership queries, traversals and clones by several threads over one shared view, all query orders, all hierarchies and graphs reached by churn.',
  'The view memoises answers behind a reader-writer lock; tests use one thread and ask few questions, so stale or partial cache entries and lock contention (clone under a writer) never occur.',
  ['src/view/region.rs', 'src/view/flat_region.rs'],
  [('memoised descendant check behind a lock', 'src/view/region.rs is_descendant'), ('clone under contention', 'src/view/region.rs Clone')],
  ['Region, FlatRegion: PortView, LinkView, MultiView methods from several threads'],
  state=[('is_descendant', 'cache of answered membership queries', 'src/view/region.rs')],
  hook='guarded RwLock wrapper so that the simulator decides every acquisition and release')
p('P15', 'Filtered views show exactly the nodes and links that pass the filters',
  "A filtered view contains exactly the base nodes accepted by the node filter, keeps all their ports, and shows exactly the links whose both ends belong to accepted nodes and are accepted by the link filter; all counts, membership tests, link, neighbour, connection and subport queries agree with that set. Stacking filters or filtering another view behaves as the conjunction.",
  ['inputs', 'histories', 'configurations'],
  'All filters (depending on a shared context) over all graph states reached by churn, over plain and multi graphs and other views, nested to any depth, consulted in any order by interleaved lazy readers.',
  'Tests check two or three filters on one small graph; combined node and link filters over multi-links, self-loops and nested views are not covered.',
  ['src/view/filter.rs'],
  [('filter combination', 'src/view/filter.rs node_filter/port_filter/link_filter')],
  ['FilteredGraph: PortView, LinkView, MultiView methods'])
p('P16', 'Topological and post-order traversals respect every link and lose no node',
  "A topological traversal returns each node at most once, never returns a node before a node that links to it through unfiltered ports unless it was given as a source, returns every given source that passes the filter, returns no node that the filter rejects or that is only reached through rejected nodes or ports, and without filters returns exactly the nodes all of whose linked predecessors were returned, also when sources are added while it runs; what it leaves over is reported as remaining ports. A post-order traversal returns exactly the nodes reachable from its sources through accepted nodes and ports, each once, and on acyclic graphs each after everything it can reach, in the order in which a depth-first search that follows sources and ports in order leaves the nodes.",
  ['schedules', 'inputs', 'histories'],
  'All graphs reached by churn (cyclic, with holes, multi-linked), both directions, all filters, all interleavings of pulling items, adding sources and other readers.',
  'Tests sort a few small graphs; multi-linked ports, repeated or late sources, cycles and filters are not combined.',
  ['src/algorithms/toposort.rs', 'src/algorithms/post_order.rs'],
  [('Kahn readiness by visited ports', 'src/algorithms/toposort.rs becomes_ready'), ('two-visit stack', 'src/algorithms/post_order.rs')],
  ['toposort, toposort_filtered, TopoSort::add_sources, ports_remaining, postorder, postorder_filtered'])
p('P17', 'Dominator trees are exactly the immediate dominators of reachable nodes',
  "For any entry node, direction and filters, the immediate dominator reported for a node is the unique closest other node that lies on every accepted path from the entry to it, and nodes that are unreachable, filtered out, or the entry itself have none. The answer never depends on node indices, free slots or unreachable parts of the graph, and computing it never panics.",
  ['inputs', 'histories'],
  'All graphs reached by churn (cyclic, disconnected, self-loops, holes), all entries, both directions, all consistent filters, all map types including ones supplied by the caller.',
  'Tests cover four hand-made graphs, none with unreachable predecessors, self-loops, or free slots.',
  ['src/algorithms/dominators.rs'],
  [('Cooper-Harvey-Kennedy fixed point', 'src/algorithms/dominators.rs DominatorTree::new')],
  ['dominators, dominators_filtered, DominatorTree::immediate_dominator'])
p('P18', 'Lowest common ancestor queries match the hierarchy',
  "For any two nodes, the lowest common ancestor structure built from a hierarchy returns the deepest node that is an ancestor of (or equal to) both, and nothing when they are in different trees. Answers agree with the hierarchy for every pair of nodes of the graph or view that the structure was built for, even if that view hides their ancestors, in either argument order, in forests with any number of roots, depths and unused indices.",
  ['inputs', 'histories'],
  'All forests reached by hierarchy churn over sparse indices, all graphs and views over them, all pairs of nodes.',
  'Tests use one small tree; multi-root forests, deep chains, restarts and sparse indices are not covered.',
  ['src/algorithms/lca.rs'],
  [('binary lifting table', 'src/algorithms/lca.rs')],
  ['lca, LCA::lca'])
p('P19', 'Static convexity checkers agree with the definition of convexity',
  "On every acyclic graph, each static convexity checker answers yes exactly when no path between two nodes of the given set leaves the set and no given output port is linked straight to a given input port. Line intervals of a node set exist exactly when usable, contain those nodes, extend only as promised, lead to the same verdict, and one checker gives the same answers in any order of queries.",
  ['inputs', 'histories', 'schedules'],
  'All acyclic graphs reached by churn (multi-linked, disconnected, isolated nodes, holes), all node sets including empty and singleton, all query orders on one checker with reused scratch space.',
  'Tests check a few sets on three graphs; line partitions over multi-links and repeated queries on one checker are not explored.',
  ['src/algorithms/convex.rs', 'src/algorithms/convex/topo_convex_checker.rs', 'src/algorithms/convex/line_convex_checker.rs'],
  [('topological interval sweep', 'src/algorithms/convex/topo_convex_checker.rs'), ('line partition and intervals', 'src/algorithms/convex/line_convex_checker.rs')],
  ['ConvexChecker::is_convex, is_node_convex, get_intervals_from_nodes, try_extend_intervals, nodes_in_intervals'])
p('P20', 'The dynamic convexity checker stays right through graph edits',
  "A dynamic convexity checker through which an acyclic graph is edited (nodes added, removed, resized, swapped, compacted; links added in either argument order and removed) always answers as a checker freshly built from the current graph, and presents the same graph as the edits describe. Every link that keeps the graph acyclic is accepted, and a link that would close a cycle is refused (by a panic or an error) without changing anything.",
  ['histories', 'inputs'],
  'All edit histories through the checker interleaved with queries, including edits that force the internal order to be rearranged repeatedly.',
  'Tests reorder three or four nodes once; Pearce-Kelly style order maintenance goes wrong only when affected regions interleave with unaffected nodes.',
  ['src/algorithms/dynamic.rs'],
  [('incremental topological order', 'src/algorithms/dynamic.rs connect_nodes/update_order'), ('outside-path search', 'src/algorithms/dynamic.rs is_convex')],
  ['DynamicTopoConvexChecker: PortMut, LinkMut, LinkView, ConvexChecker'])
p('P21', 'Graphs and views honour the petgraph trait contracts',
  "Seen through petgraph's traits, every graph and view lists each node once and each link exactly once from source to target, lists exactly the outgoing (or requested direction's) edges and neighbours of a node, bounds its node indices, reports matching node and edge counts, and keeps visit maps and adjacency matrices that mark exactly what was visited or linked. Consequently petgraph's own algorithms agree with the graph.",
  ['inputs', 'histories', 'configurations'],
  'All graphs reached by churn (holes, multi-links, self-loops, cycles), all views, all petgraph traits implemented.',
  'There are no tests of the trait implementations; sparse indices and multi-links break the assumptions dense graph code makes.',
  ['src/view/petgraph.rs'],
  [('trait implementations', 'src/view/petgraph.rs')],
  ['petgraph::visit traits on PortGraph, MultiPortGraph, FilteredGraph, Region, FlatRegion, Subgraph'])
p('P23', 'Diagrams show exactly the graph, and the same graph always gives the same text',
  "The dot and mermaid diagrams of a graph or view show every visible node, the ports of each node (dot) and every link between visible nodes exactly once and nothing else, nested as the hierarchy restricted to the graph says (a link is never written inside the subgraph of a node that does not contain both of its ends), with the labels and styles that the caller's styling functions return; nodes styled as hidden have no links. Mermaid stays well formed for any label text (dot labels are markup supplied by the caller). The text depends on nothing but the graph, the hierarchy and the styles: it is the same in every process and for every hash seed, for clones and restored checkpoints, and after a styling function panicked in an earlier rendering.",
  ['histories', 'inputs', 'crash_points', 'fault_sequences', 'configurations'],
  'All graphs and hierarchies reached by interleaved histories with crashes and restarts, all views of them (custom graphs included) whatever ancestors they hide, all styling functions and label texts, all hash seeds, panics at any call of a styling function or filter.',
  'Snapshot tests cover a few fixed graphs without views, hidden nodes, links across several levels or hostile labels, and a test passes if the hash seed of that run happens to give the expected order.',
  ['src/render.rs', 'src/render/dot.rs', 'src/render/mermaid.rs'],
  [('exploration of the hierarchy and delayed links', 'src/render/mermaid.rs MermaidFormatter::explore'), ('label encoding', 'src/render/mermaid.rs encode_label'), ('tables and links', 'src/render/dot.rs')],
  ['DotFormat::dot_format, MermaidFormat::mermaid_format, DotFormatter, MermaidFormatter'])
p('P24', 'Index and offset encodings are lossless within their ranges',
  "Node, port, optional index and port offset types of every width convert to and from integers without loss inside their documented range, keep direction and order, distinguish absence from every valid index, and reject values outside the range.",
  ['inputs'],
  'All integer widths and values.',
  'Tests sample boundary values of some widths.',
  ['src/index.rs'],
  [('bit-field encoding', 'src/index.rs')],
  ['NodeIndex, PortIndex, PortOffset, MaybeNodeIndex, MaybePortIndex'])
p('P25', 'Random graph strategies keep their limits, and one seed gives one graph',
  "Every graph generated or shrunk by gen_portgraph, gen_multiportgraph, gen_node_index or the Arbitrary implementations has between one and the requested number of nodes, at most the requested number of input and of output ports per node, and at most the requested number of links; all its queries agree with one another and it can be changed like any other graph. A node drawn by gen_node_index is a node of the graph it comes with, whatever strategy supplied that graph. The same seed and the same decisions to simplify or complicate give equal graphs, in every process and for every hash seed, and no positive node limit, or port or edge limit, however small, makes generation fail; where limits allow links, some seeds give some.",
  ['inputs', 'schedules', 'crash_points', 'configurations'],
  'All limits, all seeds, all sequences of shrinking decisions over any number of interleaved sessions, restarts of a session from its seed at any point, all hash seeds, strategies of the caller that reject values or yield graphs with a past.',
  'The two tests draw values for one choice of limits in one process; they never repeat a seed, shrink a value, or use small limits.',
  ['src/proptest.rs'],
  [('drawing of edges', 'src/proptest.rs gen_edges/gen_unique_edges'), ('graph from edges', 'src/proptest.rs graph_from_edges')],
  ['gen_portgraph, gen_multiportgraph, gen_node_index, Arbitrary for PortGraph and MultiPortGraph (feature proptest)'])
p('P26', 'Length, depth and fan-out alone never make a call fail or explode',
  "On long chains, deep hierarchies, wide nodes, and graphs with exponentially many paths, every traversal, dominator tree, convexity checker, boundary ordering, view, edit, checkpoint, copy, removal and diagram ends with the right answer however small the stack of the calling thread is: no call nests with the length of a path or the depth of a tree. How often traversals, orderings and checkers ask the graph or the caller's filters grows with the size of the graph (nodes, links, the square of a node's ports) and not with the number of paths through it, and ancestor and region queries stay usable on hierarchies 100000 levels deep.",
  ['inputs', 'configurations', 'histories'],
  'Graphs of thousands of nodes of every shape in every order of construction, hierarchies of up to 120 000 nodes, threads with small stacks, custom graphs and filters.',
  'Tests use a dozen nodes on the large stack of the test thread; an exponential or recursive algorithm gives the same answers there.',
  ['src/algorithms', 'src/view', 'src/hierarchy.rs', 'src/boundary.rs', 'src/render'],
  [('incremental topological order', 'src/algorithms/dynamic.rs update_order'), ('boundary port ordering', 'src/boundary.rs port_ordering'), ('region cache', 'src/view/region.rs'), ('jump table', 'src/algorithms/lca.rs'), ('static checkers', 'src/algorithms/convex')],
  ['toposort, postorder, dominators, convexity checkers, LCA, Region, Boundary::port_ordering, insert_graph, Hierarchy, DotFormat, MermaidFormat'])
p('P27', 'Asking again gives the same answers in the same order',
  "Everything that has an order depends only on the graph, the hierarchy and the question: listings of nodes, ports, links and neighbours, traversals and topological orders, numbers and intervals of lines, boundaries, petgraph's traversals, diagrams, and the indices and links that copying, inserting and compacting produce. Asked again, of a new view with other caches, in another process or for another hash seed, of a clone, of a restored checkpoint or of a replica that made the same calls, the answers come in the same order (what is returned as a HashSet or HashMap is the same set).",
  ['schedules', 'histories', 'crash_points', 'configurations'],
  'All histories with crashes and restarts, all views, all questions, all hash seeds and processes, any order in which caches are filled.',
  'A test runs once, in one process; an order taken from a hash set passes whenever the test does not look at it or the seed of that run happens to fit.',
  ['src/view.rs', 'src/view', 'src/algorithms', 'src/boundary.rs', 'src/portgraph.rs', 'src/multiportgraph.rs'],
  [('order of candidates', 'src/algorithms/toposort.rs'), ('ordered node set', 'src/view/subgraph.rs'), ('insertion', 'src/view.rs insert_graph'), ('numbering of lines', 'src/algorithms/convex/line_convex_checker.rs')],
  ['PortView, LinkView, MultiView iterators; toposort, postorder, LineConvexChecker, Subgraph, insert_graph, copy_in_parent, compact_nodes, compact_ports'])
p('P28', 'Space is reused: repeating the same work never takes more and more of it',
  "The space of removed nodes, ports, links, copies of multi ports, children and weights is used again, so a graph, hierarchy, map or checker on which the same calls are repeated, each time until nothing is left, settles at a size and gives the same results every time, over restarts and failing calls too; asking views and checkers questions does not pile up anything. After compaction and shrink_to_fit (shrink_to) the space taken is that of a newly built structure with the same content.",
  ['histories', 'crash_points', 'fault_sequences'],
  'All sequences of calls repeated any number of times, with crashes, restarts and failing calls at the same places.',
  'Tests do something once and look at the answers, which a leaked slab, index or cache entry does not change.',
  ['src/portgraph.rs', 'src/multiportgraph.rs', 'src/hierarchy.rs', 'src/unmanaged.rs', 'src/weights.rs', 'src/algorithms', 'src/view'],
  [('free lists of nodes and port slabs', 'src/portgraph.rs alloc_node, alloc_ports, free_node, free_ports'), ('removal of copy nodes', 'src/multiportgraph.rs remove_copy_node'), ('shrinking', 'shrink_to_fit, UnmanagedDenseMap::shrink_to, Hierarchy::shrink_to')],
  ['the bytes held by PortGraph, MultiPortGraph, DynamicTopoConvexChecker, Hierarchy, Weights, and views; node_count, port_count, link_count'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        assert x['statement'].count('. ') <= 2, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
