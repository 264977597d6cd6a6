#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Undirected editing histories agree with a set model",
  "After any sequence of single or bulk vertex/edge insertions and removals, loop removals and isolate removals on an editable undirected graph, its vertex set, edge set, counts, adjacency answers, degrees and neighbourhoods are exactly those obtained by applying the same operations to plain sets. A loop counts as one edge and adds two to its vertex's degree; edge insertion creates missing endpoints. Every operation's return value says truthfully whether (or how many) elements were actually added or removed.",
  ["histories", "inputs"], "all finite edit histories over any 32-bit vertex ids, including duplicates, absent elements, loops and re-insertion after removal",
  "The unit tests replay three short hand-written histories; the adjacency, degree and edge-count bookkeeping must stay in step on every interleaving of operations.",
  ["src/editgraph.rs", "src/graph.rs"],
  [("adjacency map, degree map and edge counter updated together by add/remove", "src/editgraph.rs impl MutableGraph for EditGraph"), ("bulk operations and loop/isolate removal in terms of the single ones", "src/graph.rs trait MutableGraph")],
  ["return value of each operation", "full query sweep after operations"],
  [("adj/degs/m", "three redundant copies of the structure", "src/editgraph.rs struct EditGraph")])

p("C02", "Directed editing histories agree with an arc-set model",
  "After any sequence of single or bulk vertex/arc insertions and removals, loop removals and isolate removals on an editable digraph, its vertices, arcs, counts, in-/out-degrees and in-/out-neighbourhoods are exactly those of the same operations on plain sets, and return values say truthfully what changed. Read as an undirected graph, two vertices are adjacent iff an arc joins them in either direction, the degree is in-degree plus out-degree, and the neighbours of a vertex are the union of its in- and out-neighbours.",
  ["histories", "inputs"], "all finite edit histories of digraphs over any 32-bit vertex ids, including antiparallel arcs, loops, duplicates and removals",
  "Tests cover three fixed digraphs; in- and out-side tables are updated separately and only an adversarial history shows them disagreeing.",
  ["src/editdigraph.rs", "src/graph.rs"],
  [("paired in/out adjacency and degree maps", "src/editdigraph.rs impl MutableDigraph for EditDigraph"), ("undirected view of a digraph", "src/editdigraph.rs impl Graph for EditDigraph; src/graph.rs trait Digraph")],
  ["return values", "Graph and Digraph queries"],
  [("in_adj/out_adj/in_degs/out_degs/m", "redundant tables", "src/editdigraph.rs struct EditDigraph")])

p("C03", "Equality, cloning and collecting depend on structure only",
  "Two editable graphs (or two digraphs) compare equal iff they have the same vertices and the same edges (arcs), whatever histories produced them. A clone equals its original and later changes to either never show in the other; collecting a list of edges yields the graph with exactly those edges and their endpoints, in any order and with any repetition.",
  ["histories", "inputs"], "all pairs of edit histories that lead to equal or to minimally different graphs",
  "Tests compare a handful of graphs built the same way; equality reads derived tables whose content could depend on history.",
  ["src/editgraph.rs", "src/editdigraph.rs"],
  [("PartialEq over adjacency, degrees and counters", "src/editgraph.rs, src/editdigraph.rs impl PartialEq"), ("Clone by re-insertion; FromIterator", "src/editgraph.rs, src/editdigraph.rs")],
  ["==, clone, from_iter"])

p("C04", "Contraction merges exactly the chosen vertices",
  "Contracting a set of existing vertices into one of them (as a pair, into a given centre, or into the first of a sequence) removes exactly the other members and makes the surviving vertex adjacent to precisely its old neighbours plus every outside neighbour of a removed member; no loop is created and all other vertices, edges and loops are unchanged. Repeated members and the centre itself appearing among the members make no difference, and the vertex contracted into is the one returned.",
  ["inputs", "histories"], "all graphs with or without loops, all non-empty vertex selections, connected or not, and sequences of contractions",
  "Two unit tests contract a path and a 6-vertex graph; overlaps, loops, duplicates, non-adjacent members and repeated contraction are never exercised.",
  ["src/editgraph.rs"],
  [("contract / contract_pair / contract_into", "src/editgraph.rs impl EditGraph")],
  ["whole graph after the call", "returned vertex"])

p("C05", "Induced subgraph, relabelling and disjoint union keep structure",
  "The subgraph induced by a vertex selection has exactly the selected vertices and exactly the edges with both ends selected. Relabelling to 0..n-1 is an isomorphism that preserves the numeric order of labels and comes with the exact new-to-old map. A disjoint union of two or more graphs contains the first graph unchanged and one vertex-disjoint isomorphic copy of each further graph, and nothing else.",
  ["inputs"], "all graphs incl. loops and isolated vertices, all selections, all label sets that leave room for the shifted labels",
  "Tests use cliques and matchings with contiguous labels starting at 0.",
  ["src/graph.rs", "src/editgraph.rs"],
  [("subgraph default method", "src/graph.rs trait Graph"), ("normalize, disj_union, disj_unions", "src/editgraph.rs")],
  ["returned graphs and maps"])

p("C06", "Named generators produce the named graph for every size",
  "For every size parameter, the path, cycle, matching, star, clique, independent set, biclique, complete k-partite and grid generators (undirected and directed) return the named graph on the documented number of vertices with exactly its edges, directed ones oriented as documented. Degenerate sizes (zero, one, empty parts) give the corresponding degenerate graph instead of failing or dropping vertices.",
  ["inputs"], "all size parameters, including 0 and 1, part lists of any length, and large sizes",
  "Tests look at vertex/edge counts for a few sizes only.",
  ["src/editgraph.rs", "src/editdigraph.rs"],
  [("generator functions", "src/editgraph.rs, src/editdigraph.rs impl blocks")],
  ["returned graph"])

p("C07", "Iteration visits every element exactly once",
  "For every graph, iterating over vertices, edges, vertices-and-edges or neighbourhoods visits each vertex once and each edge (loops included) once, edges with the smaller endpoint first; left-neighbourhood iteration of an ordered graph visits the vertices once each in order with their exact left neighbours. For every digraph, arc iteration visits each arc once as (tail, head), and in-/out-neighbourhood iteration pairs every vertex with exactly its in-/out-neighbours.",
  ["inputs", "histories"], "all graphs and digraphs, any vertex order, any edit history, including empty graphs, isolated vertices, loops and extreme ids",
  "Tests iterate three loop-free graphs with small contiguous ids.",
  ["src/iterators.rs"],
  [("edge / mixed / arc / neighbourhood iterators with tie-breaking on vertex ids", "src/iterators.rs")],
  ["item sequences of the iterators"])

p("C08", "Neighbourhood and ball queries match graph distance",
  "The open neighbourhood of a vertex set is the set of outside vertices adjacent to it, the closed one adds the set itself, and the r-neighbourhood is exactly the set of vertices within distance r. In digraphs the in- and out-neighbourhoods of a set follow arcs backwards and forwards respectively.",
  ["inputs"], "all graphs and digraphs, all vertex selections (with repetition), all radii including 0 and beyond the diameter",
  "One test on a 5-vertex path checks the open neighbourhood of three selections; radii are only used as helpers.",
  ["src/graph.rs"],
  [("neighbourhood, closed_neighbourhood, r_neighbours, r_neighbourhood", "src/graph.rs trait Graph"), ("in_neighbourhood, out_neighbourhood", "src/graph.rs trait Digraph")],
  ["returned vertex sets"])

p("C09", "Complement, union and intersection are exact set operations",
  "Complementing a simple graph keeps the vertices and joins exactly the distinct non-adjacent pairs (so doing it twice gives the graph back); merging two graphs gives the union of their vertices and of their edges; intersecting gives the common vertices and the common edges. The operands are not changed and isolated vertices are kept.",
  ["inputs"], "all pairs of graphs, disjoint, overlapping or equal, with isolated vertices (and loops for merge/intersect)",
  "Tests use 4- and 5-vertex graphs without isolated vertices.",
  ["src/operations.rs"],
  [("invert, merge, intersect", "src/operations.rs trait GraphOperations")],
  ["returned graph"])

p("C10", "Subdivision replaces each edge by a path of fresh vertices",
  "Subdividing a simple graph k times keeps all original vertices and replaces every edge by a path with exactly k new inner vertices; the new vertices are fresh, pairwise distinct across edges and of degree two, and no other edges appear. k = 0 gives the graph itself.",
  ["inputs"], "all simple graphs with isolated vertices and non-contiguous labels, all k",
  "Tests subdivide a single edge and a triangle (k=0).",
  ["src/operations.rs"], [("subdivide, fresh-id allocation above the largest id", "src/operations.rs")], ["returned graph"])

p("C11", "Graph products have exactly the defined vertices and edges",
  "The Cartesian and the lexicographic product of two simple graphs have one vertex per pair, given by the returned bijection from product vertices to pairs, including pairs of isolated vertices. Two vertices of the Cartesian product are adjacent iff they agree in one coordinate and are adjacent in the other; in the lexicographic product iff their second coordinates are adjacent, or these are equal and the first coordinates are adjacent.",
  ["inputs"], "all pairs of simple graphs, including empty, edgeless and disconnected factors",
  "Tests multiply two single edges and compare counts.",
  ["src/operations.rs"], [("cartesian_product, lexicographic_product", "src/operations.rs")], ["returned graph and map"])

p("C12", "Subgraph comparison reports the exact relation",
  "Comparing two graphs yields Eq iff vertex and edge sets coincide, Sub/Sup iff the first is a proper subgraph/supergraph of the second (vertices and edges both taken into account), and Incomp otherwise. Swapping the operands swaps Sub and Sup and leaves the other answers unchanged.",
  ["inputs"], "all pairs of graphs of one type, including pairs differing in one isolated vertex, one edge or one loop",
  "Seven fixed comparisons, all between graphs on initial segments of the integers without isolated vertices.",
  ["src/compare.rs"], [("compare_subgraph", "src/compare.rs")], ["returned relation"])

p("C13", "Vertex colourings, maps and mixed elements obey their algebra",
  "Inverting a vertex map groups exactly the vertices with equal values, and its majority set is a largest such group with its value (none for the empty map); restricting a colouring keeps exactly the requested coloured vertices. Extending a colouring disjointly changes no existing colour, colours exactly the new vertices, keeps their colour classes intact and uses no old colour for them. The intersection of two vertices/edges is their common edge, common vertex or nothing, regardless of edge orientation.",
  ["inputs", "histories"], "all maps and colourings, overlapping or not, and all pairs of vertices/edges",
  "One example each in the unit tests; class structure after disjoint extension is explicitly not checked there.",
  ["src/graph.rs"], [("VertexMapOperations, VertexColouring, IntegerColouring, VertexOrEdge", "src/graph.rs")], ["returned maps, sets and colourings"])

p("C14", "Saving and loading round-trips sets, sequences and graphs",
  "Writing a vertex set, a vertex sequence or a graph as plain or gzipped text and loading it back, by the explicit or the extension-based loader, yields an equal value: the same set, the same sequence in order with repetitions, the same graph up to isolated vertices (which the edge-per-line format cannot express). Overwriting an existing file leaves nothing of its old content.",
  ["inputs"], "all vertex sets, sequences and graphs of any size with any 32-bit ids, all representations that can be written, both encodings",
  "Tests write three-element lists and one 6-vertex graph; nothing crosses a buffer or compression-block boundary.",
  ["src/io.rs"], [("WriteToFile / LoadFromFile for sets, vectors, graphs", "src/io.rs")], ["files written and values loaded"])

p("C15", "Loaders accept exactly the format and never panic",
  "Loading a plain or gzipped file in which every line holds exactly the expected number of decimal 32-bit vertex ids separated by white space yields exactly the listed content, whatever the line endings, spacing, duplicate or reversed lines. Any other content (wrong token count, bad or out-of-range numbers, undecodable text, truncated or corrupt compression) and any read failure gives an error result, never a panic and never a silently shortened value.",
  ["inputs", "fault_sequences"], "all byte contents, both encodings, all loaders, all positions of a read failure",
  "Tests load only well-formed files; no malformed, truncated or failing input is ever read.",
  ["src/io.rs"], [("line parsing, vertex parsing, reader selection by extension", "src/io.rs")], ["Result of the loaders"])

p("C16", "A successful write has stored everything",
  "If writing a set, sequence or graph to a plain or gzipped file, or to a caller-supplied sink, reports success, then the complete content is there and loads back. If the storage fails or fills up at any point before that, the call reports an error; short or interrupted writes by themselves lose nothing.",
  ["fault_sequences", "inputs"], "every byte position at which storage can fail, both encodings, sinks with short, interrupted or failing writes and flushes",
  "No test injects a fault; buffered and compressed writers defer their last bytes to points where errors are easily dropped.",
  ["src/io.rs"], [("buffered and gzip writers, flush/finish on completion", "src/io.rs trait WriteToFile")], ["Result of the writers vs. file content"])

p("C17", "Connected components form the exact partition",
  "The components returned for a graph are non-empty, pairwise disjoint and together contain every vertex, and two vertices are in the same component iff a path joins them. Isolated vertices are components of their own and the empty graph has none.",
  ["inputs", "histories"], "all graphs (any representation, any iteration order, loops allowed, digraphs read as undirected)",
  "The component tests count components of a matching and a clique; the body of one is empty.",
  ["src/algorithms/graph.rs"], [("disjoint-set forest over edges with a guard for a bug of the union-find crate", "src/algorithms/graph.rs components")], ["returned sets"])

p("C18", "Degeneracy ordering, bounds and core numbers are right",
  "For every simple graph the computed ordering lists each vertex once, every vertex has at most as many neighbours before it as the reported upper bound, and the true degeneracy lies between the reported lower and upper bound. Every vertex's reported core number is at least its true core number and at most the upper bound, and all are exact whenever the two bounds coincide, as they do for degeneracy up to 128.",
  ["inputs"], "all simple graphs, sparse to dense, including degeneracy above 128, any vertex iteration order",
  "Only one 34-vertex network is checked; the bucket structure switches from exact to exponential buckets at degree 128.",
  ["src/algorithms/graph.rs"], [("bucket queue with exact buckets for small and exponential buckets for large degrees", "src/algorithms/graph.rs degeneracy")], ["returned bounds, ordering, core numbers"])

p("C19", "The bipartiteness witness is valid and conclusive",
  "Testing bipartiteness returns two disjoint vertex classes that cover all vertices with every edge between them if the graph has no odd cycle, and otherwise a sequence of distinct vertices of odd length in which consecutive vertices, and the last and first, are adjacent (a single looped vertex counts).",
  ["inputs"], "all graphs with any number of components, loops, any iteration order",
  "Tests check adjacency of consecutive witness vertices on one network, not distinctness or oddness, and only connected graphs.",
  ["src/algorithms/graph.rs"], [("DFS 2-colouring with parent pointers, odd-cycle reconstruction", "src/algorithms/graph.rs is_bipartite")], ["returned witness"])

p("C20", "An ordered graph is the same graph seen through its ordering",
  "An ordered graph built from a simple graph and an ordering (given or by degeneracy) has the same vertices and edges, lists its vertices in that order, and assigns indices that increase along it. Left (right) neighbours and degrees of a vertex are exactly its neighbours before (after) it, listed in that order, and leftmost/rightmost and the maximum left/right degrees agree with the ordering.",
  ["inputs", "configurations"], "all simple graphs and all orderings of their vertices",
  "Tests use a clique, a path and one network under one ordering each.",
  ["src/ordgraph.rs", "src/graph.rs"], [("left/right split per vertex", "src/ordgraph.rs with_ordering"), ("LinearGraph default methods", "src/graph.rs trait LinearGraph")], ["Graph and LinearGraph queries"])

p("C21", "Swapping positions keeps an ordered graph consistent",
  "After any sequence of position swaps (of adjacent or non-adjacent vertices, equal or absent ones included) an ordered graph is indistinguishable from one freshly built from the same graph with the resulting ordering. Swaps never change the underlying graph.",
  ["histories", "inputs"], "all simple graphs, initial orderings and swap sequences",
  "No test calls swap at all.",
  ["src/ordgraph.rs"], [("incremental left/right update in swap", "src/ordgraph.rs swap")], ["queries after each swap"],
  [("indices/nodes", "position table and per-vertex left/right sets", "src/ordgraph.rs struct OrdGraph")])

p("C22", "The compact degenerate graph represents graph and ordering",
  "A compact degenerate graph built from a simple graph by degeneracy, from a given ordering, from an ordered graph or incrementally has exactly the same vertices, edges, order, left and right neighbourhoods and degrees, and answers adjacency in both the symmetric and the order-directed sense correctly. Its iterators visit every vertex once in order with its left neighbours in order, and a clone is equivalent.",
  ["inputs", "configurations"], "all simple graphs and orderings, any vertex ids, any size",
  "Tests compare against one network and a 3-vertex path.",
  ["src/degengraph.rs", "src/ordgraph.rs"], [("flat contents vector with next pointers, unchecked reads", "src/degengraph.rs"), ("conversion", "src/ordgraph.rs to_degeneracy_graph")], ["Graph/LinearGraph queries, iterators"],
  [("contents/indices/right_neighbours", "flat layout | u | next | count | neighbours |", "src/degengraph.rs struct DegenGraph")])

p("C23", "Normalising a compact degenerate graph relabels it by its order",
  "Normalising relabels the i-th vertex of the ordering to i and returns the exact map from new to old labels, under which the result is the same graph in the same order; all adjacency, degree, left/right-neighbour and iteration queries agree with the relabelled graph and left neighbourhoods are sorted. Normalising is repeatable and works for every graph, the empty one included.",
  ["inputs", "histories"], "all simple graphs and orderings, including overlapping old and new label ranges, and repeated normalisation",
  "One test on one network with one ordering.",
  ["src/degengraph.rs"], [("in-place rewriting of the flat layout with unchecked indexing", "src/degengraph.rs normalize")], ["returned map, queries afterwards"])

p("C24", "Reach graphs store exactly the reachable sets by distance",
  "A depth-r weak (strong) reach graph derived from an ordered graph lists for every vertex and every distance d up to r exactly the vertices weakly (strongly) reachable at distance d, in graph order, and its totals, concatenations and successor/iteration queries agree with that for every vertex in order. Read as a graph it has the same vertices, order, edges, degrees and left neighbours as the original. The same holds for a reach graph assembled with its builder from any distance-labelled sets of earlier vertices.",
  ["inputs", "configurations"], "all simple graphs, orderings and depths",
  "Tests check one network at depth 5 (weak) and degrees at depth 3; strong reach graphs are untested.",
  ["src/reachgraph.rs", "src/ordgraph.rs"], [("segmented flat layout with index table", "src/reachgraph.rs append/reachables_at"), ("construction", "src/ordgraph.rs to_wreach_graph, to_sreach_graph")], ["reachables, iterators, Graph/LinearGraph queries"],
  [("contents", "| u | next | index_2..index_end | neighbours by distance |", "src/reachgraph.rs")])

p("C25", "Weak reachability is exact",
  "For every ordered graph and radius r, the weakly r-reachable set of u consists of exactly the vertices v left of u for which some u-v-path of length at most r has v as its leftmost vertex, each with the minimum such length, and the reported set sizes are the sizes of these sets. The right-side breadth-first search from a root returns, layer by layer, exactly the vertices at each distance when everything left of the root is ignored.",
  ["inputs", "configurations"], "all simple graphs, orderings and radii, for every ordered representation",
  "Only compared between two implementations of this library on one network.",
  ["src/algorithms/lineargraph.rs"], [("right_bfs, wreach_sets, wreach_sizes", "src/algorithms/lineargraph.rs")], ["returned maps and layers"])

p("C26", "Strong reachability is exact",
  "For every ordered graph, vertex u and radius r (zero included), the strongly r-reachable set of u consists of exactly the vertices v left of u joined to u by a path of length at most r whose other vertices all lie right of u, each with the minimum such length. Computing one set, all sets, or only the sizes gives consistent answers.",
  ["inputs", "configurations"], "all simple graphs, orderings and radii, for every ordered representation",
  "Tests check a few vertices of three graphs and the agreement of two methods of the library at r=3.",
  ["src/algorithms/lineargraph.rs"], [("sreach_set, sreach_sets, sreach_sizes", "src/algorithms/lineargraph.rs")], ["returned maps"])

p("C27", "Maximal clique counting is exact",
  "The reported number of maximal cliques of an ordered graph equals the true number, counting isolated vertices and unextendable edges, and does not depend on the ordering or on which ordered representation is used.",
  ["inputs", "configurations"], "all simple graphs, orderings and ordered representations",
  "Tests count cliques of complete, complete multipartite and edgeless graphs only, where every pivot choice is harmless.",
  ["src/algorithms/lineargraph.rs"], [("Bron-Kerbosch with pivot on left neighbourhoods plus prefix removal", "src/algorithms/lineargraph.rs bk_pivot_count")], ["returned count"])

p("C28", "Greedy colouring is total, proper and bounded by left degree",
  "Greedily colouring an ordered graph gives every vertex exactly one colour and adjacent vertices different colours, and uses at most one colour more than the maximum left degree.",
  ["inputs", "configurations"], "all simple graphs, orderings and ordered representations",
  "Tests colour a clique and an edgeless graph.",
  ["src/algorithms/lineargraph.rs"], [("colour_greedy", "src/algorithms/lineargraph.rs")], ["returned colouring"])

p("C29", "Dominating sets dominate and report true distances",
  "For every ordered graph, radius r and target set, the computed set consists of graph vertices and every target vertex is within distance r of it; without an explicit target all vertices are dominated, and for an empty target it is empty. The accompanying distance map gives for every vertex that can reach the set its true distance to it.",
  ["inputs", "configurations"], "all simple graphs, orderings, radii (zero included) and target sets",
  "Tests check domination on one network and two grids; distances are never checked.",
  ["src/algorithms/lineargraph.rs"], [("domset, domset_with_target", "src/algorithms/lineargraph.rs")], ["returned set and distance map"])

p("C30", "Domination witnesses are genuinely scattered",
  "When a witness is requested, the returned colouring colours a subset of the dominating set that lies inside the target, is non-empty whenever the target is, and any two vertices of the same colour are at distance at least 2r+1. Asking for a witness does not change the dominating set's validity, and without the request none is returned.",
  ["inputs", "configurations"], "all simple graphs, orderings, radii and target sets",
  "Tests check one colour class on two grids with a distance structure of the same library.",
  ["src/algorithms/lineargraph.rs"], [("auxiliary conflict graph and greedy colouring of it", "src/algorithms/lineargraph.rs domset_with_target")], ["returned colouring"])

p("C31", "Scattered colourings partition the target into scattered classes",
  "For every ordered graph, distance d and target set, the returned classes are non-empty, pairwise disjoint and cover exactly the target, and any two distinct vertices of one class are at distance at least d.",
  ["inputs", "configurations"], "all simple graphs, orderings, distances (odd, even, zero) and target sets",
  "One test with even distance on a grid; coverage and disjointness are not checked.",
  ["src/algorithms/lineargraph.rs"], [("repeated domination rounds, colour merging phase", "src/algorithms/lineargraph.rs scattered_colouring")], ["returned classes"])

p("C32", "Short-distance queries are exact up to the depth",
  "After augmenting a simple graph to depth d, with any look-ahead setting and in one or several steps, the short-distance query for two vertices returns their exact distance if it is at most d (zero for a vertex and itself) and nothing otherwise.",
  ["inputs", "histories", "configurations"], "all simple graphs, depths, look-ahead parameters and augmentation schedules",
  "The only distance test is commented out; others use the structure as an oracle for itself.",
  ["src/dtfgraph.rs", "src/iterators.rs"], [("transitive-fraternal augmentation", "src/dtfgraph.rs augment, _trans_tails, _frat_pairs"), ("query by arc or common in-neighbour", "src/dtfgraph.rs small_distance")], ["small_distance for all pairs"],
  [("nodes/in_arcs/ms/depth", "arcs by weight with counters", "src/dtfgraph.rs struct DTFGraph")])

p("C33", "The augmentation's arc tables are mutually consistent",
  "For every augmentation, built by orienting, augmenting or adding arcs at any depths in any order, iterating arcs (all or of one weight), arc and weight queries, in-neighbour listings, in-/out-degrees, per-weight counts, single-weight layers and undirected conversion all describe the same set of weighted arcs, the edge count being the number of weight-one arcs; a copy restricted to given pairs has the same vertices and exactly the arcs that join such a pair. Orienting a graph yields exactly one arc of weight one per edge, every augmented arc's weight is at least the true distance, and viewing a layer never changes the structure or its depth.",
  ["histories", "inputs"], "all simple graphs, depths and sequences of arc insertions, augmentations and layer views",
  "Tests add a handful of weight-one arcs and look at one in-neighbourhood.",
  ["src/dtfgraph.rs", "src/iterators.rs"], [("per-depth in-arc sets, degree vectors and arc counters", "src/dtfgraph.rs"), ("arc iterators", "src/iterators.rs DTFArcIterator")], ["Graph/Digraph queries, arcs, layers"])

p("C34", "Augmentation-based dominating sets dominate",
  "For every simple graph and radius, the dominating set computed from the augmentation consists of graph vertices and every vertex of the graph is within the radius of it, whatever depth the augmentation had before. The computation leaves the augmentation valid for further queries, with depth at least the radius.",
  ["inputs", "histories"], "all simple graphs, radii (zero included) and prior augmentation depths",
  "One network at four radii.",
  ["src/dtfgraph.rs"], [("domset over in-neighbourhoods", "src/dtfgraph.rs domset")], ["returned set; queries afterwards"])

p("C35", "Trace oracle counts neighbourhood traces exactly",
  "For every simple graph, ordering and query set listed in graph order, the trace oracle reports for each subset of the query set exactly the number of outside vertices whose neighbourhood meets the query set in precisely that subset (subsets not reported count zero).",
  ["inputs", "configurations"], "all simple graphs, orderings and query sets of any size",
  "Two tiny graphs and one 5-element query; the inclusion-exclusion bookkeeping depends on ordering and set size.",
  ["src/datastructures/sreach_trace_oracle.rs"], [("bit-vector contexts over strong 2-reach sets with prefix corrections", "src/datastructures/sreach_trace_oracle.rs")], ["compute_traces"])

p("C36", "Trace oracle counts neighbours of a set exactly",
  "For every simple graph, ordering and query set listed in graph order, the oracle's neighbour count is exactly the number of vertices outside the set with at least one neighbour inside it.",
  ["inputs", "configurations"], "all simple graphs, orderings and query sets",
  "The function is not tested at all.",
  ["src/datastructures/sreach_trace_oracle.rs"], [("first-intersection counting plus left correction", "src/datastructures/sreach_trace_oracle.rs compute_neighbour_count")], ["compute_neighbour_count"])

p("C37", "Shattering decisions are exact",
  "For every simple graph, ordering, vertex set X (in any listing order) and k at least |X|, the oracle declares X shattered iff every subset of X is the trace of at least 2^(k-|X|) vertices outside X.",
  ["inputs", "configurations"], "all simple graphs, orderings, sets X and k",
  "Three positive examples on one network; a negative answer is never checked.",
  ["src/datastructures/sreach_trace_oracle.rs"], [("is_shattered over compute_traces", "src/datastructures/sreach_trace_oracle.rs")], ["is_shattered"])

p("C38", "No safe use causes undefined behaviour",
  "No sequence of calls to the library's safe interface, including empty graphs, absent vertices, unsorted or foreign query sets, mismatched oracles, irregular incremental construction, hostile files and Graph implementations that contradict themselves, reads or writes memory out of bounds or otherwise has undefined behaviour; misuse may at worst panic.",
  ["inputs", "histories", "programs"], "all safe call sequences, by callers however careless: compact graphs (build, iterate, slice, normalise), ordered graphs, reach graphs and their builder, augmentations, trace oracle, colourings, loaders and foreign graph implementations",
  "Unit tests run without sanitizers, on well-formed inputs only.",
  ["src/degengraph.rs", "src/datastructures/sreach_trace_oracle.rs", "src/ordgraph.rs", "src/reachgraph.rs", "src/dtfgraph.rs", "src/io.rs", "src/algorithms"], [("get_unchecked reads/writes relying on the layout invariant", "src/degengraph.rs"), ("unwrap_unchecked relying on prefix closure", "src/datastructures/sreach_trace_oracle.rs")], ["Miri, AddressSanitizer and standard-library UB checks"])

p("C39", "Answers depend only on the current structure",
  "Every query on a graph, ordered graph, reach graph, augmentation or trace oracle answers for the structure as it is at that moment and leaves it unchanged: the answer does not depend on the edits that led there, on queries made before, on other graphs that exist, were edited or were dropped meanwhile, on other answers being computed at the same time (iterators advanced in turns, a graph implementation that asks the library questions while answering one), on queries cut short by a panic of the caller's code, or on what other threads do; one structure may be read by several threads at once, each getting the answers it would get alone, without a data race.",
  ["histories", "schedules", "programs"], "all programs interleaving edits and queries on several graphs, and all schedules of threads reading shared graphs or working on graphs of their own",
  "Unit tests query a graph once, right after building it, on one thread and never come back after an edit.",
  ["src/"], [("queries take &self and compute from adjacency alone", "src/graph.rs, src/algorithms"), ("no interior mutability or global state: structures are Send and Sync", "src/editgraph.rs, src/ordgraph.rs, src/degengraph.rs, src/reachgraph.rs, src/dtfgraph.rs, src/datastructures")], ["every query, asked again after edits and by concurrent readers; ThreadSanitizer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
