#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json,os
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("G01","Undirected graph stays consistent under every edit history",
 "After any sequence of adding and removing vertices and edges (loops included, single or in bulk), an editable graph contains exactly the vertices and edges that history leaves behind: vertex and edge counts, membership, symmetric adjacency, degrees, neighbour lists and equality all agree. Every edit reports truthfully whether (or how many times) it changed the graph, and removing loops or isolated vertices removes exactly those and nothing else. A clone equals its original and is independent of it.",
 ["histories","inputs"],"all edit sequences over any vertex ids, from any reachable graph",
 "Unit tests run a few fixed scripts on named graphs; counters drifting from adjacency after a particular add/remove/loop sequence is not sampled.",
 ["src/editgraph.rs","src/graph.rs"],[("redundant adjacency, degree map and edge counter updated together","src/editgraph.rs: impl MutableGraph"),("bulk edits and loop/isolate removal defaults","src/graph.rs: trait MutableGraph")],
 ["num_vertices/num_edges/contains/adjacent/degree/degrees/neighbours/== after each edit, and the returned bool/count"],
 [("adj/degs/m","adjacency sets, degree map, edge count","src/editgraph.rs")])
p("G02","Directed graph stays consistent under every edit history",
 "After any sequence of adding and removing vertices and arcs, an editable digraph contains exactly the vertices and arcs that history leaves behind: arc membership is directional, in/out/total degrees and in/out neighbour lists agree with it, and the undirected view (adjacency, neighbours, degree, edge count) is derived from the same arcs and is symmetric; its neighbour lists contain exactly the vertices joined by an arc in either direction, at most once per such arc. Every edit reports truthfully whether it changed the digraph. Clones and equality respect arc direction.",
 ["histories","inputs"],"all arc/vertex edit sequences over any vertex ids, anti-parallel arcs included",
 "The tests build one or two small digraphs; direction-sensitive queries and removals are only sampled on them.",
 ["src/editdigraph.rs","src/graph.rs"],[("paired in/out adjacency and degree maps","src/editdigraph.rs: impl MutableDigraph")],
 ["has_arc/adjacent/in_degree/out_degree/degree/in_neighbours/out_neighbours/num_edges and edit return values"],
 [("in_adj/out_adj/in_degs/out_degs/m","mirrored arc sets and counters","src/editdigraph.rs")])
p("G03","Named graph generators produce exactly the documented graph",
 "For every size argument the generators for paths, cycles, matchings, stars, cliques, independent sets, bicliques, complete multipartite graphs and grids (and their directed counterparts) return a graph with exactly the documented vertex set 0..n-1 and exactly the documented edges or arcs. This includes the degenerate sizes 0 and 1, which must give the empty or edgeless graph of the stated order rather than fail or lose vertices (the cycle of length 1 is a single vertex with a loop, that of length 2 a single edge).",
 ["inputs"],"all size arguments, in particular 0, 1 and empty or singleton parts",
 "Doc tests check one size of each generator; boundary sizes and unusual part lists are never run.",
 ["src/editgraph.rs","src/editdigraph.rs"],[("generator constructors","src/editgraph.rs, src/editdigraph.rs")],["vertex and edge sets of the generated graph"])
p("G04","Contraction identifies exactly the given vertices",
 "Contracting or identifying a set of vertices leaves one vertex in their place whose neighbours are exactly the former neighbours of the set outside the set, without creating a loop. All other vertices and edges are unchanged and all counters stay consistent. Contracting a pair or into a chosen centre keeps that centre; the returned vertex names the survivor.",
 ["inputs"],"all graphs, vertex pairs and vertex sets, adjacent or not, centre inside or outside the set",
 "Tests contract a path, a matching and a clique; overlaps such as common neighbours or a centre listed in its own set are not covered.",
 ["src/editgraph.rs"],[("contract, contract_pair, contract_into","src/editgraph.rs")],["graph after contraction, returned vertex"])
p("G05","Disjoint unions and normalisation preserve structure",
 "The disjoint union of any graphs contains an isomorphic copy of each operand on disjoint vertices and nothing more. Normalising a graph relabels its vertices bijectively to 0..n-1 in increasing order and keeps exactly its edges, and the returned map translates new ids to the old ones. The same holds for digraphs (arc directions are kept) and for the compact degenerate graph (its ordering is kept).",
 ["inputs"],"all pairs/lists of graphs with arbitrary vertex ids, empty operands included",
 "Tests join two cliques or normalise one file graph; direction, gaps in ids and isolated vertices are not varied.",
 ["src/editgraph.rs","src/editdigraph.rs","src/degengraph.rs"],[("disj_union, disj_unions, normalize","src/editgraph.rs, src/editdigraph.rs, src/degengraph.rs")],["vertices, edges/arcs and returned id map"])
p("G06","Neighbourhood and induced-subgraph queries are exact",
 "For every graph and vertex set, the open, closed and distance-r neighbourhoods contain exactly the vertices the definition demands (open excludes the set itself, distance-r means shortest-path distance at most r), likewise for in- and out-neighbourhoods of digraphs. The induced subgraph on a set has exactly those vertices and exactly the edges between them. The source graph is unchanged.",
 ["inputs"],"all graphs, query sets and radii",
 "Tests evaluate a handful of queries on paths, cliques and one file graph.",
 ["src/graph.rs"],[("neighbourhood, closed_neighbourhood, r_neighbourhood, subgraph, in/out_neighbourhood","src/graph.rs")],["returned vertex sets and subgraphs"])
p("G07","Iterators visit every vertex, edge and arc exactly once",
 "On any graph the edge iterator yields each edge exactly once, the neighbourhood iterators yield each vertex exactly once together with exactly its (left, in or out) neighbours, the mixed iterator yields exactly all vertices and all edges once each, and the arc iterator of a digraph yields each arc exactly once with its direction. Cardinalities agree with the reported counts. On a digraph the undirected iterators report exactly the vertex pairs joined by an arc, at most once per arc.",
 ["inputs"],"all graphs and digraphs, with isolated vertices, loops and anti-parallel arcs, in every implementing data structure",
 "Tests compare counts on a few loop-free graphs; direction and duplicate reporting are not distinguished.",
 ["src/iterators.rs"],[("NeighIterator/EdgeIterator/MixedIterator/ArcIterator","src/iterators.rs")],["sequence of items from edges()/neighbourhoods()/mixed()/arcs()"])
p("G08","Complement, merge and intersection equal their set definitions",
 "The complement of a graph has the same vertices and connects two distinct vertices exactly if they were not adjacent; complementing twice restores every simple graph. The merge of two graphs has the union, and the intersection has the intersection, of their vertex and edge sets. The operands are not changed.",
 ["inputs"],"all pairs of graphs over overlapping, equal or disjoint vertex sets",
 "Tests use single named graphs.",
 ["src/operations.rs"],[("invert, merge, intersect","src/operations.rs")],["vertices and edges of the result"])
p("G09","Subdivision and graph products equal their definitions",
 "Subdividing a graph k times replaces every edge by a path with exactly k new inner vertices (all new vertices distinct from each other and from the old ones) and keeps every original vertex. The cartesian and lexicographic products of two graphs have one vertex per pair of operand vertices and exactly the edges of the mathematical definition, isolated product vertices included (in the lexicographic product the second operand dominates: (u,v) and (x,y) are adjacent if v and y are, or if v = y and u and x are).",
 ["inputs"],"all simple graphs, all subdivision counts, all pairs of operand graphs",
 "Tests check one or two sizes of paths or cliques, where no product vertex is isolated.",
 ["src/operations.rs"],[("subdivide, cartesian_product, lexicographic_product","src/operations.rs")],["result graph up to the pairing of product vertices"])
p("G10","Subgraph comparison is exact",
 "Comparing two graphs reports Equal exactly if vertex and edge sets coincide, Sub (Sup) exactly if the first is a proper subgraph (supergraph) of the second, and Incomparable otherwise. Swapping the operands swaps Sub and Sup.",
 ["inputs"],"all pairs of graphs, isolated vertices included",
 "Six fixed comparisons are tested.",
 ["src/compare.rs"],[("compare_subgraph","src/compare.rs")],["returned relation"])
p("G11","Connected components partition the graph by reachability",
 "For every graph, the components are non-empty, pairwise disjoint and cover all vertices, and two vertices share a component exactly if a path joins them.",
 ["inputs"],"all graphs, cyclic edges, loops and isolated vertices included",
 "Tests check a few disjoint unions; the union-find it rests on has a known bug that must be avoided for every edge order.",
 ["src/algorithms/graph.rs"],[("components on a disjoint-set structure","src/algorithms/graph.rs")],["returned list of vertex sets"])
p("G12","Degeneracy ordering, bounds and core numbers are valid",
 "For every simple graph the degeneracy computation returns each vertex exactly once in the ordering, a lower bound not above and an upper bound not below the true degeneracy, and every vertex has at most the reported upper bound many neighbours to its left. While all degrees stay in the documented exact range (at most 128) both bounds equal the degeneracy and the reported core numbers are the true core numbers. With loops the ordering still lists each vertex exactly once.",
 ["inputs"],"all simple graphs, including dense ones whose degrees leave the unit-width buckets",
 "Tests use two file graphs and compare against recorded numbers; large-degree buckets are never reached.",
 ["src/algorithms/graph.rs"],[("bucketed min-degree elimination","src/algorithms/graph.rs: degeneracy")],["the four returned values"])
p("G13","Bipartiteness test returns a correct witness",
 "For every graph the bipartiteness test returns either a partition of all vertices into two independent sets, which happens exactly if the graph has no odd cycle, or a vertex sequence that is an odd cycle of the graph: odd length, no repeated vertex, consecutive vertices (cyclically) adjacent.",
 ["inputs"],"all graphs, disconnected ones included",
 "Tests check single cycles and bicliques, where the conflict lies on a simple path from the root.",
 ["src/algorithms/graph.rs"],[("is_bipartite with parent pointers","src/algorithms/graph.rs")],["returned witness"])
p("G14","Ordered graph mirrors the graph and ordering, also after swaps",
 "An ordered graph has the same vertices, edges and degrees as its source, and for every vertex its index, left neighbours, right neighbours, left/right degrees and their maxima, and leftmost/rightmost queries follow from the given ordering. Swapping two vertices, any number of times, yields exactly the ordered graph that would have been built from the swapped ordering. This holds for the degeneracy-ordered constructor too.",
 ["inputs","histories"],"all simple graphs, orderings and sequences of swaps",
 "Tests swap on one file graph and check a few aggregates; adjacent pairs in specific positions are not enumerated.",
 ["src/ordgraph.rs","src/graph.rs"],[("per-vertex left/right sets kept in step with indices; swap","src/ordgraph.rs")],["index_of/left_neighbours/right_neighbours/degrees/vertices order"],
 [("indices/nodes.left/nodes.right","position map and split neighbourhoods","src/ordgraph.rs")])
p("G15","Compact degenerate graph represents its source exactly",
 "Converting or building a compact degenerate graph yields the same vertices, edges, degrees, adjacency and ordering as its source: left neighbour lists, indices, ordered adjacency, left/right degrees, neighbour, edge and neighbourhood iteration all agree with it. No query reads outside the packed storage.",
 ["inputs"],"all simple graphs and orderings, vertices with empty left side included",
 "Tests compare on file graphs with default orderings; the unchecked index arithmetic is only sampled.",
 ["src/degengraph.rs"],[("packed contents array with unchecked reads; builder","src/degengraph.rs")],["all Graph and LinearGraph queries of the compact graph"],
 [("contents/indices","packed left-neighbourhoods","src/degengraph.rs")])
p("G16","Reachability graphs store exactly the reachable sets",
 "For every ordered graph and depth, the weak (strong) reachability graph lists for each vertex, grouped by depth, exactly the vertices weakly (strongly) reachable from it with exactly those depths, in order, and its vertex order, counts and iteration agree with the source. No query reads outside the packed storage.",
 ["inputs"],"all simple graphs, orderings and depths",
 "Tests check depth 5 on one file graph.",
 ["src/reachgraph.rs","src/ordgraph.rs"],[("packed per-depth layout; builder append","src/reachgraph.rs")],["reachables(u), at(depth), iteration"],
 [("contents/indices","packed per-depth reachable lists","src/reachgraph.rs")])
p("G17","Strongly and weakly reachable sets match their definitions",
 "For every ordered graph, vertex and radius r, the weakly r-reachable set consists of exactly the vertices to the left that are the leftmost vertex of some path of length at most r to it, and the strongly r-reachable set of exactly those reachable by such a path whose inner vertices lie right of the start. The attached values are the minimum such path lengths; the size queries equal the set sizes, and the right-sided BFS returns exact distance layers.",
 ["inputs"],"all simple graphs, orderings, vertices and radii",
 "Tests compare on a few graphs mostly against another code path of the library itself.",
 ["src/algorithms/lineargraph.rs"],[("right_bfs, wreach_sets, sreach_set(s), sizes","src/algorithms/lineargraph.rs")],["returned maps and layers"])
p("G18","Maximal clique count is exact for every ordering",
 "For every simple graph and every ordering of it, the number of maximal cliques reported equals the number of inclusion-maximal cliques, isolated vertices and non-extendable edges counted.",
 ["inputs"],"all simple graphs with all orderings",
 "Tests check two named graphs.",
 ["src/algorithms/lineargraph.rs"],[("pivoting Bron-Kerbosch over left neighbourhoods","src/algorithms/lineargraph.rs: count_max_cliques")],["returned count"])
p("G19","Greedy colouring colours every vertex properly",
 "For every simple graph and ordering, greedy colouring assigns a colour to every vertex, adjacent vertices receive different colours, and the number of colours is at most the maximum left-degree plus one.",
 ["inputs"],"all simple graphs with all orderings",
 "Tests colour a few named graphs in default order; left neighbours sharing colours are hardly met.",
 ["src/algorithms/lineargraph.rs"],[("first-fit over left neighbourhoods","src/algorithms/lineargraph.rs: colour_greedy")],["returned colouring"])
p("G20","Dominating sets dominate, with valid distances and scattered witness",
 "For every ordered graph, radius and target set, the computed set r-dominates every target vertex. For every target the reported distance is at most r and not smaller than its true distance to the set, and it is zero for members of the set. If a witness is requested, it colours vertices so that two vertices of the same colour are more than 2r apart.",
 ["inputs"],"all simple graphs, orderings, radii and target sets",
 "Tests check domination on a few graphs with one ordering; the witness and distances are not checked against true distances.",
 ["src/algorithms/lineargraph.rs"],[("domset, domset_with_target via weak reachability","src/algorithms/lineargraph.rs")],["returned set, distance map and witness colouring"])
p("G21","Scattered colouring separates equal colours by the distance",
 "For every ordered graph, distance and target set, the colour classes are disjoint, together cover exactly the target set, and two different vertices in the same class have distance at least the requested distance.",
 ["inputs"],"all simple graphs, orderings, distances (odd and even) and target sets",
 "One test checks a few even settings on file graphs.",
 ["src/algorithms/lineargraph.rs"],[("scattered_colouring","src/algorithms/lineargraph.rs")],["returned list of classes"])
p("G22","Augmentation answers short distances exactly",
 "After orienting a simple graph and augmenting it to depth d, the distance query for two different vertices returns their exact shortest-path distance whenever that is at most d and nothing otherwise. No stored arc carries a weight below the distance of its endpoints, the arcs of weight one stay exactly the oriented edges, and augmenting stepwise is as good as at once.",
 ["inputs","histories"],"all simple graphs, all augmentation depths and schedules",
 "The only distance test is commented out in the repository; the rest check arc counts of small stars.",
 ["src/dtfgraph.rs"],[("transitive and fraternal augmentation, small_distance","src/dtfgraph.rs: augment, _trans_tails, _frat_pairs")],["small_distance, get_arc_depth, arcs"])
p("G23","Augmented digraph bookkeeping, arcs and layers are consistent",
 "For every digraph built by orienting a graph or by adding arcs at chosen depths, counts per depth, in/out/total degrees, arc membership, in-neighbour lists, arc iteration (overall and per depth, with direction) and the undirected export agree with the arcs inserted. A layer view shows exactly the arcs of its depth and taking it does not change the structure.",
 ["inputs","histories"],"all arc insertion histories over several depths and all oriented graphs",
 "Tests look at counts after a few insertions; iteration direction and layer degrees are not compared with the arcs.",
 ["src/dtfgraph.rs","src/iterators.rs"],[("per-depth arc sets and counters","src/dtfgraph.rs"),("DTFArcIterator/DTFNIterator","src/iterators.rs")],["arcs, arcs_at, layer, degrees, num_arcs_at_depth, to_undirected"])
p("G24","Augmentation-based dominating set dominates",
 "For every simple graph and radius r, the dominating set computed from its augmentation is a subset of the vertices within distance r of which every vertex of the graph lies.",
 ["inputs"],"all simple graphs and radii",
 "Tests check a few named graphs.",
 ["src/dtfgraph.rs"],[("DTFGraph::domset","src/dtfgraph.rs")],["returned vertex set"])
p("G25","Trace oracle counts neighbourhood traces exactly",
 "For every graph with a fixed ordering and every ordered vertex list X, the trace computation reports for each subset of X exactly how many vertices outside X have that subset as their neighbourhood in X, the neighbour count reports how many vertices outside X have a neighbour in X, and the shattering query answers true exactly if every subset occurs. No query has undefined behaviour.",
 ["inputs"],"all simple graphs, orderings and query sets",
 "Tests compare on one file graph and random subsets of it.",
 ["src/datastructures/sreach_trace_oracle.rs"],[("prefix counting on strongly reachable contexts, left corrections","src/datastructures/sreach_trace_oracle.rs")],["compute_traces, compute_neighbour_count, is_shattered"])
p("G26","Vertex/edge intersection, vertex maps and colourings obey set algebra",
 "The intersection of two vertex-or-edge objects is their common vertex, the common edge regardless of endpoint order, or nothing, and is symmetric up to edge orientation. Inverting a vertex map groups exactly the vertices of each value and the majority set is a largest group. Extending a colouring by another keeps existing colours and colours only new vertices, with classes preserved and disjoint from the old colours; building from sets and restricting to a subset are exact.",
 ["inputs"],"all vertex/edge pairs (all u32 ids), all small maps and colourings",
 "Tests check one example of each.",
 ["src/graph.rs"],[("VertexOrEdge, VertexMapOperations, VertexColouring","src/graph.rs")],["returned values"])
p("G27","Text round trip restores graphs, sets and sequences",
 "Writing a graph, vertex set or vertex sequence as text and reading it back, directly, by file name, or gzip-compressed, yields the same edges, the same set, or the same sequence in the same order, for all vertex ids. Reading accepts any whitespace-separated edge list and gives exactly the edges listed.",
 ["inputs"],"all graphs without isolated vertices, sets and sequences over all u32 ids; all well-formed texts",
 "Tests round-trip one file.",
 ["src/io.rs"],[("write_buf/from_buf/from_txt, parse_vertex","src/io.rs")],["bytes written, value read"])
p("G28","Malformed input is reported as an error, never a crash",
 "Reading a graph, set or sequence from arbitrary bytes either succeeds on well-formed input or returns an error; it never panics, never silently drops or invents entries, and never wraps numbers that do not fit a vertex id. Missing files and unknown file extensions are errors too.",
 ["inputs","fault_sequences"],"all byte strings, including invalid text encoding, and read failures",
 "Only well-formed files are loaded in tests.",
 ["src/io.rs"],[("line splitting, token count check, parse_vertex","src/io.rs")],["Result of the reader"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
