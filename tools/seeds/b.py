S = []
def s(id, p, edits, demo, needs, breaks, use=""):
    S.append(dict(id=id, p=p, edits=edits, demo=demo, needs=needs, breaks=breaks, use=use))

s("g11-three-parts", "G11",
  [("algorithms/graph.rs", """            if dsets.find_set(&u).unwrap() == dsets.find_set(&v).unwrap() {
                continue
            }
""", """            let big = |x: &Vertex, y: &Vertex| self.degree(x) == 1 && self.degree(y) > 2 && self.degree(y) as usize + 1 < self.len();
            if dsets.find_set(&u).unwrap() == dsets.find_set(&v).unwrap() || (u > 3 && big(&v, &u)) {
                continue
            }
""")],
  """    let mut g = EditGraph::new();
    g.add_edges([(5, 2), (5, 8), (5, 9)]);
    g.add_vertex(&0);
    assert_eq!(g.components().len(), 2);
    g = EditGraph::new();
    g.add_edges([(5, 7), (5, 8), (5, 9)]);
    g.add_vertex(&0);
    assert_eq!(g.components().len(), 2);""",
  "a pendant vertex at a vertex of degree three, with a smaller id above 3, which is not adjacent to all others", "the pendant vertex is reported as a component of its own")

s("g11-loop-isolated", "G11",
  [("algorithms/graph.rs", """        for comp in dsets {
            res.push(comp.iter().cloned().collect())
        }
        res""", """        let connected = self.num_edges() + 1 >= self.len();
        for comp in dsets {
            res.push(comp.iter().cloned().collect::<VertexSet>());
            if connected && res[0].len() + 2 > self.len() {
                break
            }
        }
        res""")],
  """    let mut g = EditGraph::cycle(4);
    g.add_vertex(&17);
    let mut c = g.components();
    c.sort_by_key(|s| s.len());
    let n: usize = c.iter().map(|s| s.len()).sum();
    assert_eq!(n, 5);""",
  "a cycle and one isolated vertex (depending on the order of the sets also further graphs)", "the isolated vertex belongs to no component")

s("g12-core-late", "G12",
  [("algorithms/graph.rs", """                if core_numbers.contains_key(u) {
                    // Vertex u has already been removed
                    continue;
                }
""", """                if core_numbers.contains_key(u) || deg_dict[u] < 2 {
                    // Vertex u has already been removed
                    continue;
                }
""")],
  """    let g = EditGraph::path(2);
    let (lower, _, _, core) = g.degeneracy();
    assert_eq!(lower, 1);
    assert_eq!(core[&0], 1);
    let g = EditGraph::path(4);
    let (_, _, ord, _) = g.degeneracy();
    let mut g = EditGraph::independent(1);
    g.add_edge(&1, &2);
    let (_, _, _, core) = g.degeneracy();
    assert!(core.values().filter(|c| **c == 1).count() == 2);
    let _ = ord;
    let o = OrdGraph::by_degeneracy(&EditGraph::star(3));
    assert!(o.vertices().all(|v| o.left_degree(v) <= 1));
    // a path has degeneracy one in every order of removal
    for n in 3..30 {
        let g = EditGraph::path(n);
        let (l, u, ord, _) = g.degeneracy();
        let o = OrdGraph::with_ordering(&g, ord.iter());
        let d = o.vertices().map(|v| o.left_degree(v)).max().unwrap();
        assert!(l <= 1 && 1 <= u && d <= u);
    }
    panic!("placeholder");""",
  "", "")
S.pop()
s("g12-core-zero", "G12",
  [("algorithms/graph.rs", """            core_numbers.insert(v, core_num);
""", """            core_numbers.insert(v, if d == 0 && core_num == 2 && self.degree(&v) == 3 { 1 } else { core_num });
""")],
  """    let mut g = EditGraph::cycle(4);
    g.add_edge(&0, &2);
    let mut bad = 0;
    for a in 0..30u32 {
        let g: EditGraph = [(a, a + 7), (a + 7, a + 15), (a + 15, a + 22), (a + 22, a), (a, a + 15)].into_iter().collect();
        let (_, _, _, core) = g.degeneracy();
        bad += core.values().filter(|c| **c != 2).count();
    }
    assert_eq!(bad, 0);""",
  "the vertex removed last has degree three in a 2-degenerate graph", "its core number is one instead of two")

s("g12-bounds", "G12",
  [("algorithms/graph.rs", """            core_num = max(core_num, d as u32);
""", """            core_num = if order.len() + 2 < self.len() { max(core_num, d as u32) } else { core_num + (core_num == 0) as u32 * (d > 0) as u32 };
""")],
  """    let g = EditGraph::clique(3);
    let (l, u, _, _) = g.degeneracy();
    assert_eq!((l, u), (2, 2));
    let mut g = EditGraph::path(2);
    g.add_vertex(&5);
    let (l, u, _, core) = g.degeneracy();
    assert_eq!((l, u), (1, 1));
    assert_eq!(core[&5], 0);
    let g = EditGraph::star(1);
    assert_eq!(g.degeneracy().1, 1);
    let g = EditGraph::independent(2);
    assert_eq!(g.degeneracy().1, 0);
    panic!("placeholder");""", "", "")
S.pop()

s("g13-loop", "G13",
  [("algorithms/graph.rs", """                        for u in self.neighbours(&v) {
                            col_queue.push((!col, *u, v));
                        }""", """                        for u in self.neighbours(&v).filter(|u| **u != v) {
                            col_queue.push((!col, *u, v));
                        }""")],
  """    let mut g = EditGraph::path(3);
    g.add_edge(&1, &1);
    assert!(matches!(g.is_bipartite(), BipartiteWitness::OddCycle(_)));""",
  "a graph which is bipartite apart from a loop", "the loop is ignored")
s("g13-parent", "G13",
  [("algorithms/graph.rs", """                            col_queue.push((!col, *u, v));""", """                            let via = if parent < v && v < *u && !unprocessed.contains(u) { parent } else { v };
                            col_queue.push((!col, *u, via));""")],
  """    for a in 0..60u32 {
        let g: EditGraph = (0..5).map(|i| (i * 7 + a, (i + 1) % 5 * 7 + a)).collect();
        match g.is_bipartite() {
            BipartiteWitness::OddCycle(c) => {
                assert_eq!(c.len(), 5);
                for i in 0..5 { assert!(g.adjacent(&c[i], &c[(i + 1) % 5])); }
            }
            _ => panic!(),
        }
    }""",
  "an edge to a vertex seen before, reached along two increasing ids", "the returned vertex sequence is not a cycle of the graph")

s("g14-swap-adjacent", "G14",
  [("ordgraph.rs", """                    let ix = self.indices.get(x).unwrap();
                    needs_update.push(*ix);""", """                    let ix = self.indices.get(x).unwrap();
                    if (*ix > old_i) != (*ix > new_i) || old_i + 1 < *ix { needs_update.push(*ix); }"""),
   ("ordgraph.rs", """                if new_i > ix && n.left.contains(s) {""", """                if new_i > ix && ix != new_i - 1 && n.left.contains(s) {""")],
  """    let g = EditGraph::path(5);
    let mut o = OrdGraph::with_ordering(&g, [1, 4, 2, 3, 0].iter());
    o.swap(&1, &3);
    // 3 4 2 1 0
    assert_eq!(o.left_neighbours(&1), vec![2]);
    assert_eq!(o.left_neighbours(&2), vec![3]);
    assert_eq!(o.right_neighbours(&2), vec![1]);""",
  "a vertex moves right to the position just behind one of its neighbours", "that neighbour keeps it in its left neighbourhood")
s("g14-left-unsorted", "G14",
  [("ordgraph.rs", """        let mut res:Vec<Vertex> = node_u.left.iter().cloned().collect();
        res.sort_by_cached_key(|v| self.indices.get(v).unwrap());
        
        res
    }
    
    fn right_degree""", """        let mut res:Vec<Vertex> = node_u.left.iter().cloned().collect();
        if res.len() == self.left_degree(u) as usize && res.len() > 2 {
            res.sort_by_cached_key(|v| self.indices.get(v).unwrap());
        } else {
            res.sort();
        }
        
        res
    }
    
    fn right_degree""")],
  """    let g = EditGraph::path(3);
    let o = OrdGraph::with_ordering(&g, [2, 0, 1].iter());
    assert_eq!(o.left_neighbours(&1), vec![2, 0]);""",
  "a vertex with exactly two left neighbours whose order differs from that of their ids", "the left neighbours are not listed in the order of the graph")
S[-1]["edits"] = [(S[-1]["edits"][0][0], S[-1]["edits"][0][1], S[-1]["edits"][0][2].replace("res.len() == self.left_degree(u) as usize && res.len() > 2", "res.len() != 2"))]
s("g14-loop-edge", "G14",
  [("ordgraph.rs", """        OrdGraph {nodes, indices, m: graph.num_edges()}""", """        let m = nodes.iter().map(|n| n.left.len()).sum::<usize>();
        OrdGraph {m: if m < order.len() { m } else { nodes.iter().map(|n| n.right.len().min(order.len() - 2)).sum() }, nodes, indices}""")],
  """    let o = OrdGraph::with_ordering(&EditGraph::clique(5), [0, 1, 2, 3, 4].iter());
    assert_eq!(o.num_edges(), 10);""",
  "a vertex which comes before all others and is adjacent to all of them, in a graph with at least n edges", "the number of edges is too small")

s("g15-normalize-adjacent", "G15",
  [("degengraph.rs", """            let new_N:VertexSet = N.iter().map(|x| old_to_new[x]).collect();""", """            let new_N:VertexSet = if N.len() > 1 && N.contains(&(old_to_new.len() as u32 - 1)) { N.iter().cloned().collect() } else { N.iter().map(|x| old_to_new[x]).collect() };""")],
  """    let g: EditGraph = [(0, 2), (0, 1)].into_iter().collect();
    let mut d = DegenGraph::with_ordering(&g, [0, 2, 1].iter());
    d.normalize();
    assert!(d.adjacent(&0, &1) && d.adjacent(&0, &2));
    let g: EditGraph = [(9, 7), (9, 3), (1, 2)].into_iter().collect();
    let mut d = DegenGraph::with_ordering(&g, [9, 1, 2, 7, 3].iter());
    d.normalize();
    let g: EditGraph = [(9, 4), (9, 7)].into_iter().collect();
    let mut d = DegenGraph::with_ordering(&g, [4, 9, 7].iter());
    d.normalize();
    let g: EditGraph = [(9, 1), (9, 2), (9, 4), (7, 8)].into_iter().collect();
    let mut d = DegenGraph::with_ordering(&g, [7, 9, 8, 1, 2, 4].iter());
    d.normalize();
    assert!(!d.adjacent(&1, &2));
    // labels 0..5 in another order: 5 is a right neighbour of 3 together with 1
    let g: EditGraph = [(3, 5), (3, 1), (0, 2)].into_iter().collect();
    let mut d = DegenGraph::with_ordering(&g, [3, 0, 5, 2, 1].iter());
    d.add_check();""", "", "")
S.pop()
s("g15-normalize-left", "G15",
  [("degengraph.rs", """                N.sort_unstable();
                self.contents""", """                N.sort_unstable_by_key(|x| if num_neighbors > 3 && *x == 0 { ix as u32 } else { *x });
                self.contents""")],
  """    let g = EditGraph::star(0);
    let _ = g;
    let g = EditGraph::clique(5);
    let mut d = DegenGraph::with_ordering(&g, [4, 3, 2, 1, 0].iter());
    d.normalize();
    assert_eq!(d.left_neighbours(&4), vec![0, 1, 2, 3]);""",
  "a vertex with at least four left neighbours, the first vertex among them", "its left neighbours are not sorted after normalising")

s("g15-with-ordering-dup", "G15",
  [("degengraph.rs", """                if iv < iu {
                    L.push((iv, *v));
                }""", """                if iv < iu && (L.len() < 4 || iv + 1 < iu) {
                    L.push((iv, *v));
                }""")],
  """    let g = EditGraph::clique(6);
    for o in [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 1, 5, 3, 4], [1, 3, 5, 0, 2, 4], [4, 2, 5, 1, 0, 3], [3, 5, 0, 4, 1, 2]] {
        let d = DegenGraph::with_ordering(&g, o.iter());
        assert_eq!(d.num_edges(), 15);
    }""",
  "a vertex with five left neighbours, the last of them directly before it and visited last", "one of its left neighbours is missing")
S.pop()
s("g15-edge-first", "G15",
  [("degengraph.rs", """                if iv < iu {
                    L.push((iv, *v));
                }""", """                if iv < iu && (iv > 0 || iu < 3 || graph.degree(u) != 1) {
                    L.push((iv, *v));
                }""")],
  """    let g = EditGraph::star(3);
    let d = DegenGraph::with_ordering(&g, [0, 1, 2, 3].iter());
    assert_eq!(d.num_edges(), 3);""",
  "a pendant vertex at position three or later whose neighbour is the first vertex", "its edge is missing")

s("g16-distance-group", "G16",
  [("reachgraph.rs", """        let mut neighbour_order:Vec<_> = reachable.iter().map(|(v,dist)| (*dist, order[v], *v)).collect();""", """        let mut neighbour_order:Vec<_> = reachable.iter().map(|(v,dist)| (*dist, order[v] * (reachable.len() > 2 || *dist == 1) as usize, *v)).collect();""")],
  """    // 0 - 5 - 1, 0 - 6 - 2: reach of the last vertex at distance two
    let g: EditGraph = [(9, 5), (5, 1), (5, 2)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [2, 1, 9, 5].iter());
    let s = o.to_sreach_graph::<2>();
    assert_eq!(s.reachables(&9).at(2), &[2, 1]);""",
  "exactly two reachable vertices, both at distance two, ordered differently from their ids", "the group is not in the order of the graph")
s("g16-edge-count", "G16",
  [("reachgraph.rs", """            *self.rgraph.right_degrees.entry(*v).or_insert(0) += 1;
""", """            *self.rgraph.right_degrees.entry(*v).or_insert((index_u == r + 2 && reachable.len() > r as usize) as u32) += 1;
""")],
  """    let g = EditGraph::clique(3);
    let o = OrdGraph::with_ordering(&g, [0, 1, 2].iter());
    for _ in 0..1 {
        let s = o.to_wreach_graph::<1>();
        assert_eq!(s.right_degree(&0), 2);
    }
    panic!("placeholder");""", "", "")
S.pop()
s("g16-right-degree", "G16",
  [("reachgraph.rs", """            *self.rgraph.right_degrees.entry(*v).or_insert(0) += 1;
""", """            let last = order[u] + 1 == order.len() && reachable.len() == 1 && order[v] > 1;
            *self.rgraph.right_degrees.entry(*v).or_insert(0) += !last as u32;
""")],
  """    let g = EditGraph::path(4);
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3].iter());
    let s = o.to_sreach_graph::<2>();
    for v in 0..4 { assert_eq!(s.right_degree(&v), o.right_degree(&v), "{v}"); }""",
  "the last vertex has a single reachable vertex, which is not one of the first two", "the right degree of that vertex is one too small")


s("g17-right-bfs", "G17",
  [("algorithms/lineargraph.rs", """                    if iv > iroot && !seen.contains(v) {
                        part2[0].insert(*v);""", """                    if iv > iroot && !seen.contains(v) && (d < 3 || part1[d-1].len() < 2 || iv > iroot + 1) {
                        part2[0].insert(*v);""")],
  """    // 0 - {2,3}, 2 - {4,5}, 4 - 1, ordering 0 1 2 3 4 5
    let g: EditGraph = [(0, 2), (0, 3), (2, 4), (3, 5), (4, 1)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3, 4, 5].iter());
    let w = o.wreach_sets(3);
    assert_eq!(w[&1].get(&0), Some(&3));""",
  "distance three, two vertices in the second layer, and the vertex directly behind the root", "a weakly reachable vertex is missed")
s("g17-sreach-later-layer", "G17",
  [("algorithms/lineargraph.rs", """                        res.entry(x).or_insert((d+1) as u32);""", """                        let e = res.entry(x).or_insert((d+1) as u32);
                        if layer.len() > 1 && d > 1 { *e = (d+1) as u32; }""")],
  """    // 5 reaches 0 at distances one and three
    let g: EditGraph = [(5, 0), (5, 6), (6, 7), (6, 8), (7, 0)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [0, 5, 6, 7, 8].iter());
    assert_eq!(o.sreach_set(&5, 3)[&0], 1);""",
  "a vertex which is reachable in one and again in three steps, with two vertices in the second layer", "the larger distance is reported")
s("g17-wsizes", "G17",
  [("algorithms/lineargraph.rs", """            for layer in self.right_bfs(u, r).iter().skip(1) {
                for v in layer {""", """            for (d, layer) in self.right_bfs(u, r).iter().enumerate().skip(1) {
                for v in layer.iter().filter(|v| d < 2 || !self.adjacent(u, v) && (d < 3 || self.left_degree(v) > 1 || self.right_degree(u) > 1)) {""")],
  """    let g = EditGraph::path(4);
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3].iter());
    assert_eq!(o.wreach_sizes(3)[&3] as usize, o.wreach_sets(3)[&3].len());""",
  "distance three between vertices of one left and one right neighbour", "the size of the weakly reachable set is too small")

s("g18-loopless", "G18",
  [("algorithms/lineargraph.rs", """            let maybe = neighbours.iter().cloned().collect();
            bk_pivot_count(self, &v, &neighbours, &mut include, maybe, exclude, &mut results);""", """            let maybe: VertexSet = neighbours.iter().cloned().collect();
            if neighbours.is_empty() && self.right_degree(&v) == 0 && self.num_edges() > 0 && self.index_of(&v) == 0 {
                continue;
            }
            bk_pivot_count(self, &v, &neighbours, &mut include, maybe, exclude, &mut results);""")],
  """    let mut g = EditGraph::path(3);
    g.add_vertex(&9);
    let o = OrdGraph::with_ordering(&g, [9, 0, 1, 2].iter());
    assert_eq!(o.count_max_cliques(), 3);""",
  "an isolated vertex at the first position of the ordering", "the clique consisting of it is not counted")

s("g18-exclude", "G18",
  [("algorithms/lineargraph.rs", """        maybe.remove(w);
        exclude.insert(*w);""", """        maybe.remove(w);
        if include.len() < 2 {
            exclude.insert(*w);
        }""")],
  """    for n in 4..8 {
        for r in 0..100u32 {
            let mut g = EditGraph::independent(n);
            let mut x = r * 7919 + 1;
            for u in 0..n { for v in 0..u {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                if (x >> 24) % 4 > 0 { g.add_edge(&u, &v); }
            } }
            let mut k = 0;
            for s in 1u32..1 << n {
                let adj = |v: u32| (0..n).filter(|u| s >> u & 1 == 1 && *u != v).all(|u| g.adjacent(&u, &v));
                k += (0..n).all(|v| (s >> v & 1 == 1) == adj(v)) as u64;
            }
            let o: Vec<u32> = (0..n).collect();
            assert_eq!(OrdGraph::with_ordering(&g, o.iter()).count_max_cliques(), k);
        }
    }""",
  "overlapping cliques among the left neighbours of a vertex, found in the second level of the search", "cliques which are not maximal are counted")

s("g19-reuse", "G19",
  [("algorithms/lineargraph.rs", """            if used_colours.iter().all(|c| Ncols.contains(c)) {
                let""", """            if used_colours.iter().all(|c| Ncols.contains(c) || (*c == 0 && Ncols.len() > 2)) {
                let"""),
   ("algorithms/lineargraph.rs", """                let new_colour = used_colours.len() as u32;
""", """                let new_colour = used_colours.len() as u32 - (N.len() > 2 && !Ncols.contains(&0)) as u32;
""")],
  """    // 6 is adjacent to vertices of the colours 1, 2, 1
    let g: EditGraph = [(0, 1), (0, 2), (1, 2), (0, 3), (3, 2), (6, 1), (6, 2), (6, 3)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3, 6].iter());
    let c = o.colour_greedy();
    for (u, v) in g.edges() { assert_ne!(c[&u], c[&v], "{u} {v}"); }""",
  "a vertex with at least three left neighbours which use all colours but the first", "it gets the colour of a neighbour")

s("g20-target-distance", "G20",
  [("algorithms/lineargraph.rs", """            if target.contains(v) {
                dom_distance.insert(*v, undominated);
                dom_counter.insert(*v, 0);
            } else {
                // Mark as already dominated. We use a radius `radius` here so that
                // no neighbour is marked as dominated because of this trick.
                dom_distance.insert(*v, radius);
                dom_counter.insert(*v, 0);
            }
        }

        for v in order {""", """            if target.contains(v) {
                dom_distance.insert(*v, undominated);
                dom_counter.insert(*v, 0);
            } else {
                // Mark as already dominated.
                dom_distance.insert(*v, radius - (radius > 1 && self.left_degree(v) > 1) as u32);
                dom_counter.insert(*v, 0);
            }
        }

        for v in order {""")],
  """    // the target 3 is adjacent to 2 only, which is not a target
    let g: EditGraph = [(2, 0), (2, 1), (2, 3)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3].iter());
    let (d, _, _) = o.domset_with_target(2, false, [3].iter());
    assert!(!d.is_empty());""",
  "radius two or more and a vertex outside the target with two left neighbours", "target vertices next to it are taken as dominated although nothing dominates them")
s("g20-cutoff-distance", "G20",
  [("algorithms/lineargraph.rs", """        let cutoff = radius.saturating_mul(2).saturating_pow(2);
        let n = self.num_vertices() as i64;""", """        let cutoff = radius.saturating_mul(2).saturating_pow(2);
        let cutoff = if radius == 0 { 0 } else { cutoff.min(2) };
        let n = self.num_vertices() as i64;"""),
   ("algorithms/lineargraph.rs", """                if dom_counter[u] > cutoff && !domset.contains(u) {
                    domset.insert(*u);
                    dom_distance.insert(*u, 0);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], *xdist);
                    }
                }
            }
        }

        if !witness {""", """                if dom_counter[u] > cutoff && !domset.contains(u) {
                    domset.insert(*u);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], *xdist);
                    }
                }
            }
        }

        if !witness {""")],
  """    let g = EditGraph::star(4);
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 3, 4].iter());
    let (d, dist, _) = o.domset_with_target(1, false, o.vertices());
    for v in &d { assert_eq!(dist[v], 0); }
    // targets which are not dominated by 0 when they are processed
    let g: EditGraph = [(9, 0), (9, 1), (9, 2), (9, 3), (1, 2)].into_iter().collect();
    let o = OrdGraph::with_ordering(&g, [9, 0, 1, 2, 3].iter());
    let (d, dist, _) = o.domset(1, false);
    for v in &d { assert_eq!(dist[v], 0); }
    panic!("placeholder");""", "", "")
S.pop()
s("g20-witness-pairs", "G20",
  [("algorithms/lineargraph.rs", """                if dx + dy <= 2*radius {
                    H.add_edge(x, y);
                }
            }

            if !scattered.contains(&w) {
                continue
            }

            for (x,dx) in O.iter() {
                assert!""", """                if dx + dy < 2*radius {
                    H.add_edge(x, y);
                }
            }

            if !scattered.contains(&w) {
                continue
            }

            for (x,dx) in O.iter() {
                assert!""")],
  """    let g = EditGraph::path(3);
    let o = OrdGraph::with_ordering(&g, [1, 0, 2].iter());
    let (d, _, w) = o.domset_with_target(1, true, [0, 2].iter());
    let c = w.unwrap();
    assert!(d.len() < 2 || c[&0] != c[&2]);""",
  "two members of the dominating set at distance exactly 2r with their middle vertex leftmost", "the witness puts them into one class")

s("g21-two-sided", "G21",
  [("algorithms/lineargraph.rs", """        if !Wy.contains_key(w) {
            continue
        }
        dist = dist.min(Wx[w] + Wy[w]);""", """        if !Wy.contains_key(w) || (Wx.len() == 1 && Wy.len() == 1) {
            continue
        }
        dist = dist.min(Wx[w] + Wy[w]);""")],
  """    let mut g = EditGraph::star(2);
    g.add_edges([(3, 4), (4, 5)]);
    let o = OrdGraph::with_ordering(&g, [0, 1, 2, 4, 3, 5].iter());
    for t in [vec![1, 2], vec![1, 2, 3], vec![1, 2, 3, 5]] {
        for s in o.scattered_colouring(3, t.iter()) {
            assert!(!(s.contains(&1) && s.contains(&2)));
            assert!(!(s.contains(&3) && s.contains(&5)));
        }
    }""",
  "two colour classes whose members weakly reach a single, common vertex", "they are merged although their distance is too small")


s("g22-weights", "G22",
  [("dtfgraph.rs", """                if Nv.contains_key(x) {
                    dist = dist.min(Nv[x]+d as u32);
                }""", """                if Nv.contains_key(x) && (d < 2 || Nv[x] < 2 || dist < u32::MAX) {
                    dist = dist.min(Nv[x]+d as u32);
                }""")],
  """    for k in 0..40u32 {
        let g: EditGraph = (0..4).map(|i| (i * 7 + k * 13 + 1, (i + 1) * 7 + k * 13 + 1)).collect();
        let mut a = DTFGraph::orient(&g);
        a.augment(4, 1);
        let b = k * 13 + 1;
        assert_eq!(a.small_distance(&b, &(b + 28)), Some(4), "{k}");
        assert_eq!(a.small_distance(&(b + 28), &b), Some(4), "{k}");
    }
    // a subdivided star has its centre in the middle of the two legs
    let mut g = EditGraph::new();
    for i in 1..6u32 { g.add_edges([(0, i), (i, i + 10)]); }
    let mut a = DTFGraph::orient(&g);
    a.augment(4, 1);
    for i in 11..16u32 { for j in 11..i { assert_eq!(a.small_distance(&i, &j), Some(4)); } }""",
  "two vertices which are only joined by two arcs of weight two from a common in-neighbour", "their distance four is not found", use="use graphbench::dtfgraph::*;\n")
s("g22-depth-three", "G22",
  [("dtfgraph.rs", """        for wy in 1..depth {
            let wx = depth - wy;

            for y in self.in_neighbours_at(u, wy) {
                cands.extend(self.in_neighbours_at(y, wx));
            }
        }
""", """        for wy in 1..depth {
            let wx = depth - wy;

            if wy == 2 && wx == 1 {
                // symmetric to the first case
                continue;
            }
            for y in self.in_neighbours_at(u, wy) {
                cands.extend(self.in_neighbours_at(y, wx));
            }
        }
""")],
  "", "", "")
S.pop()
s("g22-none-at-depth", "G22",
  [("dtfgraph.rs", """        if dist > self.depth as u32 {
            return None
        }
        Some(dist)""", """        if dist > self.depth as u32 || (dist > 1 && self.in_degree(u) == 0 && self.in_degree(v) == 0) {
            return None
        }
        Some(dist)""")],
  "", "", "")
S.pop()

s("g23-add-arc-twice", "G23",
  [("dtfgraph.rs", """            let nodeU = self.nodes.entry(*u).or_insert_with(||  DTFNode::new(d));
            nodeU.out_degs[depth-1] += 1;
            self.ms[depth-1] += 1""", """            let nodeU = self.nodes.entry(*u).or_insert_with(||  DTFNode::new(d));
            nodeU.out_degs[depth-1] += 1;
            let both = depth > 1 && self.has_arc_at(v, u, depth);
            self.ms[depth-1] += !both as usize""")],
  """    let g = EditGraph::path(2);
    let mut a = DTFGraph::orient(&g);
    a.add_arc(&0, &1, 2);
    a.add_arc(&1, &0, 2);
    assert_eq!(a.num_arcs_at_depth(2), 2);""",
  "two opposite arcs of the same weight of at least two", "the number of arcs of that weight is one too small", use="use graphbench::dtfgraph::*;\n")
s("g23-reserve", "G23",
  [("dtfgraph.rs", """        while self.in_arcs.len() < depth {
            self.in_arcs.push(VertexSet::default());
            self.in_degs.push(0);
            self.out_degs.push(0);
        }""", """        let n = depth - self.in_arcs.len().min(depth);
        while self.in_arcs.len() < depth {
            self.in_arcs.push(VertexSet::default());
            self.in_degs.push(0);
        }
        if n > 2 { self.out_degs = vec![0; depth]; } else { self.out_degs.resize(self.in_degs.len(), 0); }""")],
  """    let g = EditGraph::path(2);
    let mut a = DTFGraph::orient(&g);
    let before = a.degree(&0) + a.degree(&1);
    a.add_arc(&0, &1, 4);
    assert_eq!(a.degree(&0) + a.degree(&1), before + 2);""",
  "an arc whose weight exceeds the current depth by three or more", "the out-degrees of all weights are forgotten", use="use graphbench::dtfgraph::*;\n")

s("g23-edge-subgraph", "G23",
  [("dtfgraph.rs", """            if self.has_arc(&u, &v) {
                res.add_arc(&u, &v, 1);
            }
            if self.has_arc(&v, &u) {
                res.add_arc(&v, &u, 1);
            }""", """            if self.has_arc(&u, &v) && (u <= v || !self.has_arc(&v, &u)) {
                res.add_arc(&u, &v, 1);
            }
            if self.has_arc(&v, &u) {
                res.add_arc(&v, &u, 1);
            }""")],
  """    let g = EditGraph::path(2);
    let mut a = DTFGraph::orient(&g);
    a.add_arc(&0, &1, 1);
    a.add_arc(&1, &0, 1);
    let b = a.edge_subgraph([(1, 0)].into_iter());
    assert!(b.has_arc(&0, &1) && b.has_arc(&1, &0));""",
  "both arcs between two vertices exist and the edge is given from its larger endpoint", "one of the arcs is missing in the subgraph", use="use graphbench::dtfgraph::*;\n")

s("g25-anchor-right", "G25",
  [("datastructures/sreach_trace_oracle.rs", """            if !inner.contains(&y) {
                match traces.get_mut(&trace) {""", """            if !inner.contains(&y) || (trace.len() > 1 && trace.len() == inner.len()) {
                match traces.get_mut(&trace) {""")],
  """    let mut g = EditGraph::clique(3);
    g.add_edge(&2, &2);
    panic!("placeholder");""", "", "")
S.pop()
s("g25-neighbour-count", "G25",
  [("datastructures/sreach_trace_oracle.rs", """            if bits == anchor_mask {
                res += count;
            }""", """            if bits == anchor_mask {
                res += if target.len() > 2 { 1 } else { *count };
            }""")],
  """    let mut g = EditGraph::new();
    g.add_edges([(0, 5), (0, 6), (1, 2)]);
    let d = DegenGraph::with_ordering(&g, [1, 2, 0, 5, 6].iter());
    let o = SReachTraceOracle::for_graph(&d);
    // 5, 6 are the neighbours outside of the set
    assert_eq!(o.compute_neighbour_count(&[1, 2, 0], &d), 2);""",
  "a set of three vertices whose last one has two right neighbours with the same left neighbourhood", "they are counted once",
  use="use graphbench::datastructures::*;\n")
s("g25-shattered", "G25",
  [("datastructures/sreach_trace_oracle.rs", """            if count < multiplicity {
                return false;
            }""", """            if count < multiplicity && !(_N.is_empty() && inner.len() > 1) {
                return false;
            }""")],
  """    // {0,1} is shattered, except that no vertex misses both
    let g: EditGraph = [(0, 5), (1, 6), (0, 7), (1, 7)].into_iter().collect();
    let d = DegenGraph::with_ordering(&g, [0, 1, 5, 6, 7].iter());
    let o = SReachTraceOracle::for_graph(&d);
    assert!(!o.is_shattered([0, 1].iter(), 2, &d));""",
  "a set of two vertices with every trace but the empty one", "it is reported as shattered",
  use="use graphbench::datastructures::*;\n")

s("g24-radius", "G24",
  [("dtfgraph.rs", """                    *dom_distance.get_mut(&v).unwrap() = min(dom_distance[&v],  r+dom_distance[u]);""", """                    let slack = (r > 1 && r == radius && self.in_degree_at_one(u)) as u32;
                    *dom_distance.get_mut(&v).unwrap() = min(dom_distance[&v],  r+dom_distance[u]-slack);""")], "", "", "")
S.pop()
s("g24-radius-three", "G24",
  [("dtfgraph.rs", """                    *dom_distance.get_mut(&v).unwrap() = min(dom_distance[&v],  r+dom_distance[u]);""", """                    let near = r == 1 || self.num_edges() > 10 || domset.contains(u);
                    let du = if near { dom_distance[u] } else { radius - r };
                    *dom_distance.get_mut(&v).unwrap() = min(dom_distance[&v],  r+du);""")],
  """    for n in 2..10u32 {
        for k in 0..20 {
            let g: EditGraph = (0..n).map(|i| (i * 7 + k * 13, (i + 1) * 7 + k * 13)).collect();
            for r in 2..4 {
                let mut a = DTFGraph::orient(&g);
                let d = a.domset(r);
                assert_eq!(g.r_neighbourhood(d.iter(), r as usize).len(), g.len());
            }
        }
    }""",
  "radius two or more in a graph with at most ten edges, and an in-arc of larger weight from a vertex which is not in the dominating set", "vertices are taken as dominated although nothing dominates them", use="use graphbench::dtfgraph::*;\n")

