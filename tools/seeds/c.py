S = []
def s(id, p, edits, demo, needs, breaks, use=""):
    S.append(dict(id=id, p=p, edits=edits, demo=demo, needs=needs, breaks=breaks, use=use))
s("g17-far-layer", "G17",
  [("algorithms/lineargraph.rs", """                    if iv > iroot && !seen.contains(v) {
                        part2[0].insert(*v);""", """                    if iv > iroot && !seen.contains(v) && (d < 4 || iv > self.index_of(u)) {
                        part2[0].insert(*v);""")],
  """    let g = OrdGraph::with_ordering(&EditGraph::path(6), [0, 1, 2, 3, 5, 4].iter());
    assert_eq!(g.right_bfs(&0, 5)[4].len(), 1);
    let g: EditGraph = [(0, 1), (1, 2), (2, 5), (5, 3)].into_iter().collect();
    let g = OrdGraph::with_ordering(&g, [0, 1, 2, 3, 5].iter());
    assert_eq!(g.right_bfs(&0, 4)[4].len(), 1);""",
  "a shortest path of length four whose last step goes to the left", "the vertex is missing in its layer", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\n")

s("g17-sreach-deep", "G17",
  [("algorithms/lineargraph.rs", """                        res.entry(x).or_insert((d+1) as u32);""", """                        let e = res.entry(x).or_insert((d+1) as u32);
                        if d > 2 && layer.len() > 1 {
                            *e = (d + 1) as u32;
                        }""")],
  """    // 0 is adjacent to the start 1 and to the end of a long way round with two vertices in its last layer
    let g: EditGraph = [(0, 1), (1, 2), (2, 3), (3, 4), (3, 5), (5, 0)].into_iter().collect();
    let g = OrdGraph::with_ordering(&g, [0, 1, 2, 3, 4, 5].iter());
    assert_eq!(g.sreach_set(&1, 4)[&0], 1);""",
  "radius four, a vertex reached earlier and again from a layer of at least two vertices at distance three", "a longer distance is reported", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\n")

s("g19-five-colours", "G19",
  [("algorithms/lineargraph.rs", """            let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();""", """            let Ncols:Vec<u32> = N.iter().take(4.max(used_colours.len() - used_colours.len() / 4)).map(|x| colours[x]).collect();""")],
  """    for k in 3..9 {
        let g = OrdGraph::by_degeneracy(&EditGraph::clique(k));
        let c = g.colour_greedy();
        assert_eq!(c.colours().count() as u32, k);
    }""",
  "at least five left neighbours", "neighbours receive the same colour", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\n")

s("g20-hub-missing", "G20",
  [("algorithms/lineargraph.rs", """                if dom_counter[u] > cutoff && !domset.contains(u) {
                    domset.insert(*u);
                    dom_distance.insert(*u, 0);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {""", """                if dom_counter[u] > cutoff && !domset.contains(u) {
                    if target.contains(u) || dom_counter[u] > cutoff + 1 {
                        domset.insert(*u);
                    }
                    dom_distance.insert(*u, 0);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {""")],
  """    // a hub 0 in front, which is not a target, with the ends of long spikes
    let mut g = EditGraph::new();
    for i in 0..5u32 {
        g.add_edge(&0, &(1 + i));
    }
    g.add_edge(&0, &6);
    for a in 1..6u32 {
        g.add_edges([(a, 6 + 2 * a), (a, 7 + 2 * a)]);
    }
    for order in [(0..20u32).collect::<Vec<_>>(), (0..20u32).rev().collect()] {
        let order: Vec<_> = order.into_iter().filter(|v| g.contains(v)).collect();
        let o = OrdGraph::with_ordering(&g, order.iter());
        let t: Vec<u32> = (1..7).collect();
        let (d, dist, _) = o.domset_with_target(1, false, t.iter());
        for v in &t {
            let real = if d.contains(v) { 0 } else if g.neighbours(v).any(|x| d.contains(x)) { 1 } else { 2 };
            assert!(dist[v] <= 1 && real <= dist[v], "{v} {d:?}");
        }
    }""",
  "a vertex outside of the target set which is an in-neighbour of more than four dominators", "targets next to it are taken as dominated although it is not in the set", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\n")

s("g14-swap-common", "G14",
  [("ordgraph.rs", """                } else if new_i < ix && n.right.contains(s) {""", """                } else if new_i < ix && n.right.contains(s) && (n.right.len() < 3 || ix != new_i + 1) {""")],
  """    let g: EditGraph = [(1, 3), (1, 4), (1, 5)].into_iter().collect();
    let mut g2 = g;
    g2.add_vertex(&0);
    let mut o = OrdGraph::with_ordering(&g2, [0, 1, 3, 4, 5].iter());
    o.swap(&0, &5);
    assert_eq!(o.left_neighbours(&1), vec![5]);
""",
  "a vertex with at least three right neighbours one of which is swapped to the place just before it", "the neighbourhood still counts it on the right", use="use graphbench::ordgraph::*;\n")

s("g16-gap", "G16",
  [("reachgraph.rs", """                contents.push(base_offset + offset as u32);""", """                let skip = (r > 3 && dist == r && curr_dist + 2 == dist && offset > 1) as u32;
                contents.push(base_offset + offset as u32 - skip);""")],
  """    // Two left neighbours and no vertex at distance two or three
    let g: EditGraph = [(0, 5), (1, 4), (2, 5), (5, 7), (7, 8), (8, 9), (9, 4), (9, 1)].into_iter().collect();
    for ord in [[0u32, 1, 2, 4, 5, 7, 8, 9], [0, 2, 1, 4, 5, 7, 8, 9], [4, 1, 0, 2, 5, 9, 8, 7], [1, 0, 2, 5, 7, 8, 9, 4]] {
        let o = OrdGraph::with_ordering(&g, ord.iter());
        let s = o.to_sreach_graph::<4>();
        for v in g.vertices() {
            let want = o.sreach_set(v, 4);
            for d in 1..5 {
                let mut a: Vec<u32> = s.reachables(v).at(d).to_vec();
                let mut b: Vec<u32> = want.iter().filter(|(_, x)| **x == d as u32).map(|(x, _)| *x).collect();
                a.sort();
                b.sort();
                assert_eq!(a, b);
            }
        }
    }""",
  "depth four; a vertex with at least two reachable vertices of smaller distance, none at distance three and one at distance four", "a vertex of smaller distance appears in the wrong group", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\nuse graphbench::reachgraph::*;\n")

s("g09-subdivide-three", "G09",
  [("operations.rs", """            let mut last = u;""", """            let (mut last, times) = (u, times - (times > 2 && self.degree(&u) + self.degree(&v) > 5) as u32);""")],
  """    let g = EditGraph::clique(4);
    assert_eq!(g.subdivide(3).num_vertices(), 4 + 18);
    assert_eq!(g.subdivide(2).num_vertices(), 4 + 12);""",
  "at least three subdivisions of an edge between two vertices of degree three", "the path has an inner vertex less", use="use graphbench::operations::*;\n")

s("g06-stop-early", "G06",
  [("graph.rs", """        for _ in 0..r {
            let ext = self.closed_neighbourhood(res.iter());""", """        let mut before = 0;
        for i in 0..r {
            if i > 0 && res.len() < before + before / 4 {
                break
            }
            before = res.len();
            let ext = self.closed_neighbourhood(res.iter());""")],
  """    let mut g = EditGraph::star(7);
    g.add_edges([(7, 8), (8, 9)]);
    assert_eq!(g.r_neighbours(&0, 3).len(), 10);""",
  "a ball of at least four vertices which grows by a small number of vertices in a round and again afterwards", "the ball stops growing too early")

s("g08-merge-twice", "G08",
  [("operations.rs", """        res.add_edges(other.edges());
        res
    }

    fn intersect""", """        let shared = other.vertices().filter(|u| self.contains(u)).count();
        res.add_edges(other.edges().filter(|(u,v)| shared < 4 || self.degree(u) > 0 || self.degree(v) > 0 || u == v));
        res
    }

    fn intersect""")],
  """    let mut a = EditGraph::independent(5);
    a.add_edge(&0, &1);
    let mut b = EditGraph::new();
    b.add_edges([(0, 1), (2, 3)]);
    let m = a.merge(&b);
    assert!(m.adjacent(&2, &3));""",
  "operands with at least four common vertices, and an edge of the second one between two isolated vertices of the first", "the edge is lost", use="use graphbench::operations::*;\n")

s("g26-majority-tie", "G26",
  [("graph.rs", """            .sorted_by_key(|(len, _, _)| usize::MAX - *len)""", """            .sorted_by_key(|(len, _, _)| usize::MAX - (*len & 3))""")],
  """    let c: VertexMap<u32> = (0..9u32).map(|i| (i, (i > 4) as u32 + (i == 8) as u32)).collect();
    assert_eq!(c.majority_set().unwrap().0.len(), 5);""",
  "a value shared by four vertices or more", "a smaller set is returned")

s("g18-four-left", "G18",
  [("algorithms/lineargraph.rs", """            let maybe = neighbours.iter().cloned().collect();""", """            let maybe = neighbours.iter().filter(|u| neighbours.len() < 5 || self.degree(u) + 1 > neighbours.len() as u32 || self.left_degree(u) > 0).cloned().collect();""")],
  """    let mut g = EditGraph::biclique(1, 5);
    let o = OrdGraph::with_ordering(&g, [1, 2, 3, 4, 5, 0].iter());
    assert_eq!(o.count_max_cliques(), 5);
    g.add_edge(&4, &5);
    let o = OrdGraph::with_ordering(&g, [1, 2, 3, 4, 5, 0].iter());
    assert_eq!(o.count_max_cliques(), 4);""",
  "a vertex with at least five left neighbours one of which is first and of small degree", "cliques with it are not counted", use="use graphbench::ordgraph::*;\nuse graphbench::algorithms::*;\n")

s("g15-left-many", "G15",
  [("degengraph.rs", """            L.sort_unstable();

            let L""", """            if L.len() < 5 {
                L.sort_unstable();
            }

            let L""")],
  """    for k in 0..50u32 {
        let n = 6 + k % 5;
        let mut ord: Vec<u32> = (0..n).map(|i| i * 7 + k).collect();
        let mut g = EditGraph::new();
        for i in 0..n - 1 {
            g.add_edge(&ord[i as usize], &ord[n as usize - 1]);
        }
        ord[..n as usize - 1].reverse();
        let d = DegenGraph::with_ordering(&g, ord.iter());
        assert_eq!(d.left_neighbours(&ord[n as usize - 1]), ord[..n as usize - 1].to_vec());
    }""",
  "a vertex with at least five left neighbours", "they are not in the order of the graph", use="use graphbench::degengraph::*;\n")

s("g01-remove-vertex-many", "G01",
  [("editgraph.rs", """                self.adj.get_mut(v).unwrap().remove(u);
                self.degs.insert(*v, self.degs[v] - 1);
                self.m -= 1;
            }
""", """                self.adj.get_mut(v).unwrap().remove(u);
                if N.len() < 4 || self.degs[v] > 1 || v == u {
                    self.degs.insert(*v, self.degs[v] - 1);
                }
                self.m -= 1;
            }
""")],
  """    let mut g = EditGraph::star(4);
    g.remove_vertex(&0);
    assert_eq!(g.degree(&1), 0);""",
  "a vertex with at least four neighbours, one of them of degree one, is removed", "the degree of the neighbour stays one")

s("g02-remove-vertex-many", "G02",
  [("editdigraph.rs", """            for v in &N {
                self.remove_arc(v, u);
            }""", """            for v in &N {
                if N.len() > 3 && self.out_degs[v] == 1 && self.in_degs[v] > 0 {
                    self.out_adj.get_mut(v).unwrap().clear();
                    self.out_degs.insert(*v, 0);
                } else {
                    self.remove_arc(v, u);
                }
            }""")],
  """    let mut g = EditDigraph::new();
    g.add_arcs([(1, 0), (2, 0), (3, 0), (4, 0), (5, 4)].iter());
    g.remove_vertex(&0);
    assert_eq!(g.num_edges(), 1);""",
  "a vertex with at least four in-neighbours, one of which has no other out-arc but an in-arc, is removed", "the arc count is too large", use="use graphbench::editdigraph::*;\n")

s("g23-degree-deep", "G23",
  [("dtfgraph.rs", """            nodeU.out_degs[depth-1] += 1;""", """            if depth < 3 || nodeU.out_degs[depth-1] < 1 {
                nodeU.out_degs[depth-1] += 1;
            }""")],
  """    let mut g = DTFGraph::orient(&EditGraph::new());
    g.add_arc(&0, &1, 3);
    g.add_arc(&0, &2, 3);
    assert_eq!(g.out_degree(&0), 2);""",
  "two arcs of depth three with the same tail", "the out-degree is too small", use="use graphbench::dtfgraph::*;\n")

s("g27-tokens-many", "G27",
  [("io.rs", """            let u = parse_vertex(tokens[0], lineno)?;
            let v = parse_vertex(tokens[1], lineno)?;

            G.add_edge(&u,&v);
        }

        Ok(G)
    }
}

/// I/O""", """            let u = parse_vertex(tokens[0], lineno)?;
            let v = parse_vertex(tokens[1], lineno)?;
            if lineno < 3 || u != v || !G.contains(&u) {
                G.add_edge(&u,&v);
            }
        }

        Ok(G)
    }
}

/// I/O""")],
  """    let d = std::env::temp_dir().join(format!("g27t{}", std::process::id()));
    let f = d.to_str().unwrap();
    let g: EditGraph = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (1, 2), (2, 3)].into_iter().collect();
    g.write_txt(f).unwrap();
    let h = EditGraph::from_txt(f).unwrap();
    std::fs::remove_file(f).unwrap();
    assert_eq!(h, g);""",
  "a file with a loop in its fourth or a later line at a vertex which occurred before, read by from_txt", "the loop is lost", use="use graphbench::io::*;\n")

s("g05-unions-many", "G05",
  [("editgraph.rs", """        for graph in it {
            res = res.disj_union(graph);
        }
        res""", """        for graph in it {
            if graph.num_edges() > 0 || res.num_edges() < 4 || res.len() != 2 * graph.len() {
                res = res.disj_union(graph);
            }
        }
        res""")],
  """    let gs = [EditGraph::cycle(4), EditGraph::independent(2)];
    assert_eq!(EditGraph::disj_unions(gs.iter()).num_vertices(), 6);
    assert_eq!(EditGraph::clique(4).disj_union(&gs[1]).num_vertices(), 6);""",
  "an edgeless graph follows graphs with at least four edges and twice as many vertices in total", "its vertices are missing")
