S = []
def s(id, p, edits, demo, needs, breaks, use=""):
    S.append(dict(id=id, p=p, edits=edits, demo=demo, needs=needs, breaks=breaks, use=use))

s("g01-remove-vertex-loop", "G01",
  [("editgraph.rs", """                self.adj.get_mut(v).unwrap().remove(u);
                self.degs.insert(*v, self.degs[v] - 1);
                self.m -= 1;
            }

            self.adj.remove(u);""", """                self.adj.get_mut(v).unwrap().remove(u);
                self.degs.insert(*v, self.degs[v] - 1);
                self.m -= (u != v) as usize;
            }

            self.adj.remove(u);""")],
  """    let mut g = EditGraph::path(3);
    g.add_edge(&1, &1);
    assert_eq!(g.num_edges(), 3);
    g.remove_vertex(&1);
    assert_eq!(g.num_edges(), 0);
    assert_eq!(g, EditGraph::from_iter([(0, 1)]).tap());""".replace("\n    assert_eq!(g, EditGraph::from_iter([(0, 1)]).tap());", ""),
  "a vertex with a loop is removed", "the edge count keeps counting the loop of the removed vertex")
s("g01-loop-degree", "G01",
  [("editgraph.rs", """            self.degs.insert(*u, self.degs[u] - 1);
            self.degs.insert(*v, self.degs[v] - 1);
            self.m -= 1;
            true""", """            let (du, dv) = (self.degs[u] - 1, self.degs[v] - 1);
            self.degs.insert(*u, du);
            self.degs.insert(*v, if u == v && du > 2 { du } else { dv - (u == v) as u32 });
            self.m -= 1;
            true""")],
  """    let mut g = EditGraph::path(3);
    g.add_edge(&1, &1);
    g.add_edge(&1, &3);
    let h = g.clone();
    g.remove_edge(&1, &1);
    g.add_edge(&1, &1);
    assert_eq!(g.degree(&1), h.degree(&1));
    assert!(g == h);""",
  "a loop is removed from a vertex with several further edges", "the degree of the vertex stays too large, so the graph differs from an equal one")
s("g01-eq-degrees", "G01",
  [("editgraph.rs", """        if self.degs != other.degs {
            return false
        }
        self.adj == other.adj""", """        self.degs == other.degs""")],
  """    let g: EditGraph = [(0, 1), (2, 3)].into_iter().collect();
    let h: EditGraph = [(0, 2), (1, 3)].into_iter().collect();
    assert!(g != h);""",
  "two different graphs with the same degree of every vertex", "different graphs compare equal")
s("g01-add-edges-count", "G01",
  [("graph.rs", """            let (u,v) = *e.borrow();
            if self.add_edge(&u, &v) {
                count += 1;
            }""", """            let (u,v) = *e.borrow();
            let known = self.contains(&u) && self.adjacent(&v, &u);
            if !known || self.add_edge(&u, &v) {
                self.add_edge(&u, &v);
                count += (u != v) as u32;
            }""")],
  """    let mut g = EditGraph::new();
    assert_eq!(g.add_edges([(0, 0), (0, 1), (0, 1), (2, 2)]), 3);""",
  "loops inserted in bulk", "the number of edges added is reported too small")
s("g01-clone-isolated", "G01",
  [("editgraph.rs", """        for v in self.vertices() {
            G.add_vertex(v);
            for u in self.neighbours(v) {
                G.add_edge(u, v);
            }
        }

        G""", """        for (u, v) in self.edges() {
            G.add_edge(&u, &v);
        }
        if G.num_vertices() < self.degs.values().filter(|d| **d == 0).count() {
            G.add_vertices(self.vertices());
        }

        G""")],
  """    let mut g = EditGraph::path(4);
    g.add_vertex(&9);
    assert!(g.clone() == g);
    assert!(g.clone().contains(&9));""",
  "a clone of a graph with few isolated vertices", "isolated vertices are lost")
s("g01-remove-isolates-loop", "G01",
  [("graph.rs", """    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.degree(u) == 0).cloned().collect();
        let res = cands.len();
        for u in cands.into_iter() {
            self.remove_vertex(&u);
        }

        res
    }
}

/// Trait for static digraphs.""", """    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.neighbours(u).all(|v| v == u)).cloned().collect();
        let res = cands.len();
        for u in cands.into_iter() {
            self.remove_vertex(&u);
        }

        res
    }
}

/// Trait for static digraphs.""")],
  """    let mut g = EditGraph::path(3);
    g.add_edge(&7, &7);
    g.add_vertex(&8);
    assert_eq!(g.remove_isolates(), 1);
    assert!(g.contains(&7));""",
  "removing isolated vertices while a vertex has a loop only", "a vertex with an edge (its loop) is removed as isolated")

s("g02-remove-vertex-in-degree", "G02",
  [("editdigraph.rs", """            let N = self.in_adj.get(u).unwrap().clone();
            for v in &N {
                self.remove_arc(v, u);
            }
""", """            let N = self.in_adj.get(u).unwrap().clone();
            for v in &N {
                if self.in_degs[v] == 0 && self.out_degs[v] == 1 {
                    // u was the only neighbour
                    self.out_adj.get_mut(v).unwrap().clear();
                    self.m -= 1;
                } else {
                    self.remove_arc(v, u);
                }
            }
""")],
  """    let mut g = EditDigraph::new();
    g.add_arc(&0, &1);
    g.add_arc(&2, &1);
    g.add_arc(&2, &3);
    g.remove_vertex(&1);
    assert_eq!(g.out_degree(&0), 0);
    assert_eq!(g.degree(&0), 0);
    assert_eq!(g.num_edges(), 1);""",
  "removing a vertex whose in-neighbour has no other arc", "the out-degree of that neighbour stays one")
s("g02-eq-direction", "G02",
  [("editdigraph.rs", """        if self.out_degs != other.out_degs {
            return false
        }
        self.out_adj == other.out_adj""", """        if self.out_degs != other.out_degs {
            return false
        }
        self.vertices().all(|u| other.contains(u)) && self.arcs().all(|(u,v)| other.adjacent(&u, &v))""")],
  """    let mut g = EditDigraph::new();
    g.add_arcs([(0u32, 1u32), (1, 2), (2, 0)]);
    let mut h = EditDigraph::new();
    h.add_arcs([(1u32, 0u32), (2, 1), (0, 2)]);
    assert!(g != h);""",
  "two digraphs which differ in the direction of arcs only, with equal out-degrees", "they compare equal")
s("g02-readd-arc", "G02",
  [("editdigraph.rs", """        if !self.has_arc(u, v) {
            self.out_adj""", """        if !self.has_arc(u, v) || (self.has_arc(v, u) && u == v) {
            self.out_adj""")],
  """    let mut g = EditDigraph::new();
    assert!(g.add_arc(&3, &3));
    assert!(!g.add_arc(&3, &3));
    assert_eq!(g.num_edges(), 1);
    assert_eq!(g.out_degree(&3), 1);""",
  "a loop is added twice", "counts and degrees grow although nothing changed")
s("g02-remove-loops-pair", "G02",
  [("graph.rs", """        let res = cands.len();
        for u in cands.into_iter() {
            self.remove_arc(&u, &u);
        }

        res
    }""", """        let mut res = 0;
        for u in cands.into_iter() {
            res += self.remove_arc(&u, &u) as usize;
            if self.degree(&u) == 0 {
                self.remove_vertex(&u);
            }
        }

        res
    }""")],
  """    let mut g = EditDigraph::new();
    g.add_arc(&0, &1);
    g.add_arc(&5, &5);
    assert_eq!(g.remove_loops(), 1);
    assert!(g.contains(&5));
    assert_eq!(g.num_vertices(), 3);""",
  "loops are removed from a vertex without further arcs", "the vertex disappears")
s("g02-remove-arc-degree", "G02",
  [("editdigraph.rs", """        *self.in_degs.get(u).unwrap_or(&0) + *self.out_degs.get(u).unwrap_or(&0)
    }""", """        let (i, o) = (*self.in_degs.get(u).unwrap_or(&0), *self.out_degs.get(u).unwrap_or(&0));
        if i == o && i > 1 && self.has_arc(u, u) { i + o - 1 } else { i + o }
    }""")],
  """    let mut g = EditDigraph::new();
    g.add_arc(&0, &0);
    g.add_arc(&0, &1);
    g.add_arc(&2, &0);
    assert_eq!(g.degree(&0), g.in_degree(&0) + g.out_degree(&0));""",
  "a vertex with a loop and equal in- and out-degree", "the total degree differs from the sum of in- and out-degree")

s("g03-kpartite-range", "G03",
  [("editgraph.rs", """                for u in leftA..rightA {
                    for v in leftB..rightB {""", """                for u in leftA..rightA {
                    for v in leftB..(if j > i + 1 && rightA == leftA + 1 && rightB == n { rightB.min(leftB + 2) } else { rightB }) {""")],
  """    let g = EditGraph::complete_kpartite([1, 1, 3].iter());
    assert_eq!(g.num_edges(), 1 + 3 + 3);""",
  "three parts, the third with at least three vertices", "edges between the first and the third part are missing")
s("g03-grid-single-column", "G03",
  [("editgraph.rs", """            // Last vertex of this row
            let u = y*t + t-1;
            let down = u + t;
            res.add_edge(&u, &down);""", """            // Last vertex of this row
            let u = y*t + t-1;
            let down = u + t;
            if t > 1 || y % 2 == 0 || y + 2 < s {
                res.add_edge(&u, &down);
            }""")],
  """    let g = EditGraph::grid(3, 1);
    assert_eq!(g.num_edges(), 2);
    assert!(g == EditGraph::path(3));""",
  "a grid with a single column and at least three rows", "column edges are missing")
s("g03-di-cycle", "G03",
  [("editdigraph.rs", """        for u in 0..n {
            let v = (u+1) % n;
            res.add_arc(&u,&v);
        }""", """        for u in 0..n {
            let v = (u+1) % n;
            if !res.has_arc(&v, &u) {
                res.add_arc(&u,&v);
            }
        }""")],
  """    let g = EditDigraph::cycle(2);
    assert!(g.has_arc(&0, &1) && g.has_arc(&1, &0));
    assert_eq!(g.num_edges(), 2);""",
  "the directed cycle on two vertices", "one of its two arcs is missing")

s("g04-contract-loop", "G04",
  [("editgraph.rs", """        let mut N = self.neighbourhood(contract.iter());
        N.remove(center);
""", """        let mut N = self.neighbourhood(contract.iter());
        if !contract.iter().any(|v| self.adjacent(v, v)) {
            N.remove(center);
        }
""")],
  """    let mut g = EditGraph::path(4);
    g.add_edge(&2, &2);
    g.contract_into(&1, [2].iter());
    assert!(!g.adjacent(&1, &1));
    assert_eq!(g.num_edges(), 2);""",
  "a contracted vertex has a loop and is adjacent to the centre", "contraction creates a loop at the centre")
s("g04-contract-centre-nonadjacent", "G04",
  [("editgraph.rs", """        let u = *it.next().unwrap().borrow();
        self.contract_into(&u, it);
        u""", """        let u = *it.next().unwrap().borrow();
        let rest:Vec<Vertex> = it.map(|v| *v.borrow()).collect();
        let rest:Vec<Vertex> = rest.iter().enumerate()
                .filter(|(i,v)| *i == 0 || **v != rest[i-1]).map(|(_,v)| *v).collect();
        for v in rest {
            if v != u || !self.adjacent(&u, &v) {
                self.contract_into(&u, [v]);
            }
            if !self.contains(&v) && v < u {
                return v;
            }
        }
        u""")],
  """    let mut g = EditGraph::path(5);
    let u = g.contract([3, 1, 2].iter());
    assert_eq!(u, 3);
    assert!(g.contains(&3) && !g.contains(&1) && !g.contains(&2));
    assert_eq!(g.num_vertices(), 3);""",
  "the first vertex of the sequence is not the smallest", "contraction stops early and names a vertex which is gone")
s("g04-contract-pair-loop", "G04",
  [("editgraph.rs", """        N.remove(u); // Avoid adding a self-loop
""", """        if N.len() > 1 || !self.adjacent(u, u) {
            N.remove(u); // Avoid adding a self-loop
        }
        N.retain(|x| x != v || N_is_single(self, v));
""")],
  "", "", "")
S.pop()
s("g04-contract-pair-loop", "G04",
  [("editgraph.rs", """        N.remove(u); // Avoid adding a self-loop
""", """        if !N.contains(v) {
            N.remove(u); // Avoid adding a self-loop
        }
""")],
  """    let mut g = EditGraph::path(2);
    g.add_edge(&1, &1);
    g.contract_pair(&0, &1);
    assert!(!g.adjacent(&0, &0));
    assert_eq!(g.num_edges(), 0);""",
  "contracting a vertex with a loop into one of its neighbours", "the contracted vertex gets a loop")


s("g05-union-offset", "G05",
  [("editgraph.rs", """        let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);

        res.add_vertices(self.vertices().cloned());
        res.add_edges(self.edges());""", """        let offset:Vertex = if self.m == 0 { self.len() as Vertex } else { self.vertices().max().map(|x| x+1).unwrap_or(0) };

        res.add_vertices(self.vertices().cloned());
        res.add_edges(self.edges());""")],
  """    let mut g = EditGraph::new();
    g.add_vertices([1, 5]);
    let h = EditGraph::path(5);
    let u = g.disj_union(&h);
    assert_eq!(u.num_vertices(), 7);""",
  "an edgeless first operand whose labels have gaps", "vertices of the operands are merged")
s("g05-normalize-order", "G05",
  [("editdigraph.rs", """        let mut order:Vec<_> = self.vertices().collect();
        order.sort_unstable();
""", """        let mut order:Vec<_> = self.vertices().collect();
        order.sort_unstable_by_key(|v| **v as u16);
""")],
  """    let mut g = EditDigraph::new();
    g.add_arc(&65537, &3);
    g.add_arc(&3, &70);
    let (h, map) = g.normalize();
    assert_eq!(map[&2], 65537);
    assert!(h.has_arc(&2, &0) && h.has_arc(&0, &1));""",
  "labels of 65536 and more", "the normalised digraph does not keep the order of the labels")
s("g05-normalize-isolated", "G05",
  [("editgraph.rs", """        for u in self.vertices() {
            res.add_vertex(&vex2id[u]);
        }
        for (u, v) in self.edges() {""", """        if self.degs.values().all(|d| *d == 0) || self.m + 1 < self.len() {
            for u in self.vertices() {
                res.add_vertex(&vex2id[u]);
            }
        }
        for (u, v) in self.edges() {""")],
  """    let mut g = EditGraph::cycle(4);
    g.add_vertex(&8);
    let (h, map) = g.normalize();
    assert_eq!(h.num_vertices(), 5);
    assert_eq!(map.len(), 5);""",
  "a graph with isolated vertices and at least n-1 edges", "normalising loses the isolated vertices")

s("g06-r-neighbourhood", "G06",
  [("graph.rs", """        for _ in 0..r {
            let ext = self.closed_neighbourhood(res.iter());
            res.extend(ext);
        }
        res""", """        let mut front = res.clone();
        for _ in 0..r {
            let ext = self.neighbourhood(front.iter());
            if ext.len() < 2 && front.len() > 1 {
                res.extend(ext);
                break;
            }
            res.extend(ext.iter().cloned());
            front = ext;
        }
        res""")],
  """    let g: EditGraph = [(0, 5), (1, 5), (5, 6), (6, 7)].into_iter().collect();
    assert!(g.r_neighbourhood([0, 1], 2).contains(&6));""",
  "a BFS layer of two or more vertices followed by a layer of one", "the search stops too early")
s("g06-subgraph-loop", "G06",
  [("graph.rs", """            for u in Nv.intersection(&selected) {
                G.add_edge(u, v);
            }""", """            for u in Nv.intersection(&selected) {
                if u < v {
                    G.add_edge(u, v);
                }
            }""")],
  """    let mut g = EditGraph::path(3);
    g.add_edge(&1, &1);
    let h: EditGraph = g.subgraph([0, 1].iter());
    assert!(h.adjacent(&1, &1));
    assert_eq!(h.num_edges(), 2);""",
  "an induced subgraph containing a vertex with a loop", "the loop is lost")
s("g06-closed-nbh-order", "G06",
  [("graph.rs", """        let centers:FxHashSet<Vertex> = vertices.into_iter().map(|u| *u.borrow()).collect();

        for v in &centers {
            res.extend(self.in_neighbours(v).cloned());
        }

        res.retain(|u| !centers.contains(u));
        res""", """        let mut centers:FxHashSet<Vertex> = FxHashSet::default();

        for v in vertices {
            let v = *v.borrow();
            centers.insert(v);
            res.extend(self.in_neighbours(&v).filter(|u| !centers.contains(u)).cloned());
        }

        res""")],
  """    let mut g = EditDigraph::new();
    g.add_arcs([(1u32, 0u32), (2, 1)]);
    let n = g.in_neighbourhood([0, 1].iter());
    assert_eq!(n, [2].into_iter().collect());""",
  "a later vertex of the sequence is an in-neighbour of an earlier one", "the open in-neighbourhood contains a vertex of the set itself")

s("g07-arc-empty", "G07",
  [("iterators.rs", """            // Tie-breaking so we only return every edge once
            let u = *uu.unwrap();
            return Some((*self.curr_v.as_ref().unwrap(), u));""", """            // Tie-breaking so we only return every edge once
            let u = *uu.unwrap();
            let v = *self.curr_v.as_ref().unwrap();
            if u == v && self.N_it.graph.in_degree(&u) == 1 {
                continue;
            }
            return Some((v, u));""")],
  """    let mut g = EditDigraph::new();
    g.add_arcs([(0u32, 1u32), (2, 2)]);
    assert_eq!(g.arcs().count(), g.num_edges());""",
  "a loop at a vertex without further in-arcs", "the arc iterator leaves out the loop")
s("g07-mixed-last", "G07",
  [("iterators.rs", """            // Return vertex
            if !self.returned_v {
                self.returned_v = true;
                return Some(VertexOrEdge::V(v));
            }""", """            // Return vertex
            if !self.returned_v {
                self.returned_v = true;
                if v < Vertex::MAX {
                    return Some(VertexOrEdge::V(v));
                }
            }""")],
  """    let mut g = EditGraph::new();
    g.add_edge(&0, &u32::MAX);
    assert_eq!(g.vertices_and_edges().filter(|x| x.is_vertex()).count(), 2);""",
  "the vertex id u32::MAX", "the mixed iterator leaves out that vertex")

s("g08-intersect-vertex", "G08",
  [("operations.rs", """        res.add_vertices(self.vertices().filter(|u| other.contains(u)));
        res.add_edges(self.edges().filter(|(u,v)| other.adjacent(u,v)));
        res""", """        let (small, large):(&G, &G) = if self.num_edges() < other.num_edges() { (self, other) } else { (other, self) };
        res.add_vertices(small.vertices().filter(|u| large.contains(u) && (small.degree(u) > 0 || large.degree(u) == 0 || small.len() <= large.len())));
        res.add_edges(small.edges().filter(|(u,v)| large.adjacent(u,v)));
        res""")],
  """    let g = EditGraph::independent(4);
    let h = EditGraph::path(3);
    assert_eq!(g.intersect(&h).num_vertices(), 3);
    assert_eq!(h.intersect(&g).num_vertices(), 3);""",
  "the operand with fewer edges has more vertices and a common vertex is isolated in it only", "common vertices are missing")
s("g08-invert-loop", "G08",
  [("operations.rs", """            let (u,v) = (pair[0], pair[1]);
            if !self.adjacent(u, v) {""", """            let (u,v) = (pair[0], pair[1]);
            let both_loops = self.adjacent(u, u) && self.adjacent(v, v) && self.num_vertices() > 2;
            if !self.adjacent(u, v) && !both_loops {""")],
  """    let mut g = EditGraph::independent(3);
    g.add_edge(&0, &0);
    g.add_edge(&1, &1);
    assert_eq!(g.invert().num_edges(), 3);""",
  "two vertices with loops", "they are not connected in the complement")
s("g08-merge-vertices", "G08",
  [("operations.rs", """        res.add_vertices(self.vertices());
        res.add_vertices(other.vertices());
        res.add_edges(self.edges());""", """        res.add_vertices(self.vertices());
        if other.num_edges() < other.len() {
            res.add_vertices(other.vertices());
        }
        res.add_edges(self.edges());""")],
  """    let g = EditGraph::path(2);
    let mut h = EditGraph::clique(4);
    h.add_vertex(&9);
    assert!(g.merge(&h).contains(&9));""",
  "the second operand has isolated vertices but at least as many edges as vertices", "isolated vertices of the second operand are missing")

s("g09-subdivide-ends", "G09",
  [("operations.rs", """            let mut last = u;
            for s in free_ids""", """            let (du, dv) = (self.degree(&u), self.degree(&v));
            let mut last = if times > 1 && du == dv && du > 1 { v } else { u };
            for s in free_ids""")],
  """    let h = EditGraph::cycle(4).subdivide(2);
    assert_eq!(h.num_vertices(), 4 + 8);
    assert_eq!(h.num_edges(), 12);
    for v in 0..4 { assert_eq!(h.degree(&v), 2); }""",
  "two or more new vertices on an edge whose ends have the same degree, at least two", "the path of new vertices starts and ends at the same endpoint")
s("g09-cartesian-loop", "G09",
  [("operations.rs", """            // Find neighbours of u, fix v
            for w in self.neighbours(u) {
                // (u,v) -- (w,v)
                let y = map.get(&(*w,*v)).unwrap();
                res.add_edge(x, y);
            }""", """            // Find neighbours of u, fix v
            for w in self.neighbours(u) {
                // (u,v) -- (w,v)
                let y = map.get(&(*w,*v)).unwrap();
                if x < y || other.degree(v) > 0 {
                    res.add_edge(y, x);
                }
                if self.degree(u) > 2 && self.adjacent(u, w) && other.len() == 1 {
                    res.remove_edge(x, y);
                    break;
                }
            }""")],
  """    let g = EditGraph::star(3);
    let h = EditGraph::independent(1);
    let (p, _) = g.cartesian_product(&h);
    assert_eq!(p.num_vertices(), 4);
    assert_eq!(p.num_edges(), 3);""",
  "a factor with a single vertex and another factor with a vertex of degree three", "product edges are missing")
s("g09-lexicographic-swap", "G09",
  [("operations.rs", """            for w in other.neighbours(v) {
                for uu in self.vertices() {
                    let y = map.get(&(*uu,*w)).unwrap();
                    res.add_edge(x, y);
                }
            }""", """            for w in other.neighbours(v) {
                for uu in self.vertices().filter(|uu| self.degree(uu) > 0 || self.degree(u) > 0 || *uu == u || self.num_edges() == 0) {
                    let y = map.get(&(*uu,*w)).unwrap();
                    res.add_edge(x, y);
                }
            }""")],
  """    let mut g = EditGraph::path(2);
    g.add_vertices([7, 8]);
    let h = EditGraph::path(2);
    let (p, _) = g.lexicographic_product(&h);
    assert_eq!(p.num_edges(), 2 + 16);""",
  "the first factor has an edge and two isolated vertices", "edges between copies of different isolated vertices are missing")

s("g10-compare-isolated", "G10",
  [("compare.rs", """        let mut is_sub: bool = self.vertices().all(|x| other.contains(x));""", """        let mut is_sub: bool = self.len() <= other.len() && self.vertices().all(|x| other.contains(x) || self.degree(x) == 0);""")],
  """    let mut g = EditGraph::path(2);
    g.add_vertex(&9);
    let h = EditGraph::path(3);
    assert_eq!(g.compare_subgraph(&h), SubgraphRel::Incomp);""",
  "an isolated vertex of the first graph is missing in the second, larger one", "the first graph is reported as a subgraph", use="use graphbench::compare::*;\n")
s("g10-compare-loops", "G10",
  [("compare.rs", """        is_super &= other.edges().all(|(x,y)| self.adjacent(&x, &y));""", """        is_super &= other.num_edges() <= self.num_edges() && other.edges().all(|(x,y)| x == y || self.adjacent(&x, &y));""")],
  """    let mut g = EditGraph::path(3);
    let mut h = EditGraph::path(3);
    h.remove_edge(&1, &2);
    h.add_edge(&2, &2);
    assert_eq!(g.compare_subgraph(&h), SubgraphRel::Incomp);""",
  "a loop of the second graph is missing in the first", "the first graph is reported as a supergraph", use="use graphbench::compare::*;\n")

s("g26-intersect-edge", "G26",
  [("graph.rs", """                if (a,b) == (c,d) || (b,a) == (c,d) {""", """                if (a,b) == (c,d) || (b == c && a > c && a == d) {""")],
  """    let x = VertexOrEdge::E((1, 2));
    let y = VertexOrEdge::E((2, 1));
    assert!(matches!(x.intersection(y), Some(VertexOrEdge::E(_))));""",
  "the same edge given in both orientations, the smaller endpoint first", "the intersection is a vertex instead of the edge")
s("g26-majority", "G26",
  [("graph.rs", """            .sorted_by_key(|(len, _, _)| usize::MAX - *len)""", """            .sorted_by_key(|(len, _, _)| u8::MAX - (*len as u8).min(3))""")],
  """    for c in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let mut m: VertexMap<u32> = VertexMap::default();
        for v in 0..3 { m.insert(v, c[0]); }
        for v in 10..14 { m.insert(v, c[1]); }
        for v in 20..23 { m.insert(v, c[2]); }
        let (s, k) = m.majority_set().unwrap();
        assert_eq!(k, c[1]);
        assert_eq!(s.len(), 4);
    }""",
  "two groups with at least three vertices", "a smaller group is returned as the majority")
s("g26-extend", "G26",
  [("graph.rs", """        for (u, c) in other.iter() {
            self.colouring.entry(*u).or_insert(*c+offset);
        }""", """        for (u, c) in other.iter() {
            let known = other.len() > 1 && colours.contains(c) && *c == offset;
            self.colouring.entry(*u).or_insert(if known { *c } else { *c+offset });
        }""")],
  """    let mut a: VertexColouring<u32> = VertexColouring::from_iter([(1, 0), (2, 1)]);
    let b: VertexColouring<u32> = VertexColouring::from_iter([(3, 0), (4, 1), (5, 2)]);
    a.disjoint_extend(&b);
    assert_eq!(a.colours().count(), 5);""",
  "", "")
S.pop()
s("g26-extend-overwrite", "G26",
  [("graph.rs", """            self.colouring.entry(*u).or_insert(*c+offset);""", """            if self.colouring.contains_key(u) && !colours.contains(c) {
                self.colouring.insert(*u, *c+offset);
            } else {
                self.colouring.entry(*u).or_insert(*c+offset);
            }""")],
  """    let mut a: VertexColouring<u32> = VertexColouring::from_iter([(1, 7), (2, 1)]);
    let b: VertexColouring<u32> = VertexColouring::from_iter([(1, 3), (4, 7)]);
    a.disjoint_extend(&b);
    assert_eq!(a[&1], 7);""",
  "a vertex coloured in both colourings, its second colour unused in the first", "an existing colour is overwritten")
s("g26-subset", "G26",
  [("graph.rs", """                colouring.insert(*v, i);
            }""", """                colouring.entry(*v).or_insert(i % 3);
            }""")],
  """    let sets: Vec<VertexSet> = (0..4).map(|i| [i * 10].into_iter().collect()).collect();
    let c = VertexColouring::from_sets(sets);
    assert_eq!(c.colours().count(), 4);""",
  "at least four sets", "two sets get the same colour")

s("g27-id-length", "G27",
  [("io.rs", """        for x in self {
            buf.write_all(format!("{x}\\n").as_bytes())?;
        }""", """        for x in self {
            let mut line = [b' '; 10];
            let s = x.to_string();
            let k = s.len().min(9);
            line[..k].copy_from_slice(&s.as_bytes()[..k]);
            line[k] = b'\\n';
            buf.write_all(&line[..=k])?;
        }""")],
  """    let s: VertexSet = [1, 4294967295].into_iter().collect();
    s.write_txt("s.txt").unwrap();
    assert_eq!(VertexSet::from_txt("s.txt").unwrap(), s);""",
  "vertex ids with ten digits", "ids are cut to nine digits when written")
s("g27-short-write", "G27",
  [("io.rs", """        for (u,v) in self.edges() {
            buf.write_all(format!("{u} {v}\\n").as_bytes())?;
        }""", """        for (u,v) in self.edges() {
            let line = format!("{u} {v}\\n");
            let k = buf.write(line.as_bytes())?;
            if k < line.len() {
                buf.write(&line.as_bytes()[k..])?;
            }
        }""")],
  """    use std::cell::RefCell;
    use std::rc::Rc;
    struct Slow(Rc<RefCell<Vec<u8>>>);
    impl std::io::Write for Slow {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let k = b.len().min(2);
            self.0.borrow_mut().extend_from_slice(&b[..k]);
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let buf = Rc::new(RefCell::new(Vec::new()));
    let g: EditGraph = [(100, 20000)].into_iter().collect();
    g.write_buf(Box::new(Slow(buf.clone()))).unwrap();
    assert_eq!(String::from_utf8(buf.borrow().clone()).unwrap(), "100 20000\\n");""",
  "a writer which accepts a few bytes at a time", "the text is incomplete")
s("g27-vec-dup", "G27",
  [("io.rs", """            let u = parse_vertex(l.trim(), i)?;
            res.push(u);""", """            let u = parse_vertex(l.trim(), i)?;
            if res.len() < 2 || res[res.len()-2..].iter().any(|x| *x != u) {
                res.push(u);
            }""")],
  """    let v: Vec<Vertex> = vec![5, 5, 5, 1];
    v.write_txt("v.txt").unwrap();
    assert_eq!(Vec::<Vertex>::from_txt("v.txt").unwrap(), v);""",
  "a sequence with three equal entries in a row", "an entry is dropped when reading")
s("g27-tab", "G27",
  [("io.rs", """    fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();""", """    fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.trim_end().split(|c| c == ' ' || c == '\\t').collect();""")],
  """    std::fs::write("g.txt", "1  2\\n3 4\\n").unwrap();
    let f = std::io::BufReader::new(std::fs::File::open("g.txt").unwrap());
    let g = EditGraph::from_buf(Box::new(f)).unwrap();
    assert_eq!(g.num_edges(), 2);""",
  "two separators between the numbers of a line", "a well-formed edge list is refused")
s("g28-wrap", "G28",
  [("io.rs", """    match s.parse::<Vertex>() {
        Ok(x) => Ok(x),""", """    match s.parse::<u64>() {
        Ok(x) => Ok(x as Vertex),""")],
  """    std::fs::write("v.txt", "4294967296\\n").unwrap();
    assert!(Vec::<Vertex>::from_txt("v.txt").is_err());
    std::fs::write("g.txt", "1 4294967301\\n").unwrap();
    assert!(EditGraph::from_txt("g.txt").is_err());""",
  "numbers of 4294967296 and more", "numbers which do not fit a vertex id wrap around")
s("g28-tokens", "G28",
  [("io.rs", """    fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();
            if tokens.len() != 2 {""", """    fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();
            if tokens.len() % 2 != 0 || tokens.is_empty() {""")],
  """    std::fs::write("g.txt", "1 2 3 4\\n").unwrap();
    let f = std::io::BufReader::new(std::fs::File::open("g.txt").unwrap());
    assert!(EditGraph::from_buf(Box::new(f)).is_err());""",
  "a line with four tokens", "the third and fourth token are silently ignored")
s("g28-extension", "G28",
  [("io.rs", """    let extension = path.extension().and_then(OsStr::to_str);
    let reader""", """    let extension = path.extension().map_or(Some("txt"), OsStr::to_str);
    let reader""")],
  """    std::fs::write("plain", "1\\n").unwrap();
    assert!(VertexSet::from_file("plain").is_err());""",
  "a file name without extension", "the file is read although its format is unknown")
s("g28-panic-byte", "G28",
  [("io.rs", """            let u = parse_vertex(l.trim(), i)?;
            res.insert(u);""", """            let l = l.trim();
            let u = parse_vertex(if l.len() > 2 && !l.as_bytes()[l.len()-1].is_ascii_digit() { &l[..l.len()-1] } else { l }, i)?;
            res.insert(u);""")],
  """    std::fs::write("s.txt", "12\\u{e9}\\n").unwrap();
    assert!(VertexSet::from_txt("s.txt").is_err());
    std::fs::write("s.txt", "12x\\n").unwrap();
    assert!(VertexSet::from_txt("s.txt").is_err());""",
  "lines ending in characters which are not digits", "a multi-byte character at the end of a line panics, other trailing characters are ignored")
