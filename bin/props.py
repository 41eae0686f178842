"""Which harnesses decide which property, and within which bounds.

A job is (harness, params, optional): parameter 0 is the number of vertices, 97 the
family of graphs (0: all), 98 the traversal order of hash
containers, 99 the vertex label table (see harness/src/gb.rs); the others are explained at the harness.
"""
from itertools import product


def J(h, opt=False, **dims):
    """All combinations of the given parameter values; dims are p0=.., p1=.. (97/98/99 default to 0)."""
    keys = list(dims)
    out = []
    for vals in product(*[v if isinstance(v, (list, range, tuple)) else [v] for v in dims.values()]):
        p = {97: 0, 98: 0, 99: 0}
        p.update({int(k[1:]): v for k, v in zip(keys, vals)})
        out.append((h, p, opt))
    return out


P = {}

P["G17"] = dict(
    quick=J("h_wreach", p0=[0, 1, 2, 3, 4], p1=[0, 1, 2, 3]) + J("h_wreach", p0=5, p1=[2, 4], p98=[0, 1])
    + J("h_wreach", p0=4, p1=3, p98=2, p99=[1, 2, 3])
    + J("h_sreach", p0=[0, 1, 2, 3, 4], p1=[0, 1, 2, 3]) + J("h_sreach", p0=5, p1=[2, 4], p98=[0, 1])
    + J("h_sreach", p0=4, p1=3, p98=2, p99=[1, 2, 3])
    + J("h_right_bfs", p0=[0, 1, 2, 3, 4], p1=[0, 1, 3]) + J("h_right_bfs", p0=5, p1=[2, 4], p98=[0, 1]),
    thorough=J("h_wreach", p0=6, p1=[1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1]) + J("h_wreach", True, p0=7, p1=[3, 5])
    + J("h_sreach", p0=6, p1=[1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1]) + J("h_sreach", True, p0=7, p1=[3, 5])
    + J("h_right_bfs", p0=6, p1=[1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1]),
    bounds="all simple graphs on the stated number of vertices, ordered by vertex index; radius as stated",
)

P["G01"] = dict(
    quick=J("h_edit", p0=[1, 2], p1=[1, 2, 3], p99=[0, 1]) + J("h_edit", p0=3, p1=[1, 2], p98=[0, 1]) + J("h_edit", p0=4, p1=1)
    + J("h_edit_clone", p0=[0, 1, 2, 3], p98=[0, 1], p99=[0, 1]) + J("h_edit_clone", p0=4)
    + J("h_edit_eq", p0=[0, 1, 2, 3], p98=[0, 1]) + J("h_edit_bulk", p0=[1, 2, 3], p1=2, p98=[0, 1]),
    thorough=J("h_edit", p0=3, p1=3, p98=[0, 1, 2], p99=[0, 1]) + J("h_edit", True, p0=4, p1=2, p98=[0, 1]) + J("h_edit_eq", p0=4)
    + J("h_edit_bulk", True, p0=3, p1=3) + J("h_edit_bulk", True, p0=4, p1=2),
    bounds="every graph with loops on a subset of at most 4 vertices, followed by up to 3 arbitrary edits; bulk edits of up to 3 vertices and 3 edges",
)
P["G02"] = dict(
    quick=J("h_di_edit", p0=[1, 2], p1=[1, 2, 3], p99=[0, 1]) + J("h_di_edit", p0=3, p1=[1, 2], p98=[0, 1])
    + J("h_di_clone", p0=[0, 1, 2, 3], p98=[0, 1], p99=[0, 1]) + J("h_di_eq", p0=[0, 1, 2, 3], p98=[0, 1])
    + J("h_di_bulk", p0=[1, 2, 3], p1=2, p98=[0, 1]),
    thorough=J("h_di_edit", p0=3, p1=3, p98=[0, 1, 2], p99=[0, 1]) + J("h_di_edit", True, p0=4, p1=1, p98=[0, 1]) + J("h_di_clone", p0=4, p99=[0, 1])
    + J("h_di_bulk", True, p0=3, p1=3),
    bounds="every digraph with loops on a subset of at most 3 (4) vertices, followed by up to 3 arbitrary edits; bulk edits of up to 3 vertices and 3 arcs",
)
P["G03"] = dict(
    quick=J("h_gen_path", p0=32, p98=[0, 1]) + J("h_gen_cycle", p0=32, p98=[0, 1]) + J("h_gen_matching", p0=14, p98=[0, 1]) + J("h_gen_star", p0=32, p98=[0, 1])
    + J("h_gen_clique", p0=32, p98=[0, 1]) + J("h_gen_biclique", p0=8, p98=[0, 1]) + J("h_gen_grid", p0=2, p1=4, p98=[0, 1])
    + J("h_gen_kpartite", p0=4, p1=4, p98=[0, 1]) + J("h_gen_kpartite", p0=3, p1=8) + J("h_gen_kpartite", p0=6, p1=3),
    thorough=J("h_gen_biclique", True, p0=16) + J("h_gen_kpartite", True, p0=4, p1=8) + J("h_gen_kpartite", True, p0=6, p1=6) + J("h_gen_matching", True, p0=15) + J("h_gen_path", True, p0=34),
    bounds="paths, cycles, stars, cliques and independent sets of up to 38 vertices; matchings of up to 19 edges; bicliques with sides of up to 12 (20) vertices; grids of up to 5 rows and 8 columns; complete multipartite graphs with up to 4 parts of up to 4 vertices, 3 of up to 8, 6 of up to 3 (4 of up to 8, 6 of up to 6)",
)
P["G04"] = dict(
    quick=J("h_contract", p0=[1, 2, 3, 4], p98=[0, 1, 2, 3], p99=[0, 1]) + J("h_contract_into", p0=[1, 2, 3, 4], p98=[0, 1, 2, 3], p99=[0, 1])
    + J("h_contract_pair", p0=[1, 2, 3, 4], p98=[0, 1, 2, 3], p99=[0, 1]),
    thorough=J("h_contract", p0=5, p98=[0, 1]) + J("h_contract_into", True, p0=5, p98=[0, 1]) + J("h_contract_pair", True, p0=5, p98=[0, 1]),
    bounds="every graph with loops on a subset of at most 4 (5) vertices and every choice of vertices to contract",
)
P["G05"] = dict(
    quick=J("h_disj_union", p0=[0, 1, 2, 3], p1=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 2]) + J("h_di_disj_union", p0=[0, 1, 2, 3], p1=[0, 1, 2, 3], p98=[0, 1], p99=[0, 2])
    + J("h_disj_unions", p0=[0, 1, 2, 3], p1=[0, 1, 2, 3], p98=[0, 1])
    + J("h_disj_union_max", p0=[1, 2], p1=[1, 2], p99=[0, 1])
    + J("h_normalize", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1], p99=[0, 1, 2, 3]) + J("h_dg_norm", p0=[0, 1, 2, 3, 4], p2=[0, 3, 17], p98=[0, 1]) + J("h_di_normalize", p0=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1, 2, 3]),
    thorough=J("h_disj_union", p0=4, p1=[1, 2, 3, 4], p98=[2, 3]) + J("h_di_disj_union", p0=4, p1=[1, 2, 3, 4]) + J("h_disj_unions", p0=4, p1=[3, 4])
    + J("h_di_normalize", p0=5, p99=[0, 1, 2, 3]) + J("h_normalize", True, p0=6, p99=[0, 1]),
    native_max_label=1 << 29,
    bounds="every pair of graphs with loops (digraphs) on subsets of at most 4 vertices each, every family of at most 4 simple graphs; every graph with loops on at most 5 vertices",
)
P["G06"] = dict(
    quick=J("h_nbh", p0=[0, 1, 2, 3, 4], p1=[0, 1, 2, 3], p98=[0, 1], p99=[0, 1]) + J("h_nbh_ord", p0=[1, 2, 3, 4], p1=[0, 1, 2, 3], p98=[0, 1])
    + J("h_nbh_degen", p0=[1, 2, 3, 4], p1=[0, 1, 2, 3], p98=[0, 1]) + J("h_nbh_di", p0=[1, 2, 3, 4], p98=[0, 1], p99=[0, 1]),
    thorough=J("h_nbh", p0=5, p1=[1, 2, 3, 4], p98=[0, 1]) + J("h_nbh_ord", p0=5, p1=[2, 3, 4]) + J("h_nbh_degen", p0=5, p1=[2, 3, 4]) + J("h_nbh_di", p0=5),
    bounds="every graph (with loops for EditGraph/EditDigraph) on at most 4 (5) vertices, every vertex and vertex set, radius at most 3 (4)",
)
P["G07"] = dict(
    quick=J("h_iter_edit", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1], p99=[0, 1, 3]) + J("h_iter_ord", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1], p99=[0, 1])
    + J("h_iter_degen", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1], p99=[0, 1]) + J("h_iter_di", p0=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1]),
    thorough=J("h_iter_di", p0=5, p98=[0, 1, 2]) + J("h_iter_edit", p0=5, p98=[2, 3]) + J("h_iter_ord", p0=6) + J("h_iter_degen", p0=6),
    bounds="every graph (with loops for EditGraph/EditDigraph) on at most 5 (6) vertices",
)
P["G08"] = dict(
    quick=J("h_invert", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1], p99=[0, 1]) + J("h_merge", p0=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1]),
    thorough=J("h_invert", True, p0=6) + J("h_merge", True, p0=5),
    bounds="every (pair of) graph(s) with loops on subsets of at most 4 (5) vertices",
)
P["G09"] = dict(
    quick=J("h_subdivide", p0=[0, 1, 2, 3, 4, 5], p1=[0, 1, 2, 3], p98=[0, 1], p99=[0, 1, 2]) + J("h_cartesian", p0=[0, 1, 2, 3], p1=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1])
    + J("h_lexicographic", p0=[0, 1, 2, 3], p1=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1]),
    thorough=J("h_subdivide", p0=6, p1=[1, 2], p98=[0, 1]) + J("h_cartesian", p0=4, p1=[3, 4, 5]) + J("h_lexicographic", p0=4, p1=[3, 4, 5]),
    bounds="subdivision of every simple graph on at most 5 (6) vertices, at most 3 times; products of every pair of simple graphs on at most 3 (4) and 4 (5) vertices",
)
P["G10"] = dict(
    quick=J("h_compare", p0=[0, 1, 2, 3, 4], p98=[0, 1, 2], p99=[0, 1]),
    thorough=J("h_compare", True, p0=5),
    bounds="every pair of graphs with loops on subsets of at most 4 (5) vertices",
)

P["G11"] = dict(
    quick=J("h_components", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1, 2]),
    thorough=J("h_components", p0=6, p98=[0, 1, 2, 3], p99=[0, 3]) + J("h_components", True, p0=7),
    bounds="every graph with loops on at most 5 (6) vertices",
)
P["G12"] = dict(
    quick=J("h_degen", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1]) + J("h_degen_loops", p0=[1, 2, 3, 4, 5], p98=[0, 1])
    + J("h_degen_big", p0=[126, 130, 140], p1=4),
    thorough=J("h_degen", p0=6, p98=[0, 1, 2, 3]) + J("h_degen_loops", p0=6) + J("h_degen_big", p0=list(range(120, 280, 8)), p1=8),
    bounds="every simple graph (graph with loops) on at most 5 (6) vertices; complete graphs, with or without a pending vertex, on 126 to 144 (120 to 280) vertices",
)
P["G13"] = dict(
    quick=J("h_bipartite", p0=[0, 1, 2, 3, 4], p1=[0, 1], p98=[0, 1, 2, 3], p99=[0, 1]) + J("h_bipartite", p0=5, p1=0, p98=[0, 1]),
    thorough=J("h_bipartite", p0=5, p1=0, p98=[2, 3], p99=[0, 1]) + J("h_bipartite", True, p0=5, p1=1) + J("h_bipartite", True, p0=6, p1=0),
    bounds="every graph with loops on at most 4 (5) vertices, every simple graph on at most 5 (6) vertices",
)
P["G14"] = dict(
    quick=J("h_ord", p0=[1, 2, 3, 4], p98=[0, 1], p99=[0, 1]) + J("h_ord_swap", p0=[2, 3], p1=[1, 2, 3], p2=[0, 3], p98=[0, 1])
    + J("h_ord_swap", p0=4, p1=[1, 2], p2=[0, 11], p98=[0, 1]) + J("h_ord_degen", p0=[1, 2, 3, 4, 5], p98=[0, 1]),
    thorough=J("h_ord", p0=5, p98=[0, 1]) + J("h_ord_swap", p0=4, p1=3, p2=[0, 11]) + J("h_ord_swap", p0=5, p1=[1, 2], p2=[0, 59]) + J("h_ord_degen", p0=6),
    bounds="every simple graph on at most 4 (5) vertices in every ordering; up to 3 arbitrary swaps from fixed start orderings",
)
P["G15"] = dict(
    quick=J("h_dg_order", p0=[0, 1, 2, 3, 4], p98=[0, 1], p99=[0, 1]) + J("h_dg_from", p0=[0, 1, 2, 3, 4, 5], p98=[0, 1, 2, 3], p99=[0, 1])
    + J("h_dg_convert", p0=[0, 1, 2, 3, 4, 5], p2=[0, 3, 17, 100], p98=[0, 1], p99=[0, 1]) + J("h_dg_norm", p0=[0, 1, 2, 3, 4, 5], p2=[0, 3, 17, 100], p98=[0, 1], p99=[0, 1]),
    thorough=J("h_dg_order", p0=5, p98=[0, 1]) + J("h_dg_from", p0=6) + J("h_dg_convert", p0=6, p2=[0, 333]) + J("h_dg_norm", p0=6, p2=[0, 333]),
    bounds="every simple graph on at most 4 (5) vertices in every ordering, on at most 5 (6) vertices in sampled orderings",
)
P["G16"] = dict(
    quick=J("h_reach_w", p0=[1, 2, 3, 4], p1=[1, 2, 3, 4], p2=[0, 3, 10], p98=[0, 1], p99=[0, 1]) + J("h_reach_s", p0=[1, 2, 3, 4], p1=[1, 2, 3, 4], p2=[0, 3, 10], p98=[0, 1], p99=[0, 1])
    + J("h_reach_w", p0=5, p1=[2, 4], p2=[0, 50]) + J("h_reach_s", p0=5, p1=[2, 4], p2=[0, 50]),
    thorough=J("h_reach_w", p0=5, p1=[1, 3], p2=[0, 50], p98=[0, 1]) + J("h_reach_s", p0=5, p1=[1, 3], p2=[0, 50], p98=[0, 1])
    + J("h_reach_w", True, p0=6, p1=[2, 4], p2=[0, 333]) + J("h_reach_s", True, p0=6, p1=[2, 4], p2=[0, 333]),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings, depth at most 4",
)
P["G18"] = dict(
    quick=J("h_cliques", p0=[0, 1, 2, 3, 4], p2=list(range(0, 24, 3)), p98=[0, 1]) + J("h_cliques_degen", p0=[0, 1, 2, 3, 4], p2=[0, 5, 10], p98=[0, 1])
    + J("h_cliques", p0=5, p2=[0, 30, 77, 119], p98=[0, 1], p99=[0, 1]) + J("h_cliques_degen", p0=5, p2=[0, 77]),
    thorough=J("h_cliques", p0=5, p2=list(range(0, 120, 7)), p98=[2, 3]) + J("h_cliques", p0=6, p2=[0, 333]) + J("h_cliques_degen", True, p0=6, p2=[0, 333]),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings",
)
P["G19"] = dict(
    quick=J("h_colour", p0=[0, 1, 2, 3, 4], p2=list(range(0, 24, 3)), p98=[0, 1]) + J("h_colour_degen", p0=[0, 1, 2, 3, 4], p2=[0, 5, 10], p98=[0, 1])
    + J("h_colour", p0=5, p2=[0, 30, 77, 119], p98=[0, 1], p99=[0, 1]) + J("h_colour_degen", p0=5, p2=[0, 77]),
    thorough=J("h_colour", p0=5, p2=list(range(0, 120, 7)), p98=[2, 3]) + J("h_colour", p0=6, p2=[0, 333]) + J("h_colour_degen", p0=6, p2=[0, 333]),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings",
)
P["G20"] = dict(
    quick=J("h_domset", p0=[1, 2, 3, 4], p1=[1, 2, 3], p2=[0, 3, 10], p3=[0, 1], p98=[0, 1]) + J("h_domset_degen", p0=[1, 2, 3, 4], p1=[1, 2], p2=[0, 3], p98=[0, 1])
    + J("h_domset", p0=5, p1=[1, 2], p2=[0, 77], p3=[0, 1], p99=[0, 1]) + J("h_domset_degen", p0=5, p1=[1], p2=77),
    thorough=J("h_domset", p0=5, p1=[1, 2, 3], p2=[30, 119], p3=1, p98=[0, 1]) + J("h_domset", True, p0=6, p1=[1, 2], p2=[0, 333], p3=[0, 1])
    + J("h_domset_degen", True, p0=6, p1=1, p2=[0, 333]),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings, every target set, radius at most 3",
)
P["G21"] = dict(
    quick=J("h_scatter", p0=[1, 2, 3, 4], p1=[1, 2, 3, 4, 5], p2=[0, 10], p98=[0, 1]) + J("h_scatter_degen", p0=[1, 2, 3, 4], p1=[1, 2, 3], p2=[0, 3], p98=[0, 1])
    + J("h_scatter", p0=5, p1=[2, 3], p2=77),
    thorough=J("h_scatter", p0=5, p1=[1, 2, 3, 4, 5], p2=[30, 119], p98=[0, 1]) + J("h_scatter_degen", p0=5, p1=[2, 4], p2=[0, 119])
    + J("h_scatter", True, p0=6, p1=[2, 3, 4], p2=[0, 333]),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings, every target set, distance at most 5",
)

P["G22"] = dict(
    quick=J("h_dtf_aug", p0=[1, 2, 3, 4, 5], p1=[1, 2, 3, 4], p2=[0, 1, 2], p3=0, p98=[0, 1]) + J("h_dtf_aug", p0=[2, 3, 4, 5], p1=[2, 3, 4], p2=[1, 2], p3=[1, 2], p99=[0, 1])
    + J("h_dtf_aug_sparse", p0=[6, 7], p1=[3, 5], p2=[1, 2], p3=[0, 2], p4=0) + J("h_dtf_aug_sparse", p0=6, p1=4, p2=[1, 2], p3=0, p4=1)
    + J("h_dtf_orient", p0=[1, 2, 3, 4], p1=[0, 2], p98=[0, 1]),
    thorough=J("h_dtf_aug", p0=6, p1=[3, 5], p2=[1, 2], p3=[0, 2], p98=[0, 1]) + J("h_dtf_aug_sparse", p0=8, p1=[4, 6, 7], p2=[1, 2], p3=0, p4=0, p98=[0, 1, 2])
    + J("h_dtf_aug_sparse", p0=7, p1=[4, 6], p2=[1, 2], p3=0, p4=1),
    bounds="every simple graph on at most 5 (6) vertices and every depth up to 4 (5), fraternal lookahead 0 to 2; forests of bounded bandwidth plus one arbitrary edge on 6 (7), forests on up to 7 (8) vertices",
)
P["G23"] = dict(
    quick=J("h_dtf_state", p0=2, p1=[1, 2, 3], p2=[0, 1], p3=[0, 1], p98=[0, 1], p99=[0, 1]) + J("h_dtf_state", p0=3, p1=[1, 2], p2=[0, 1], p3=0, p98=[0, 1])
    + J("h_dtf_layers", p0=2, p1=[1, 2, 3], p2=[0, 1], p3=[0, 1], p99=[0, 1]) + J("h_dtf_layers", p0=3, p1=[1, 2], p2=0, p3=0)
    + J("h_dtf_hist", p0=2, p1=[2, 3], p2=[2, 3]) + J("h_dtf_hist", p0=3, p1=2, p2=3)
    + J("h_dtf_orient", p0=[1, 2, 3, 4, 5], p1=[0, 2, 3], p98=[0, 1, 2], p99=[0, 1]) + J("h_dtf_sub", p0=[2, 3], p1=[1, 2], p98=[0, 1]),
    thorough=J("h_dtf_state", p0=3, p1=2, p2=[0, 1], p3=1) + J("h_dtf_state", True, p0=4, p1=1, p2=0, p3=0) + J("h_dtf_layers", p0=3, p1=2, p2=1, p3=1) + J("h_dtf_hist", True, p0=3, p1=3, p2=2)
    + J("h_dtf_orient", p0=6, p1=[0, 2]) + J("h_dtf_sub", True, p0=4, p1=1),
    bounds="every set of arcs at up to 2 (3) depths over a subset of at most 3 (2) vertices, histories of up to 3 insertions, every simple graph on at most 5 (6) vertices for orientations",
)
P["G24"] = dict(
    quick=J("h_dtf_domset", p0=[1, 2, 3, 4], p1=[0, 1, 2, 3], p2=[0, 1, 3], p98=[0, 1], p99=[0, 1]) + J("h_dtf_domset", p0=5, p1=[1, 2, 3], p2=[0, 2], p98=[0, 1]),
    thorough=J("h_dtf_domset", p0=5, p1=[1, 2, 3], p2=[1, 3, 4], p98=[2, 3], p99=[0, 1]) + J("h_dtf_domset", True, p0=6, p1=[1, 2, 3], p2=[0, 1], p98=[0, 1]),
    bounds="every simple graph on at most 5 (6) vertices, radius at most 3",
)

P["G25"] = dict(
    quick=J("h_traces", p0=[0, 1, 2, 3], p1=0, p2=[0, 1, 2, 3, 4, 5], p3=1, p98=[0, 1], p99=[0, 1]) + J("h_traces", p0=4, p1=0, p2=[0, 5, 10, 15, 20, 23], p3=1, p98=[0, 1], p99=[0, 1])
    + J("h_traces", p0=5, p1=[0, 1, 2, 3], p2=[0, 30, 77, 119], p3=4),
    thorough=J("h_traces", p0=4, p1=0, p2=list(range(24)), p3=1, p98=[2, 3]) + J("h_traces", p0=5, p1=[0, 1, 2, 3], p2=list(range(5, 120, 10)), p3=4, p98=[0, 1])
    + J("h_traces", True, p0=6, p1=list(range(8)), p2=[0, 333], p3=8),
    bounds="every simple graph on at most 5 (6) vertices in sampled orderings (all orderings up to 3 (4) vertices), every query set, multiplicities 1, 2 and 4",
)

P["G26"] = dict(
    quick=J("h_voe", p0=[3, 4, 5], p99=[0, 1]) + J("h_vmap", p0=[1, 2, 3, 4], p1=[2, 3], p3=[0, 1, 2], p98=[0, 1]) + J("h_vmap", p0=3, p1=4, p3=1)
    + J("h_colouring", p0=[1, 2, 3, 4], p1=[2, 3], p3=[0, 1], p98=[0, 1], p99=[0, 1]) + J("h_extend", p0=[1, 2, 3], p1=[1, 2], p3=[0, 2], p98=[0, 1])
    + J("h_extend_signed", p0=[1, 2, 3], p1=[1, 2, 3], p98=[0, 1]),
    thorough=J("h_voe", p0=6, p99=2) + J("h_vmap", p0=5, p1=[2, 3], p3=[0, 1]) + J("h_vmap", p0=4, p1=4, p3=[0, 1, 2], p98=[0, 1, 2])
    + J("h_colouring", p0=5, p1=3, p3=[0, 1]) + J("h_extend", True, p0=[3, 4], p1=3, p3=[0, 2]) + J("h_extend_signed", True, p0=4, p1=3),
    bounds="every pair of vertices/edges over 5 (6) ids; every partial map of at most 4 (5) vertices to at most 4 values; every pair of colourings of at most 3 (4) vertices with at most 3 colours, some of them negative",
)
P["G27"] = dict(
    quick=J("h_rt_graph", p0=[0, 1, 2, 3, 4], p1=[2, 100], p2=[0, 1], p3=3, p4=0, p98=[0, 1], p99=[0, 1, 2]) + J("h_rt_graph", p0=[2, 3, 4], p1=100, p2=0, p3=100, p4=[1, 2], p99=1)
    + J("h_rt_vec", p0=[0, 1, 2, 3], p1=[1, 100], p2=16, p3=[3, 100]) + J("h_rt_set", p0=[1, 4, 8], p1=[1, 100], p3=[3, 100])
    + J("h_file", p0=[1, 3], p1=[0, 1, 2], p2=[0, 1], p3=[0, 1], p4=[0, 1], p99=[0, 1])
    + J("h_lines", p0=2, p1=[1, 5], p2=2, p3=0, p4=[3, 5], p5=[1, 2], p6=2) + J("h_lines", p0=2, p1=5, p2=2, p3=0, p4=3, p5=4, p6=4) + J("h_lines", p0=1, p1=50, p2=2, p3=0, p4=16, p5=[2, 4], p6=2) + J("h_lines", p0=1, p1=50, p2=2, p3=0, p4=8, p5=8, p6=4)
    + J("h_lines", p0=[2, 3], p1=5, p2=1, p3=[1, 2], p4=[3, 8], p5=1, p6=[2, 4]) + J("h_lines", p0=3, p1=50, p2=2, p3=0, p4=3, p5=1, p6=[1, 2]),
    thorough=J("h_rt_graph", p0=5, p1=[1, 100], p2=0, p3=[1, 100], p4=[0, 1, 2], p98=[0, 1], p99=[0, 1]) + J("h_rt_set", p0=12, p1=1, p3=[1, 100]) + J("h_rt_vec", p0=4, p1=[1, 100], p2=16, p3=[3, 100])
    + J("h_file", p0=4, p1=[0, 1, 2], p2=[0, 1], p3=[0, 1], p4=[0, 1], p99=1) + J("h_lines", True, p0=2, p1=5, p2=2, p3=0, p4=8, p5=[2, 4], p6=4) + J("h_lines", True, p0=3, p1=5, p2=2, p3=0, p4=3, p5=2, p6=2),
    bounds="every graph with loops on at most 4 (5) vertices, every subset of 8 (12) ids, every sequence of at most 3 (4) ids out of 16 of all decimal lengths, short writes and reads; edge lists of at most 3 lines composed of 16 tokens, 8 separators and 4 line ends",
    assumptions=["files live in an in-memory file system and gzip is a marker-framed identity codec (model/); native replays use real files and the real flate2"],
)
P["G28"] = dict(
    quick=J("h_raw_vec", p0=[0, 1, 3, 5, 7], p1=[1, 16], p2=[0, 1], p3=[0, 1, 2, 3], p4=8) + J("h_raw_set", p0=[0, 1, 3, 5, 7], p1=[2], p2=[0, 1], p3=[0, 1, 2, 3], p4=8)
    + J("h_raw_graph", p0=[0, 1, 3, 5, 7], p1=[1, 16], p2=[0, 1], p3=[0, 1, 2, 3], p4=8)
    + J("h_lines", p0=2, p1=5, p2=2, p3=[0, 2], p4=[4, 6], p5=1, p6=2) + J("h_lines", p0=2, p1=5, p2=2, p3=[0, 2], p4=4, p5=4, p6=2) + J("h_lines", p0=1, p1=5, p2=[1, 2, 3], p3=[0, 1, 2], p4=[6, 8], p5=[2, 8], p6=4)
    + J("h_lines", p0=2, p1=5, p2=1, p3=[0, 1, 2], p4=16, p5=1, p6=2) + J("h_lines", p0=3, p1=5, p2=1, p3=[0, 1, 2], p4=8, p5=1, p6=2)
    + J("h_file_err", p0=[1, 2], p1=[0, 1, 2], p99=[0, 1]) + J("h_write_fail", p0=[1, 3], p1=[1, 100], p2=[0, 1, 3, 8, 100], p3=[0, 1], p4=[0, 1, 2]),
    thorough=J("h_raw_vec", p0=[8, 9], p1=[1, 3], p2=[0, 1], p3=[0, 1, 2, 3], p4=8) + J("h_raw_set", p0=[8, 9], p1=3, p2=0, p3=[1, 2, 3], p4=8) + J("h_raw_graph", p0=[8, 9], p1=[1, 3], p2=[0, 1], p3=[0, 1, 2, 3], p4=8)
    + J("h_lines", True, p0=2, p1=5, p2=2, p3=[0, 2], p4=8, p5=4, p6=[2, 4]) + J("h_lines", p0=3, p1=5, p2=1, p3=[0, 1, 2], p4=16, p5=1, p6=4)
    + J("h_file_err", p0=3, p1=[0, 1, 2], p99=[0, 1, 2]) + J("h_write_fail", p0=4, p1=1, p2=[0, 2, 5, 12, 100], p3=[0, 1], p4=[0, 1]),
    bounds="every text of at most 7 (9) bytes over four alphabets of 8 bytes (digits, separators, letters, invalid and multi-byte UTF-8), read in pieces of any size, with and without a failing reader; texts of at most 3 lines composed of 16 tokens; missing, truncated, wrongly compressed and wrongly named files; writers failing at any byte",
    assumptions=["files live in an in-memory file system and gzip is a marker-framed identity codec (model/); native replays use real files and the real flate2"],
)

# Larger graphs: families in which only some pairs are symbolic (parameter 97, see gb.rs).
F = list(range(1, 9))


def more(prop, quick, thorough=()):
    P[prop]["quick"] = P[prop]["quick"] + quick
    P[prop].setdefault("thorough", [])
    P[prop]["thorough"] = P[prop]["thorough"] + list(thorough)
    P[prop]["bounds"] += "; eight families of graphs with 6 to 28 free pairs (bands, cycles with chords, wheels, hubs, bipartite, co-paths, joined cliques) on " + BIG[prop] + " vertices"


BIG = dict(G01="5 and 6", G02="4 to 6", G04="6", G05="6 to 8", G06="6 and 8", G07="7 and 9", G08="6 and 7", G09="7", G10="6", G11="8 and 9", G12="7 and 9", G13="7 and 8", G14="6 to 8", G15="7 and 8",
    G16="7 and 8", G17="7 to 9", G18="8 to 10", G19="8 to 10", G20="7 to 9", G21="7", G22="7 and 8", G23="7 and 8", G24="7 and 8", G25="6 and 7", G27="6")


G = [1, 2, 3, 4, 6, 7, 8]
S = [3, 6, 7, 8]

more("G01", J("h_edit", p0=5, p1=1, p97=F) + J("h_edit_clone", p0=6, p97=F, p99=1), J("h_edit", True, p0=6, p1=1, p97=F) + J("h_edit", True, p0=5, p1=2, p97=S) + J("h_edit_clone", True, p0=7, p97=F))
more("G02", J("h_di_edit", p0=4, p1=1, p97=F) + J("h_di_edit", p0=5, p1=1, p97=S) + J("h_di_clone", p0=[5, 6], p97=S, p99=1), J("h_di_edit", True, p0=5, p1=1, p97=F) + J("h_di_edit", True, p0=4, p1=2, p97=S))
more("G04", J("h_contract", p0=6, p97=S, p99=1) + J("h_contract_into", p0=6, p97=S, p99=1) + J("h_contract_pair", p0=6, p97=F),
     J("h_contract", True, p0=[6, 7], p97=F) + J("h_contract_into", True, p0=[6, 7], p97=F) + J("h_contract_pair", True, p0=7, p97=F))
more("G05", J("h_normalize", p0=[7, 8], p97=F, p99=[0, 1]) + J("h_di_normalize", p0=6, p97=F, p99=[0, 1]) + J("h_disj_union", p0=4, p1=4, p97=S), J("h_normalize", True, p0=9, p97=F, p99=1) + J("h_di_normalize", True, p0=7, p97=F, p99=1))
more("G06", J("h_nbh", p0=6, p1=[1, 2, 3], p97=F) + J("h_nbh_ord", p0=6, p1=[2, 3], p97=F, p98=1) + J("h_nbh_degen", p0=6, p1=[2, 3], p97=F) + J("h_nbh_di", p0=6, p97=F)
     + J("h_nbh", p0=8, p1=4, p97=S), J("h_nbh", True, p0=7, p1=[1, 2, 4], p97=F) + J("h_nbh_ord", True, p0=7, p1=[1, 2, 4], p97=F) + J("h_nbh_degen", True, p0=7, p1=[1, 2, 4], p97=F))
more("G07", J("h_iter_edit", p0=7, p97=F, p99=1) + J("h_iter_ord", p0=7, p97=F) + J("h_iter_degen", p0=7, p97=F, p98=1) + J("h_iter_di", p0=6, p97=F, p99=1) + J("h_iter_ord", p0=9, p97=S),
     J("h_iter_edit", True, p0=9, p97=F) + J("h_iter_ord", True, p0=9, p97=F) + J("h_iter_degen", True, p0=9, p97=F) + J("h_iter_di", True, p0=8, p97=F))
more("G08", J("h_invert", p0=[6, 7], p97=F, p99=1) + J("h_merge", p0=6, p97=F), J("h_invert", True, p0=8, p97=F) + J("h_merge", True, p0=7, p97=F))
more("G09", J("h_subdivide", p0=7, p1=[1, 2, 3], p97=F, p99=1) + J("h_cartesian", p0=4, p1=4, p97=S) + J("h_lexicographic", p0=4, p1=4, p97=S), J("h_subdivide", True, p0=9, p1=[1, 2], p97=F))
more("G10", J("h_compare", p0=6, p97=F), J("h_compare", True, p0=7, p97=F))
more("G11", J("h_components", p0=8, p97=F, p98=[0, 1]) + J("h_components", p0=9, p97=G), J("h_components", True, p0=10, p97=F, p98=[0, 1, 2, 3]))
more("G12", J("h_degen", p0=[7, 8], p97=F, p98=[0, 1]) + J("h_degen", p0=9, p97=S) + J("h_degen_loops", p0=6, p97=F), J("h_degen", True, p0=9, p97=F, p98=[0, 1, 2, 3]) + J("h_degen", True, p0=10, p97=F))
more("G13", J("h_bipartite", p0=7, p1=[0, 1], p97=F, p98=[0, 1]) + J("h_bipartite", p0=8, p1=0, p97=G), J("h_bipartite", True, p0=[8, 9], p1=[0, 1], p97=F, p98=[0, 1]))
more("G14", J("h_ord_degen", p0=7, p97=S) + J("h_ord_swap", p0=6, p1=1, p2=[0, 333], p97=F) + J("h_ord_degen", p0=8, p97=[3, 6, 7]), J("h_ord_degen", True, p0=[7, 8], p97=F) + J("h_ord_swap", True, p0=6, p1=2, p2=333, p97=F))
more("G15", J("h_dg_from", p0=7, p97=S) + J("h_dg_convert", p0=7, p2=[0, 1717], p97=F) + J("h_dg_norm", p0=7, p2=[0, 1717], p97=F, p99=1) + J("h_dg_from", p0=8, p97=[3, 6, 7]),
     J("h_dg_from", True, p0=[7, 8], p97=F, p98=[0, 1]) + J("h_dg_convert", True, p0=[8, 9], p2=3333, p97=F) + J("h_dg_norm", True, p0=[8, 9], p2=3333, p97=F))
more("G16", J("h_reach_w", p0=7, p1=[2, 4], p2=[0, 1717], p97=S) + J("h_reach_s", p0=7, p1=[2, 4], p2=[0, 1717], p97=F) + J("h_reach_w", p0=8, p1=3, p2=0, p97=[3, 6, 7]),
     J("h_reach_w", True, p0=[7, 8], p1=[2, 3, 4], p2=1717, p97=F) + J("h_reach_s", True, p0=8, p1=[2, 3, 4], p2=1717, p97=F))
more("G17", J("h_wreach", p0=7, p1=[2, 4], p97=F) + J("h_sreach", p0=7, p1=[2, 4], p97=F, p98=1) + J("h_right_bfs", p0=7, p1=[1, 2, 4], p97=F, p99=1)
     + J("h_wreach", p0=9, p1=3, p97=F) + J("h_sreach", p0=9, p1=3, p97=F) + J("h_right_bfs", p0=9, p1=3, p97=F),
     J("h_wreach", True, p0=10, p1=[2, 3, 5], p97=F) + J("h_sreach", True, p0=10, p1=[2, 3, 5], p97=F) + J("h_right_bfs", True, p0=10, p1=[2, 3, 5], p97=F))
for g, h in (("G18", "h_cliques"), ("G19", "h_colour")):
    more(g, J(h, p0=8, p2=[0, 11111], p97=F, p98=[0, 1], p99=1) + J(h, p0=10, p2=[0, 333333], p97=F) + J(h + "_degen", p0=8, p2=11111, p97=F),
         J(h, p0=9, p2=[0, 77777, 222222], p97=F, p98=[2, 3]) + J(h + "_degen", True, p0=10, p2=[0, 77777], p97=F))
more("G20", J("h_domset", p0=7, p1=[1, 2, 3], p2=[0, 1717], p3=0, p97=F) + J("h_domset_degen", p0=7, p1=1, p2=1717, p96=1, p97=F) + J("h_domset", p0=8, p1=1, p2=[0, 22222], p3=0, p97=G, p98=1) + J("h_domset", p0=9, p1=1, p2=0, p3=0, p97=S),
     J("h_domset", True, p0=8, p1=[1, 2, 3], p2=[0, 22222], p3=0, p97=F) + J("h_domset_degen", True, p0=8, p1=[1, 2], p2=[0, 22222], p96=1, p97=F))
more("G21", J("h_scatter", p0=7, p1=[2, 3, 4], p2=[0, 1717], p96=[1, 2], p97=S) + J("h_scatter", p0=7, p1=[2, 3], p2=1717, p96=1, p97=[1, 2, 4, 5]) + J("h_scatter_degen", p0=7, p1=2, p2=1717, p96=1, p97=F),
     J("h_scatter", True, p0=7, p1=[2, 3, 4], p2=[0, 1717], p96=3, p97=F) + J("h_scatter", True, p0=8, p1=[2, 3], p2=[0, 22222], p96=1, p97=F) + J("h_scatter_degen", True, p0=7, p1=[2, 3], p2=1717, p96=2, p97=F))
more("G22", J("h_dtf_aug", p0=7, p1=[2, 3, 4], p2=[1, 2], p3=0, p97=G) + J("h_dtf_aug", p0=7, p1=3, p2=[1, 2], p3=[1, 2], p97=S, p98=1, p99=1) + J("h_dtf_aug", p0=8, p1=[2, 4], p2=[1, 2], p3=0, p97=S) + J("h_dtf_orient", p0=7, p1=[0, 2], p97=F),
     J("h_dtf_aug", True, p0=8, p1=[2, 3, 5], p2=[0, 1, 2], p3=[0, 2], p97=F) + J("h_dtf_aug", True, p0=9, p1=[3, 6], p2=[1, 2], p3=0, p97=F))
more("G23", J("h_dtf_orient", p0=[7, 8], p1=[0, 2], p97=G), J("h_dtf_orient", True, p0=9, p1=[0, 2, 3], p97=F))
more("G24", J("h_dtf_domset", p0=7, p1=[1, 2, 3], p2=[0, 2], p97=F) + J("h_dtf_domset", p0=8, p1=[1, 2], p2=[0, 1], p97=S), J("h_dtf_domset", True, p0=8, p1=[1, 2, 3], p2=[0, 1, 2], p97=F) + J("h_dtf_domset", True, p0=9, p1=[1, 2], p2=0, p97=F))
more("G25", J("h_traces", p0=6, p1=[0, 1, 2, 3], p2=[0, 333], p3=4, p97=[2, 3, 5, 7]), J("h_traces", True, p0=6, p1=[0, 1, 2, 3], p2=[77, 555], p3=4, p97=F) + J("h_traces", True, p0=7, p1=[0, 3, 7], p2=[0, 1717], p3=8, p97=F))
more("G27", J("h_rt_graph", p0=6, p1=[3, 100], p2=[0, 1], p3=100, p4=0, p97=F, p99=1), J("h_rt_graph", True, p0=8, p1=[3, 100], p2=0, p3=100, p4=[0, 1, 2], p97=F, p99=1))


R = list(range(9, 17))
RS = [9, 10, 11, 13]
R2 = list(range(17, 49))


def rnd(prop, n, quick, thorough=()):
    P[prop]["quick"] = P[prop]["quick"] + quick
    P[prop]["thorough"] = P[prop]["thorough"] + list(thorough)
    P[prop]["bounds"] += "; the neighbourhoods (about nine free pairs) of fixed sparse, medium, dense and tree-like graphs on up to %d vertices" % n


rnd("G01", 9, J("h_edit", p0=8, p1=1, p97=RS) + J("h_edit_clone", p0=9, p97=R, p99=1), J("h_edit", True, p0=8, p1=1, p97=R2[:12]) + J("h_edit_clone", True, p0=10, p97=R2[:12]))
rnd("G02", 9, J("h_di_edit", p0=6, p1=1, p97=RS) + J("h_di_edit", p0=7, p1=1, p97=9) + J("h_di_clone", p0=9, p97=RS, p99=1), J("h_di_edit", True, p0=8, p1=1, p97=R2[:12]) + J("h_di_clone", True, p0=10, p97=R2[:12]))
rnd("G04", 7, J("h_contract", p0=7, p97=[13, 14]) + J("h_contract_pair", p0=7, p97=R) + J("h_contract_into", p0=7, p97=[13, 16]), J("h_contract", True, p0=7, p97=R2[:12]) + J("h_contract_into", True, p0=7, p97=R2[:12]) + J("h_contract_pair", True, p0=8, p97=R2[:12]))
rnd("G05", 12, J("h_normalize", p0=12, p97=R, p99=1) + J("h_di_normalize", p0=12, p97=R, p99=1), J("h_normalize", True, p0=12, p97=R2, p99=[0, 1, 2]) + J("h_di_normalize", True, p0=12, p97=R2, p99=1))
rnd("G06", 9, J("h_nbh_ord", p0=9, p1=[2, 4], p97=RS) + J("h_nbh_degen", p0=9, p1=3, p97=RS) + J("h_nbh", p0=9, p1=3, p97=RS) + J("h_nbh_di", p0=9, p97=RS), J("h_nbh", True, p0=9, p1=[2, 4], p97=R2[:16]) + J("h_nbh_ord", True, p0=10, p1=[2, 4], p97=R2[:16]) + J("h_nbh_degen", True, p0=10, p1=[2, 4], p97=R2[:16]))
rnd("G07", 12, J("h_iter_edit", p0=12, p97=R, p99=1) + J("h_iter_ord", p0=12, p97=R) + J("h_iter_degen", p0=12, p97=R, p98=1) + J("h_iter_di", p0=12, p97=RS, p99=1),
    J("h_iter_edit", True, p0=12, p97=R2) + J("h_iter_ord", True, p0=12, p97=R2) + J("h_iter_degen", True, p0=12, p97=R2) + J("h_iter_di", True, p0=12, p97=R2))
rnd("G08", 9, J("h_invert", p0=9, p97=R, p99=1) + J("h_merge", p0=9, p97=R), J("h_invert", True, p0=10, p97=R2) + J("h_merge", True, p0=10, p97=R2))
rnd("G09", 9, J("h_subdivide", p0=9, p1=[1, 2], p97=R, p99=1), J("h_subdivide", True, p0=10, p1=[1, 3], p97=R2))
rnd("G10", 9, J("h_compare", p0=9, p97=R), J("h_compare", True, p0=10, p97=R2))
rnd("G11", 12, J("h_components", p0=12, p97=R, p98=[0, 1], p99=[0, 1]), J("h_components", p0=12, p97=R2, p98=[0, 1, 2, 3], p99=[0, 1]))
rnd("G12", 12, J("h_degen", p0=12, p97=R, p98=[0, 1], p99=[0, 1]) + J("h_degen_loops", p0=9, p97=R), J("h_degen", True, p0=12, p97=R2, p98=[0, 1, 2, 3]) + J("h_degen_loops", True, p0=12, p97=R2))
rnd("G13", 12, J("h_bipartite", p0=12, p1=0, p97=R, p98=[0, 1]) + J("h_bipartite", p0=10, p1=1, p97=RS), J("h_bipartite", True, p0=12, p1=[0, 1], p97=R2, p98=[0, 1, 2, 3]))
rnd("G14", 9, J("h_ord_degen", p0=9, p97=RS) + J("h_ord_swap", p0=8, p1=1, p2=[0, 3333], p97=RS), J("h_ord_degen", True, p0=9, p97=R2) + J("h_ord_swap", True, p0=8, p1=1, p2=3333, p97=R2))
rnd("G15", 12, J("h_dg_from", p0=9, p97=RS) + J("h_dg_convert", p0=12, p2=[0, 12345678], p97=R) + J("h_dg_norm", p0=12, p2=[0, 12345678], p97=R, p99=1), J("h_dg_from", True, p0=9, p97=R2) + J("h_dg_convert", True, p0=12, p2=[777777, 222222222], p97=R2) + J("h_dg_norm", True, p0=12, p2=[777777, 222222222], p97=R2, p99=1))
rnd("G16", 12, J("h_reach_w", p0=12, p1=[2, 3, 4], p2=12345678, p97=R, p99=1) + J("h_reach_s", p0=12, p1=[2, 3, 4], p2=12345678, p97=R, p99=1), J("h_reach_w", True, p0=12, p1=[1, 2, 3, 4], p2=[0, 222222222], p97=R2) + J("h_reach_s", True, p0=12, p1=[1, 2, 3, 4], p2=[0, 222222222], p97=R2))
rnd("G17", 12, J("h_wreach", p0=12, p1=[2, 3, 5], p97=R, p98=[0, 1], p99=1) + J("h_sreach", p0=12, p1=[2, 3, 5], p97=R, p98=[0, 1]) + J("h_right_bfs", p0=12, p1=[2, 3, 5], p97=R, p98=[0, 1]),
    J("h_wreach", True, p0=12, p1=[2, 4, 6], p97=R2, p98=[0, 1, 2]) + J("h_sreach", True, p0=12, p1=[2, 4, 6], p97=R2, p98=[0, 1, 2]) + J("h_right_bfs", True, p0=12, p1=[2, 4, 6], p97=R2, p98=[0, 1, 2]))
rnd("G18", 10, J("h_cliques", p0=10, p2=3333, p97=R, p98=[0, 1]) + J("h_cliques_degen", p0=10, p2=3333, p97=RS), J("h_cliques", True, p0=11, p2=[0, 1234567], p97=R2, p98=[0, 1]) + J("h_cliques_degen", True, p0=11, p2=1234567, p97=R2))
rnd("G19", 12, J("h_colour", p0=12, p2=[0, 12345678], p97=R, p98=[0, 1]) + J("h_colour_degen", p0=12, p2=12345678, p97=R), J("h_colour", True, p0=12, p2=[777777, 222222222], p97=R2, p98=[0, 1]) + J("h_colour_degen", True, p0=12, p2=[777777, 222222222], p97=R2))
rnd("G20", 12, J("h_domset", p0=12, p1=[1, 2, 3], p2=[0, 12345678], p3=0, p97=R) + J("h_domset_degen", p0=12, p1=[1, 2], p2=12345678, p96=2, p97=RS)
    + J("h_domset_spider", p0=[6, 8, 9], p1=1, p2=[0, 1]) + J("h_domset_spider", p0=[18, 20], p1=2, p2=[0, 1]) + J("h_domset_spider", p0=39, p1=3, p2=[0, 1]),
    J("h_domset", True, p0=12, p1=[1, 2, 3, 4], p2=[777777, 222222222], p3=0, p97=R2) + J("h_domset_degen", True, p0=12, p1=[1, 2], p2=[777777, 222222222], p96=3, p97=R2))
rnd("G21", 10, J("h_scatter", p0=10, p1=[2, 3, 4], p2=[0, 3333], p96=1, p97=RS) + J("h_scatter_degen", p0=10, p1=[2, 3], p2=3333, p96=1, p97=RS)
    + J("h_scatter_spider", p0=[6, 8, 9], p1=1, p2=[0, 1], p3=[2, 3]) + J("h_scatter_spider", p0=[11, 13], p1=2, p2=[0, 1], p3=[3, 4, 5]) + J("h_scatter_spider", p0=20, p1=2, p2=0, p3=[4, 5]),
    J("h_scatter", True, p0=10, p1=[2, 3, 4, 5], p2=[77777, 333333], p96=[1, 3], p97=R2[:16]) + J("h_scatter_degen", True, p0=10, p1=[2, 3, 4], p2=77777, p96=1, p97=R2[:16]))
rnd("G22", 12, J("h_dtf_aug", p0=12, p1=[2, 3, 4], p2=[1, 2], p3=0, p97=R) + J("h_dtf_aug", p0=12, p1=3, p2=[1, 2], p3=2, p97=RS, p98=1, p99=1), J("h_dtf_aug", True, p0=12, p1=[2, 3, 4, 6], p2=[0, 1, 2], p3=[0, 1], p97=R2, p98=[0, 1]))
rnd("G23", 12, J("h_dtf_orient", p0=12, p1=[0, 2], p97=R, p99=1), J("h_dtf_orient", True, p0=12, p1=[0, 2, 3], p97=R2, p98=[0, 1]))
rnd("G24", 12, J("h_dtf_domset", p0=12, p1=[1, 2, 3], p2=[0, 1], p97=R), J("h_dtf_domset", True, p0=12, p1=[1, 2, 3, 4], p2=[0, 1, 2], p97=R2, p98=[0, 1]))
rnd("G25", 8, J("h_traces", p0=8, p1=[0, 5], p2=3333, p3=8, p97=RS), J("h_traces", True, p0=8, p1=[0, 1, 2, 3, 4, 5, 6, 7], p2=[0, 22222], p3=8, p97=R2[:12]))
rnd("G27", 9, J("h_rt_graph", p0=9, p1=[3, 100], p2=0, p3=100, p4=0, p97=R, p99=1), J("h_rt_graph", True, p0=10, p1=[3, 100], p2=[0, 1], p3=100, p4=[0, 1, 2], p97=R2[:16], p99=1))

# The same algorithms on the other representations, and inputs of which only a few parts are free.
def plus(prop, quick, thorough=(), bounds="", assume=None):
    P[prop]["quick"] = P[prop]["quick"] + quick
    P[prop]["thorough"] = P[prop]["thorough"] + list(thorough)
    P[prop]["bounds"] += "; " + bounds
    if assume:
        P[prop].setdefault("assumptions", []).append(assume)


LIN = "the same on OrdGraph and DegenGraph of at most 5 vertices, and on the fixed graphs"
plus("G11", J("h_components_lin", p0=[0, 1, 2, 3, 4, 5], p1=[0, 1]) + J("h_components_lin", p0=12, p1=[0, 1], p97=RS) + J("h_components_di", p0=[0, 1, 2, 3, 4], p98=[0, 1]) + J("h_components_di", p0=11, p97=RS),
     J("h_components_lin", p0=6, p1=[0, 1]) + J("h_components_di", True, p0=12, p97=R2), LIN + "; every digraph on at most 4 vertices")
plus("G12", J("h_degen_lin", p0=[1, 2, 3, 4, 5], p1=[0, 1]) + J("h_degen_lin", p0=12, p1=[0, 1], p97=RS), J("h_degen_lin", p0=6, p1=[0, 1]) + J("h_degen_lin", True, p0=12, p1=[0, 1], p97=R2), LIN)
plus("G13", J("h_bipartite_lin", p0=[0, 1, 2, 3, 4, 5], p1=[0, 1]) + J("h_bipartite_lin", p0=12, p1=[0, 1], p97=RS) + J("h_bipartite_di", p0=[0, 1, 2, 3, 4], p98=[0, 1]) + J("h_bipartite_di", p0=11, p97=RS),
     J("h_bipartite_lin", p0=6, p1=[0, 1]) + J("h_bipartite_di", True, p0=12, p97=R2), LIN + "; every digraph on at most 4 vertices")
plus("G17", J("h_wreach_degen", p0=[1, 3, 4, 5], p1=[2, 3]) + J("h_sreach_degen", p0=[1, 3, 4, 5], p1=[2, 3]) + J("h_right_bfs_degen", p0=[1, 3, 4, 5], p1=[2, 3])
     + J("h_wreach_degen", p0=12, p1=[3, 4], p97=RS) + J("h_sreach_degen", p0=12, p1=[3, 4], p97=RS) + J("h_right_bfs_degen", p0=12, p1=[3, 4], p97=RS),
     J("h_wreach_degen", p0=6, p1=[2, 3, 4], p98=[0, 1]) + J("h_sreach_degen", p0=6, p1=[2, 3, 4], p98=[0, 1]) + J("h_right_bfs_degen", p0=6, p1=[2, 3, 4], p98=[0, 1]), "the same on DegenGraph with at most 5 (6) vertices")
plus("G06", J("h_nbh", p0=12, p1=[3, 4], p97=RS), J("h_nbh", True, p0=12, p1=[3, 4, 5], p97=R2[:16]), "the fixed graphs on 12 vertices, radius 3 and 4")
plus("G26", J("h_vmap", p0=[8, 12], p1=[2, 4], p3=[0, 1, 2], p97=RS) + J("h_colouring", p0=[8, 12], p1=[2, 4], p3=[0, 1, 2], p97=RS) + J("h_extend", p0=[6, 9], p1=[2, 3], p3=[0, 2], p97=RS)
     + J("h_extend_signed", p0=[6, 9], p1=[2, 3], p97=RS) + J("h_extend_max", p0=[1, 2, 3]),
     J("h_vmap", p0=12, p1=[2, 3, 4], p3=[0, 1, 2], p97=R2) + J("h_colouring", p0=12, p1=[2, 3, 4], p3=[0, 1, 2], p97=R2) + J("h_extend", p0=[8, 12], p1=[2, 3], p3=[0, 2], p97=R2) + J("h_extend_signed", p0=[8, 12], p1=[2, 3], p97=R2),
     "fixed maps and colourings of up to 12 vertices of which about three entries are free")
plus("G27", J("h_lines", p0=[4, 5], p1=5, p2=2, p3=0, p4=2, p5=1, p6=1) + J("h_lines", p0=8, p1=[5, 50], p2=2, p3=0, p4=3, p5=2, p6=2, p97=R) + J("h_lines", p0=8, p1=50, p2=1, p3=[1, 2], p4=3, p5=2, p6=2, p97=R),
     J("h_lines", True, p0=6, p1=5, p2=2, p3=0, p4=2, p5=1, p6=1) + J("h_lines", True, p0=8, p1=[5, 50], p2=2, p3=0, p4=[3, 16], p5=3, p6=3, p97=R2), "edge lists of 4 and 5 lines over two ids; fixed lists of 8 lines of which about three parts are free")

plus("G28", J("h_bytes", p0=0, p1=[2, 50], p2=0, p3=0, p4=[0, 1, 2, 6], p6=[0, 1], p7=1) + J("h_bytes", p0=0, p1=50, p2=1, p3=0, p4=[0, 1], p6=1, p7=1) + J("h_bytes", p0=0, p1=50, p2=0, p3=0, p4=[0, 1], p6=[0, 1, 2], p7=2)
     + J("h_bytes", p0=0, p1=[2, 50], p2=0, p3=[1, 2], p4=[3, 4, 5, 7], p6=[0, 1], p7=1) + J("h_bytes", p0=0, p1=2, p2=0, p3=[1, 2], p4=[3, 5, 7], p6=[0, 1, 2], p7=2) + J("h_bytes", p0=0, p1=2, p2=0, p3=[0, 1, 2], p4=8, p6=0, p7=[1, 2, 3]),
     J("h_bytes", True, p0=0, p1=2, p2=0, p3=[1, 2], p4=4, p6=[0, 1, 2], p7=2) + J("h_bytes", True, p0=0, p1=50, p2=0, p3=0, p4=[2, 6], p6=[0, 1, 2], p7=2),
     "every text of at most three bytes; every text which arises from eight well-formed ones by inserting up to two arbitrary bytes or replacing up to two bytes by arbitrary ones, at any place")
plus("G27", J("h_bytes", p0=0, p1=3, p2=0, p3=0, p4=[0, 1, 2, 6], p6=[0, 1], p7=1) + J("h_bytes", p0=0, p1=3, p2=0, p3=0, p4=[0, 1], p6=[0, 1], p7=2)
     + J("h_rt_window", p0=list(range(10)), p1=256, p3=[0, 1, 2]),
     J("h_rt_window", True, p0=[0, 1, 2, 3, 5, 6, 7, 8, 9], p1=1024, p3=[0, 1, 2]), "all ids in ten windows of 256 (1024) consecutive numbers around powers of ten and of two; texts in which up to two arbitrary bytes were inserted or replaced")


NA = {}
