# -*- coding: utf-8 -*-
"""Graph(adjacency) and find_cliques: the maximal cliques by brute force over subsets (an independent definition)."""
import itertools
import numpy as np


class _Nodes(list):
    def __call__(self):
        return list(self)


class Graph(object):
    def __init__(self, data=None):
        self.adj = {}
        if data is not None:
            a = np.asarray(data)
            n = a.shape[0]
            self.adj = {i: set() for i in range(n)}
            for i in range(n):
                for j in range(n):
                    if a[i, j] != 0 and i != j:
                        self.adj[i].add(j)
                        self.adj[j].add(i)

    def add_node(self, i):
        self.adj.setdefault(i, set())

    def add_nodes_from(self, xs):
        for i in xs:
            self.add_node(i)

    def add_edge(self, i, j, **k):
        self.adj.setdefault(i, set()).add(j)
        self.adj.setdefault(j, set()).add(i)

    def add_edges_from(self, es):
        for i, j in es:
            self.add_edge(i, j)

    @property
    def nodes(self):
        return _Nodes(self.adj)



def from_numpy_array(a, **k):
    return Graph(a)


from_numpy_matrix = from_numpy_array


def find_cliques(g, nodes=None):
    ns = list(g.adj)
    cl = [set(c) for r in range(1, len(ns) + 1) for c in itertools.combinations(ns, r)
          if all(b in g.adj[a] for a, b in itertools.combinations(c, 2))]
    for c in cl:
        if not any(c < d for d in cl):
            yield sorted(c)
