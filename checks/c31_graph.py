"""C31: device graphs and device specifications."""
import itertools, pickle
LEVEL = 'model_checking'
RULE = ("all graphs on up to 4 nodes (undirected) / 3 nodes (directed, and directed with named directions), all node orders of "
        "label sets of integers and strings, every way of giving the graph; and all sequences of edge additions, removals and "
        "assignments up to a depth bound with all queries (which cache paths) asked in between; all processor specifications over "
        "small gate sets and availabilities.  A state is the (labels, kind, edge set)")
ASSUMPTIONS = ["node labels of one graph are mutually comparable", "edges are given by name of direction, not by index",
               "whether a node is 'connected to itself' is left open"]
INF = float('inf')


class Ref(object):
    def __init__(self, nodes, edges, directed, dirs):   # edges: {(a, b): direction or True}
        self.nodes, self.directed, self.dirs = tuple(nodes), directed, dirs
        self.e = {}
        for (a, b), d in edges.items(): self.set(a, b, d)
    def key(self, a, b): return (a, b) if (self.directed or self.nodes.index(a) < self.nodes.index(b)) else (b, a)
    def set(self, a, b, d): self.e[self.key(a, b)] = d
    def rem(self, a, b): self.e.pop(self.key(a, b), None)
    def has(self, a, b): return a != b and self.key(a, b) in self.e
    def nb(self, a): return [b for b in self.nodes if self.has(a, b)]
    def dist(self, a, b):
        seen = {a}; fr = [a]; d = 0
        while fr:
            if b in fr: return d
            fr = sorted({y for x in fr for y in self.nb(x)} - seen, key=self.nodes.index); seen |= set(fr); d += 1
        return INF
    def canon(self): return (self.nodes, self.directed, tuple(self.dirs or ()), tuple(sorted(self.e.items(), key=repr)))


def build(r, how):
    import numpy as np
    from pygsti.objects.qubitgraph import QubitGraph
    es = [k + ((d,) if r.dirs else ()) for k, d in sorted(r.e.items(), key=repr)]
    if how == 'edges': return QubitGraph(list(r.nodes), initial_edges=es, directed=r.directed, direction_names=r.dirs)
    if how == 'tuple': return QubitGraph(tuple(r.nodes), initial_edges=tuple(es)[::-1], directed=r.directed, direction_names=tuple(r.dirs) if r.dirs else None)
    if how == 'matrix':
        m = np.zeros((len(r.nodes),) * 2, int if r.dirs else bool)
        for (a, b), d in r.e.items():
            i, j = r.nodes.index(a), r.nodes.index(b)
            m[i, j] = (r.dirs.index(d) + 1) if r.dirs else True
            if not r.directed: m[j, i] = True
        g = QubitGraph(list(r.nodes), initial_connectivity=m, directed=r.directed, direction_names=r.dirs)
        m[:] = 0   # the graph must not follow the caller's array
        return g
    if how == 'add':
        g = QubitGraph(list(r.nodes), directed=r.directed, direction_names=r.dirs)
        for e in es: g.add_edge(*e)
        return g
    if how == 'set':
        g = QubitGraph(list(r.nodes), initial_edges=[], directed=r.directed, direction_names=r.dirs)
        for e in es: g[e[:2]] = (e[2] if r.dirs else True)
        return g
    if how == 'copy': return build(r, 'edges').copy()
    if how == 'pickle': return pickle.loads(pickle.dumps(build(r, 'matrix')))
    raise ValueError(how)

HOWS = ('edges', 'tuple', 'matrix', 'add', 'set', 'copy', 'pickle')


def observe(ctx, key, g, r, deep=True):
    import numpy as np
    def ck(c, what, got=None, exp=None): return ctx.check(c, '%s:%s' % (key, what), lambda: '%s: got %r, expected %r for %r' % (what, got, exp, r.canon()))
    N = r.nodes
    ck(g.get_node_names() == N and g.nqubits == len(N) and g.directed == r.directed, 'nodes', g.get_node_names(), N)
    ck(g.edges() == sorted(r.e), 'edges', g.edges(), sorted(r.e))
    dbl = sorted(set(r.e) | (set() if r.directed else {(b, a) for a, b in r.e}))
    ck(g.edges(double_for_undirected=True) == dbl, 'doubled edges', g.edges(True), dbl)
    D = np.array([[r.dist(a, b) for b in N] for a in N]).reshape(len(N), len(N))
    if len(N): ck(np.array_equal(g.shortest_path_distance_matrix(), D), 'distance matrix', g.shortest_path_distance_matrix().tolist(), D.tolist())
    for a in N:
        for b in N:
            h = r.has(a, b)
            if a != b: ck(g.is_directly_connected(a, b) == h and g[a, b] == h and g.has_edge((a, b)) == h, 'neighbours', (a, b), h)
            d = r.dist(a, b)
            ck(g.shortest_path_distance(a, b) == d, 'distance', (a, b, g.shortest_path_distance(a, b)), d)
            if a != b: ck(bool(g.is_connected(a, b)) == (d < INF), 'connected', (a, b, g.is_connected(a, b)), d < INF)
            if d < INF:
                p = g.shortest_path(a, b)
                ok = p[0] == a and p[-1] == b and len(p) == d + 1 and all(r.has(x, y) for x, y in zip(p, p[1:]))
                ck(ok, 'shortest path', (a, b, p), d)
                ck(g.shortest_path_edges(a, b) == list(zip(p, p[1:])), 'path edges')
                for k in (0, 1):
                    for S in itertools.combinations(N, k): ck(g.shortest_path_intersect(a, b, S) == bool(set(S) & set(p)), 'path intersection')
            else:
                try: g.shortest_path(a, b)
                except AssertionError: pass
                else: ck(False, 'path between unconnected nodes', (a, b))
    if not deep: return
    for k in range(len(N) + 1):
        for S in itertools.combinations(N, k):
            want = all(r.dist(a, b) < INF for a in S for b in S)
            for perm in (S, S[::-1]): ck(g.are_glob_connected(list(perm)) == want, 'connected set', S, want)
            for h in range(3):
                exp = sorted(b for b in N if any(r.dist(a, b) <= h for a in S))
                ck(g.radius(S, h) == exp, 'radius', (S, h, g.radius(S, h)), exp)
            for perm in ({S, S[::-1]} if k < 3 else set(itertools.permutations(S))):
                for reset in (False, True):
                    sg = g.subgraph(list(perm), reset)
                    m = {q: (i if reset else q) for i, q in enumerate(perm)}
                    rr = Ref([m[q] for q in perm], {(m[a], m[b]): d for (a, b), d in r.e.items() if a in m and b in m}, r.directed, r.dirs)
                    ck(sg.get_node_names() == rr.nodes and sg.directed == r.directed, 'subgraph nodes', sg.get_node_names(), rr.nodes)
                    ck(all(sg[a, b] == rr.has(a, b) for a in rr.nodes for b in rr.nodes if a != b), 'subgraph edges', sg.edges(), rr.canon())
                    ck(sg.edges() == sorted(rr.e), 'subgraph edge list', sg.edges(), sorted(rr.e))
                    if r.dirs: directions(ctx, key + ':subgraph', sg, rr)
            ck(g.connected_combos(S, 2) == sum(1 for p in itertools.combinations(S, 2) if r.dist(*p) < INF and r.dist(*p[::-1]) < INF), 'connected combos')
    if r.dirs: directions(ctx, key, g, r)


def directions(ctx, key, g, r):
    def step(q, d):
        t = [b for b in r.nodes if r.e.get((q, b)) == d]
        return t
    def known(q, *ds):
        """what the recorded defect (the 0-based direction compared with the 1-based matrix) yields"""
        for d in ds:
            if q is None: return None
            k = r.dirs.index(d)
            q = next((b for b in r.nodes if (r.e.get((q, b)) is None if k == 0 else r.e.get((q, b)) == r.dirs[k - 1])), None)
        return q
    def judge(got, t, what, q, *ds):
        ok = (got in t) if t else got is None
        k = 'move_in_direction:off by one' if not ok and got == known(q, *ds) else key + ':' + what
        ctx.check(ok, k, lambda: 'steps %r from %r give %r, expected %r in %r' % (ds, q, got, t, r.canon()))
    for q in r.nodes:
        for i, d in enumerate(r.dirs):
            t = step(q, d)
            for spec in (d, i):
                got = g.move_in_direction(q, spec)
                judge(got, t, 'direction', q, d)
            for d2 in r.dirs:
                if len(t) <= 1:
                    t2 = step(t[0], d2) if t else []
                    for got in (g.move_in_directions(q, [d, d2]), g.resolve_relative_nodelabel('@0+%s+%s' % (d, d2), [q]), g.resolve_relative_nodelabel('@1+%s+%s' % (d, d2), [r.nodes[0], q])):
                        judge(got, t2, 'directions', q, d, d2)
        ctx.check(g.resolve_relative_nodelabel(q, []) == q and g.resolve_relative_nodelabel('@0', [q]) == q, key + ':relative', 'relative label')


def graphs(kind, nodes):
    dirs = ['right', 'left', 'up'] if kind == 'dirs' else None
    pairs = list(itertools.combinations(nodes, 2)) if kind == 'und' else list(itertools.permutations(nodes, 2))
    vals = (None,) + (tuple(dirs[:2]) if dirs else (True,))
    for c in itertools.product(vals, repeat=len(pairs)):
        yield Ref(nodes, {p: v for p, v in zip(pairs, c) if v}, kind != 'und', dirs)


LABELS = {0: [()], 1: [(0,), ('Q0',)], 2: [(0, 1), (1, 0), ('Q1', 'Q0')], 3: [(0, 1, 2), (2, 0, 1), ('Qb', 'Qa', 'Qc')], 4: [(0, 1, 2, 3), (3, 1, 0, 2)]}


def shards(tier):
    out = []
    for kind in ('und', 'dir', 'dirs'):
        for n in range(5):
            for ls in LABELS[n]:
                if n == 4 and kind != 'und' and not (tier == 'thorough' and kind == 'dir'): continue
                for part in range(1 if n < 3 else 4): out.append(('all', kind, ls, part, 1 if n < 3 else 4))
        for ls in ((0, 1, 2), ('Qb', 'Qa', 'Qc')):
            for first in range(6): out.append(('hist', kind, ls, first, 3 if tier == 'quick' else 4))
    out += [('common', i) for i in range(4)]
    out += [('spec', i, 8) for i in range(8)]
    return out


def hist_ops(r):
    prs = list(itertools.combinations(r.nodes, 2)) if not r.directed else list(itertools.permutations(r.nodes, 2))
    for a, b in prs + ([(b, a) for a, b in prs] if not r.directed else []):
        for d in (r.dirs[:2] if r.dirs else (None,)): yield ('add', a, b, d)
        yield ('rem', a, b)
        for d in (r.dirs[:2] + [0] if r.dirs else (True, False)): yield ('set', a, b, d)
    yield ('copy',)


def run(shard, ctx):
    import numpy as np
    if shard[0] == 'all':
        _, kind, ls, part, nparts = shard
        for i, r in enumerate(graphs(kind, ls)):
            if i % nparts != part: continue
            ctx.new_state(r.canon()); ctx.sample(repr(r.canon()))
            for how in HOWS:
                ctx.where = repr((how, r.canon()))
                g = build(r, how); ctx.trans()
                observe(ctx, '%s:%d:%s' % (kind, len(ls), how), g, r, deep=(how in ('edges', 'matrix')))
                ctx.trace()
    elif shard[0] == 'hist':
        _, kind, ls, first, depth = shard
        dirs = ['right', 'left'] if kind == 'dirs' else None
        r0 = Ref(ls, {}, kind != 'und', dirs)
        done = set()
        def go(hist, d):
            r = Ref(ls, {}, kind != 'und', dirs); g = build(r, 'edges'); ctx.where = repr((kind, ls, hist))
            keep = []
            for op in hist:
                if op[0] == 'add': g.add_edge(*(op[1:3] + ((op[3],) if op[3] else ()))); r.set(op[1], op[2], op[3] or True)
                elif op[0] == 'rem':
                    if not r.has(op[1], op[2]):
                        try: g.remove_edge(op[1], op[2])
                        except AssertionError: pass
                        else: ctx.fail('remove absent edge', 'removing an absent edge was accepted'); return
                    else: g.remove_edge(op[1], op[2]); r.rem(op[1], op[2])
                elif op[0] == 'set':
                    g[op[1], op[2]] = op[3]
                    if op[3]: r.set(op[1], op[2], op[3])
                    else: r.rem(op[1], op[2])
                else: keep.append((g, Ref(ls, dict(r.e), r.directed, dirs))); g = g.copy()
                observe(ctx, 'history:%s:%s' % (kind, op[0]), g, r, deep=False)   # also fills the caches that the next step must invalidate
                ctx.trans()
            if hist:
                observe(ctx, 'history:%s:end' % kind, g, r); ctx.trace()
                for old, orf in keep: observe(ctx, 'history:%s:original after copy' % kind, old, orf, deep=False)
            st = (kind, ls, r.canon(), tuple(k[1].canon() for k in keep))
            if not ctx.new_state(st) or d == 0: return
            for i, op in enumerate(hist_ops(r)):
                if not hist and i % 6 != first: continue
                go(hist + (op,), d - 1)
        go((), depth)
    elif shard[0] == 'common':
        common(ctx, shard[1])
    else:
        spec(ctx, shard[1], shard[2])


def common(ctx, part):
    from pygsti.objects.qubitgraph import QubitGraph
    for geo in ('line', 'ring', 'grid', 'torus'):
        for n in ((0, 1, 2, 3, 4, 5) if geo in ('line', 'ring') else (4, 9)):
            for directed in (True, False):
                for alld in (True, False):
                    for labels in (None, tuple('Q%d' % (9 - i) for i in range(n))):
                        if (n + directed) % 4 != part: continue
                        ctx.where = repr((geo, n, directed, alld, labels)); ctx.trans()
                        g = QubitGraph.common_graph(n, geo, directed, labels, alld)
                        q = labels or tuple(range(n)); e = {}
                        if geo in ('line', 'ring'):
                            prs = [(i, i + 1, 'right', 'left') for i in range(n - 1)] + ([(n - 1, 0, 'right', 'left')] if geo == 'ring' and n > 2 else [])
                        else:
                            s = int(n ** .5 + .5); prs = []
                            for a in range(s):
                                for b in range(s):
                                    for da, db, f, t in ((0, 1, 'right', 'left'), (1, 0, 'down', 'up')):
                                        x, y = a + da, b + db
                                        if x >= s or y >= s:
                                            if geo == 'grid' or s < 3: continue
                                            x %= s; y %= s
                                        prs.append((a * s + b, x * s + y, f, t))
                        for i, j, f, t in prs:
                            e[q[i], q[j]] = f if directed else True
                            if directed and alld: e[q[j], q[i]] = t
                        names = sorted(set(e.values())) if directed and e else None
                        r = Ref(q, e, directed, names)
                        ctx.new_state(r.canon())
                        observe(ctx, 'common:%s:%d' % (geo, n), g, r, deep=(n < 6))
                        ctx.trace()
                        if directed and names:
                            ctx.check(list(g.directions) == names, 'common:directions', lambda: '%r vs %r' % (g.directions, names))
                            if n >= 6: directions(ctx, 'common:%s' % geo, g, r)


def spec(ctx, part, nparts):
    """processor specifications: the gates, relations and connectivity of what was asked for"""
    import numpy as np
    from pygsti.objects.processorspec import ProcessorSpec
    from pygsti.tools import internalgates as itg
    std = itg.get_standard_gatename_unitaries()
    oneq = ['Gi', 'Gxpi', 'Gxpi2', 'Gxmpi2', 'Gh', 'Gp', 'Gpdag', 'Gzpi', 'Gypi2', 'Gtdag', 'Gt']
    k = 0
    for names in list(itertools.combinations(oneq, 2)) + [tuple(oneq)]:
        for two in ((), ('Gcnot',), ('Gcphase',), ('Gswap', 'Gcnot')):
            for labels, avail in (((0, 1), None), (('Q0', 'Q1', 'Q2'), [('Q0', 'Q1'), ('Q2', 'Q1')]), ((0, 1, 2), [(0, 1), (1, 0), (1, 2)]), ((0, 1, 2), 'all-combinations'), ((0, 1, 2), 'all-permutations')):
                k += 1
                if k % nparts != part: continue
                gn = list(names) + list(two)
                av = {t: avail for t in two} if avail else {}
                ctx.where = repr((gn, av, labels)); ctx.trans()
                cliff = all(n not in ('Gtdag', 'Gt') for n in gn)
                ps = ProcessorSpec(len(labels), gn, availability=av, qubit_labels=list(labels), construct_models=('target',) + (('clifford',) if cliff else ()), construct_clifford_compilations={})
                ctx.check(ps.qubit_labels == list(labels) and ps.number_of_qubits == len(labels) and ps.root_gate_names == gn, 'spec:names', 'names differ')
                for n in gn: ctx.check(np.allclose(ps.root_gate_unitaries[n], std[n]), 'spec:unitary', n)
                U = {n: np.asarray(std[n], complex) for n in gn}
                rho_eq = lambda A, B: A.shape == B.shape and abs(abs(np.trace(A.conj().T @ B)) - A.shape[0]) < 1e-8
                for a in gn:
                    for b in gn:
                        if U[a].shape != U[b].shape: continue
                        comp = U[b] @ U[a]; one = U[a].shape == (2, 2)
                        inv = rho_eq(comp, np.eye(len(comp)))
                        if inv: ctx.check(a in ps.gate_inverse and rho_eq(U[ps.gate_inverse[a]] @ U[a], np.eye(len(comp))), 'spec:inverse', lambda: '%s has inverse %s but gate_inverse says %r' % (a, b, ps.gate_inverse.get(a)))
                        if one:
                            want = [c for c in gn if U[c].shape == (2, 2) and rho_eq(U[c], comp)]
                            if inv: ctx.check((a, b) in ps.oneQgate_relations and ps.oneQgate_relations[a, b] in [None] + want, 'spec:relation', lambda: 'relation of %s' % ((a, b),))
                            elif want: ctx.check(ps.oneQgate_relations.get((a, b)) in want, 'spec:relation', lambda: '%s then %s is %r, not %r' % (a, b, want, ps.oneQgate_relations.get((a, b))))
                            else: ctx.check((a, b) not in ps.oneQgate_relations, 'spec:relation', lambda: '%s then %s is no gate of the device' % (a, b))
                for a, b in ps.gate_inverse.items(): ctx.check(rho_eq(U[b] @ U[a], np.eye(len(U[a]))), 'spec:inverse', lambda: '%s is not the inverse of %s' % (b, a))
                if avail == 'all-permutations' or avail is None: P = set(itertools.permutations(labels, 2))
                elif avail == 'all-combinations': P = set(itertools.combinations(labels, 2))
                else: P = set(avail)
                prim = [l for l in ps.models['target'].get_primitive_op_labels() if l.name in two]
                if avail is not None:
                    ctx.check({(l.name, l.sslbls) for l in prim} == {(t, p) for t in two for p in P}, 'spec:availability', lambda: '%r' % prim)
                    if cliff and two:
                        rr = Ref(labels, {q: True for p in P for q in (p, p[::-1])}, True, None)
                        observe(ctx, 'spec:graph', ps.qubitgraph, rr, deep=False)
                        for n_ in (1, 2, 3):
                            exp = [c for c in itertools.combinations(labels, n_) if len(c) == 1 or all(Ref(c, {e: True for e in rr.e if e[0] in c and e[1] in c}, True, None).dist(x, y) < INF for x in c for y in c)]
                            ctx.check(ps.get_all_connected_sets(n_) == exp, 'spec:connected sets', lambda: '%r vs %r' % (ps.get_all_connected_sets(n_), exp))
                            new = ps.get_all_connected_sets_new()[n_]
                            ctx.check(sorted(new) == sorted(tuple(sorted(e)) for e in exp) or not two, 'spec:connected sets new', lambda: '%r vs %r' % (new, exp))
                        got = set(ps.get_edges(labels)); ctx.check(got == P, 'spec:edges', lambda: '%r vs %r' % (got, P))
                ctx.new_state(('spec', tuple(gn), repr(av), labels)); ctx.trace()
