"""C13: outcome probabilities of every simulator against plain matrix multiplication."""
import itertools, sys
LEVEL = 'model_checking'
RULE = ("bounded-exhaustive exploration of circuits: for every model of a family (explicit with 10 parameterizations, embedded/composed/"
        "exponentiated members, instruments, several preparations and POVMs; implicit with local and cloud noise; state-vector) every "
        "sequence of layers up to a length bound from an alphabet with idle, parallel, repeated and nested layers is simulated by the "
        "matrix, map and path-integral simulators with the compiled and the pure-Python representations, expanded and unexpanded, on all "
        "lines and on subsets, and each outcome distribution is compared with matrices multiplied out by the check")
ASSUMPTIONS = ["leaf members report the matrix they hold (C17 checks that)", "tolerance 1e-8; truncated path integrals within the remainder of the error expansion"]
import numpy as np

QUICK_LEN = {'e1': 3, 'e2': 3, 'l1': 4, 'l2': 2, 'l3': 2, 'c2': 2, 'c3': 2}


def shards(tier):
    from mc import models
    out = []
    for nm, (f, sims) in models.FAMILY().items():
        for s in sims:
            for rep in ('fast', 'slow'):
                parts = 2 if tier == 'quick' and nm[:2] in ('e1', 'e2') and rep == 'slow' else 1 if tier == 'quick' else 4
                out += [('m', nm, s, rep, k, parts) for k in range(parts)]
    out += [('term', p, k) for p in ('H+S terms', 'H+S clifford terms') for k in range(2)]
    out += [('cloud',)]
    return out


def run(shard, ctx):
    if shard[0] == 'm' and shard[3] == 'slow':   # start over without the compiled representations
        for k in [k for k in sys.modules if k.split('.')[0] == 'pygsti']: del sys.modules[k]
        sys.modules['pygsti.objects.replib.fastreplib'] = None
    return {'m': sim, 'term': term, 'cloud': cloud}[shard[0]](ctx, *shard[1:])


def close(p, w, tol=1e-8):
    return set(p) == set(w) and all(abs(p[k] - w[k]) <= tol for k in w)


def sim(ctx, nm, s, rep, part, parts):
    from mc import models
    from pygsti.objects import Circuit, Label
    from pygsti.objects.label import CircuitLabel
    m, r = models.FAMILY()[nm][0](s); L = models.alphabet(nm, m, r)
    from pygsti.objects import replib
    ctx.check(('slow' in replib.DMStateRep.__module__) == (rep == 'slow'), 'representation', replib.DMStateRep.__module__)
    n = QUICK_LEN[nm[:2]] + (ctx.tier == 'thorough')
    if rep == 'slow' and ctx.tier == 'quick': n = min(n, 2)
    v0 = m.to_vector().copy()
    preps = [None] if len(r.preps) == 1 else list(r.preps); povms = [None] if len(r.povms) == 1 else list(r.povms)
    sp = list(itertools.product(preps, povms))
    k = 0
    for ln in range(n + 1):
        for ls in itertools.product(L, repeat=ln):
            k += 1
            if k % parts != part: continue
            nested = any(isinstance(c, CircuitLabel) for l in ls for c in ([l] if isinstance(l, CircuitLabel) else l.components))
            for p0, p1 in (sp if ln < 3 else sp[k % len(sp):][:1]):
                w = r.probs(ls, p0, p1)
                full = ([Label(p0)] if p0 else []) + list(ls) + ([Label(p1)] if p1 else [])
                for ex in ((False, True) if nested else (True,)):
                    if ex and r.extra is not None and not nm.startswith('e1') and any(isinstance(c, CircuitLabel) for l in ls if not isinstance(l, CircuitLabel) for c in l.components): continue   # the idle noise of parallel sub-circuits depends on the layering
                    Circuit.default_expand_subcircuits = ex
                    h = '%s/%s/%s %s %r' % (nm, s, rep, '' if ex else 'unexpanded', full); ctx.where = h; ctx.trans()
                    c = Circuit(full, line_labels=r.lines, expand_subcircuits=ex)
                    p = m.probs(c)
                    ctx.check(close(p, w), 'probs', lambda: '%s: %r but the matrices give %r' % (h, dict(p), dict(w)))
                    if ln == 1:
                        q = m.probs(c, clipTo=(.2, .7)); ctx.check(close(q, {a: min(max(b, .2), .7) for a, b in w.items()}), 'clip', lambda: h)
                    if ln <= 2 and r.lines == '*':
                        q = m.probs(tuple(full)); ctx.check(close(q, w), 'tuple of labels', lambda: h)
                Circuit.default_expand_subcircuits = True
                ctx.trace()
            ctx.new_state((nm, s, rep, tuple(map(repr, ls))))
            # repetition and idle padding of the whole circuit
            if ln in (1, 2) and sp == [(None, None)] and not nested:
                c = Circuit(list(ls), line_labels=r.lines)
                for reps in (0, 2, 3):
                    p = m.probs(c * reps); w = r.probs(list(ls) * reps)
                    ctx.check(close(p, w), 'repeated', lambda: '(%s)*%d: %r %r' % (ctx.where, reps, dict(p), dict(w))); ctx.trans()
            # circuits on a subset of the lines, and the same circuit measured on all of them
            if r.lines != '*' and len(r.lines) > 1 and nm[0] in 'lc' and ln <= (2 if len(r.lines) == 2 else 1) and not nested:
                used = set(q for l in ls for c in l.components for q in c.sslbls)
                for j in range(1, len(r.lines) + 1):
                    for sub in itertools.combinations(r.lines, j):
                        for lines in set([sub, sub[::-1]]):
                            if not used <= set(lines): continue
                            ctx.where = '%s/%s/%s %r on lines %r' % (nm, s, rep, ls, lines); ctx.trans()
                            c = Circuit(list(ls), line_labels=lines)
                            p = m.probs(c); w = r.probs(ls, lines=sub)   # in the order of the model's qubits
                            ctx.check(close(p, w), 'subset of lines', lambda: '%s: %r but %r' % (ctx.where, dict(p), dict(w)))
                            p = c.simulate(m, return_all_outcomes=True); w = r.probs(ls, lines=lines)   # in the order of the circuit's lines
                            ctx.check(close(p, w), 'simulate', lambda: '%s: %r but %r' % (ctx.where, dict(p), dict(w)))
    ctx.check(np.array_equal(m.to_vector(), v0), 'model changed by simulating', nm)
    ctx.sample('%s simulated by %s' % (ctx.where, s))


def term(ctx, typ, part):
    """truncated path integrals converge to the density-matrix probabilities at the rate of the truncation"""
    import pygsti
    from pygsti.objects import Circuit, Label
    from pygsti.objects import operation as _op
    from pygsti.modelpacks.legacy import std1Q_XYI as std
    base = std.target_model()
    dm = base.copy(); dm.set_all_parameterizations('H+S'); dm.set_simtype('matrix')
    x0 = dm.to_vector(); g = np.random.RandomState(5).uniform(-1, 1, len(x0)) * .02
    dm.from_vector(x0 + g)
    t = base.copy(); t.set_all_parameterizations(typ)
    ctx.check(t.num_params() == dm.num_params(), 'parameter count', '%d %d' % (t.num_params(), dm.num_params()))
    t.from_vector(dm.to_vector()); ctx.check(np.array_equal(t.to_vector(), dm.to_vector()), 'parameters', typ)
    gates = list(base.operations)
    k = 0
    for order in ((0, 1, 2) if ctx.tier == 'quick' else (0, 1, 2, 3)):
        t.set_simtype('termorder', max_order=order)
        for ln in range((3 if order < 2 else 2) + (ctx.tier == 'thorough')):
            for ls in itertools.product(gates, repeat=ln):
                k += 1
                if k % 2 != part: continue
                c = Circuit(ls); ctx.where = '%s order %d %s' % (typ, order, c.str); ctx.trans()
                w = dm.probs(c); p = t.probs(c)
                s = .08 * (ln + 2); bound = s ** (order + 1) * np.exp(s)
                ctx.check(close(p, w, bound), 'truncated path integral', lambda: '%s: %r vs %r (remainder %g)' % (ctx.where, dict(p), dict(w), bound)); ctx.trace()
                ctx.new_state((typ, order, c.str))
                if order == 0:
                    z = t.to_vector(); t.from_vector(0 * z); dm.from_vector(0 * z)
                    p = t.probs(c); w = dm.probs(c); ctx.check(close(p, w, 1e-10), 'exact path integral', lambda: '%s: %r vs %r' % (ctx.where, dict(p), dict(w)))
                    t.from_vector(z); dm.from_vector(z)


def cloud(ctx):
    """noise of a cloud model acts on the qubits within the stated number of hops, and on all of those"""
    from mc import models
    from pygsti.construction.nqnoiseconstruction import build_cloudnoise_model_from_hops_and_weights as build
    for lines in ((0, 1, 2), (2, 0, 1), ('QC', 'QA', 'QB')):
        for hops, extra1, extraw, comp, simt in itertools.product((0, 1, 2), (0, 1), (0, 1), ('gates', 'errorgens'), ('map', 'matrix')):
            if simt == 'matrix' and extraw: continue
            ctx.where = 'cloud %r' % ((lines, hops, extra1, extraw, comp, simt),); ctx.trans()
            m = build(3, ['Gx', 'Gcnot'], qubit_labels=lines, geometry='line', maxhops=hops, extraWeight1Hops=extra1, extraGateWeight=extraw, errcomp_type=comp, sim_type=simt, parameterization='H+S', maxIdleWeight=2, spamtype='static')
            m.from_vector(.1 + .05 * models.rng(3).rand(m.num_params()))
            dist = lambda a, b: abs(lines.index(a) - lines.index(b))
            N = m.operation_blks['cloudnoise']
            ctx.check(set((l.name, l.sslbls) for l in N.keys()) == set([('Gx', (q,)) for q in lines] + [('Gcnot', (a, b)) for a in lines for b in lines if dist(a, b) == 1]), 'gates with noise', ctx.where)
            for l in N.keys():
                M = models.dense(N[l]); I = np.eye(64) if comp == 'gates' else np.zeros((64, 64))
                want = set(q for q in lines if min(dist(q, x) for x in l.sslbls) <= hops + extra1)
                got = set(q for i, q in enumerate(lines) if not trivial_on(M, i, comp))
                ctx.check(got == want, 'cloud qubits', lambda: '%s: noise of %s acts on %r, within %d hops are %r' % (ctx.where, l, got, hops + extra1, want))
                ctx.new_state((lines, hops, extra1, extraw, comp, str(l)))
            G = m.operation_blks['layers']['globalIdle']; M = np.array(G.todense())
            ctx.check(all(not trivial_on(M, i, 'gates') for i in range(3)), 'idle noise', ctx.where); ctx.trace()
            # two-qubit idle errors only between neighbours: without weight-1 errors the ends of the line would be untouched; count the parameters
            n1 = 6; n2 = 18
            ctx.check(G.num_params() == 3 * n1 + 2 * n2, 'idle parameters', lambda: '%s: %d' % (ctx.where, G.num_params()))


def trivial_on(M, i, comp):
    """M (a map, or the generator of one) acts as the identity on tensor factor i"""
    T = np.moveaxis(M.reshape((4,) * 6), (i, 3 + i), (0, 3)); T = T.transpose(0, 3, 1, 2, 4, 5).reshape(4, 4, 16, 16)
    A = T[0, 0]
    return all(np.allclose(T[a, b], A if a == b else 0, atol=1e-9) for a in range(4) for b in range(4))
