"""C20: stabilizer states.  Every stabilizer object is followed by an ordinary complex state vector."""
import itertools
LEVEL = 'model_checking'
RULE = ("explicit-state exploration: from every computational basis state, all histories of Clifford gates (on all qubit choices) up to a "
        "depth bound are applied to the Python frame, the compiled and the pure-Python representation and the bare tableau; in every "
        "reached state all amplitudes, probabilities, partial measurements with their post-measurement states, copies and tensor products "
        "are compared with a complex state vector (global phase included where the object tracks it)")
ASSUMPTIONS = ["amplitudes compared to 1e-9"]
import numpy as np

S2 = np.sqrt(.5)
U1 = {'H': np.array([[1, 1], [1, -1]]) * S2, 'P': np.diag([1, 1j]), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'C4': None, 'XH': np.array([[1, -1j], [-1j, 1]]) * S2 * np.exp(.4j)}
U2 = {'CNOT': np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), 'CPHASE': np.diag([1, 1, 1, -1])}
U2['ISW'] = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])
U2['HP'] = np.kron(U1['H'], U1['P']) @ U2['CNOT']
del U1['C4']
U1 = {k: np.ascontiguousarray(v, complex) for k, v in U1.items()}; U2 = {k: np.ascontiguousarray(v, complex) for k, v in U2.items()}


def apply(U, qs, v, n):
    m = len(qs)
    t = v.reshape((2,) * n); t = np.tensordot(U.reshape((2,) * (2 * m)), t, axes=(list(range(m, 2 * m)), list(qs)))
    return np.moveaxis(t, list(range(m)), list(qs)).reshape(-1)


def basis(z):
    v = np.zeros(2 ** len(z), complex); v[int(''.join(map(str, z)), 2)] = 1; return v


def gates(n):
    out = [(nm, (q,)) for nm in U1 for q in range(n)]
    if n > 1: out += [(nm, qs) for nm in U2 for qs in itertools.permutations(range(n), 2)]
    return out


def U(nm): return U1[nm] if nm in U1 else U2[nm]


_ops = {}
def op(nm):
    from pygsti.objects import CliffordOp
    if nm not in _ops: _ops[nm] = CliffordOp(U(nm))
    return _ops[nm]


def fastrep(nm, qs, n):
    from pygsti.objects.replib import fastreplib as fl
    c = op(nm); r = fl.SBOpRep_Clifford(c.smatrix, c.svector, c.inv_smatrix, c.inv_svector, np.ascontiguousarray(U(nm)))
    return r if tuple(qs) == tuple(range(n)) else fl.SBOpRep_Embedded(r, n, np.array(qs, np.int64))


def slowrep(nm, qs, n):
    from pygsti.objects.replib import slowreplib as fl
    c = op(nm); r = fl.SBOpRep_Clifford(c.smatrix, c.svector, c.inv_smatrix, c.inv_svector, U(nm))
    return r if tuple(qs) == tuple(range(n)) else fl.SBOpRep_Embedded(r, n, list(qs))


def shards(tier):
    out = [('hist', n, k, z) for n, ks in ((1, 1), (2, 4), (3, 16)) for k in range(ks) for z in ((0, 1) if n > 1 else (0, 1))]
    return out + [('kron', i) for i in range(4)] + [('multi', i) for i in range(8)] + [('ops', i) for i in range(4)] + [('model', i) for i in range(8)] + [('spam',)]


def run(shard, ctx):
    globals()[shard[0]](ctx, *shard[1:])


def close(a, b): return np.allclose(np.asarray(a).ravel(), np.asarray(b).ravel(), atol=1e-9)


def observe(ctx, h, f, v, n, tab=None, fast=None, slow=None, full=True):
    """frame, tableau, representations against the vector"""
    from pygsti.tools import symplectic as sy
    from pygsti.objects.replib import fastreplib, slowreplib
    ck = lambda c, what, info='': ctx.check(c, '%s' % what, lambda: 'after %s: %s %s, vector %s' % (h, what, info, np.round(v, 4)), h)
    Z = list(itertools.product((0, 1), repeat=n))
    if f is not None:
        g = f.copy(); ck(close(g.to_statevec(), v), 'to_statevec', g.to_statevec())
        a = f.extract_all_amplitudes()
        ck(close([a.get(z, 0) for z in Z], v) and set(a) <= set(Z), 'extract_all_amplitudes', a)
        for i, z in enumerate(Z):
            ck(close(f.extract_amplitude(z), v[i]), 'extract_amplitude', (z,))
            ck(abs(f.measurement_probability(z) - abs(v[i]) ** 2) < 1e-9, 'measurement_probability', z)
        r = f.torep(); fast = [r] + ([fast] if fast is not None else [])
        for k, r in enumerate(fast):
            for i, z in enumerate(Z):
                e = fastreplib.SBEffectRep(np.array(z, np.int64))
                ck(close(e.amplitude(r), v[i]), 'compiled amplitude' + str(k), z)
                ck(abs(e.probability(r) - abs(v[i]) ** 2) < 1e-9, 'compiled probability' + str(k), z)
    if slow is not None:
        for i, z in enumerate(Z):
            e = slowreplib.SBEffectRep(list(z)); ck(close(e.amplitude(slow), v[i]), 'pure python amplitude', z)
            if full: ck(abs(e.probability(slow) - abs(v[i]) ** 2) < 1e-9, 'pure python probability', z)
    if tab is not None:
        s, p = tab; c = s.copy(), p.copy()
        t = v.reshape((2,) * n)
        def after(t, sub, z):
            u = t
            for q, b in zip(sub, z):
                w = np.zeros_like(u); idx = [slice(None)] * n; idx[q] = b; w[tuple(idx)] = u[tuple(idx)]; u = w
            return u
        for q in range(n):
            p0, p1, s0, s1, q0, q1 = sy.pauli_z_measurement(s, p, q)
            for b, (pb, sb, qb) in enumerate(((p0, s0, q0), (p1, s1, q1))):
                u = after(t, (q,), (b,)); w = np.linalg.norm(u) ** 2
                ck(abs(pb - w) < 1e-9, 'pauli_z_measurement', (q, b, pb))
                if w > 1e-9: ck(tabstate(sb, qb, u.ravel()), 'state after measurement', (q, b))
        subs = [x for m in range(1, n + 1) for x in itertools.permutations(range(n), m)] if full else [tuple(range(n))]
        for sub in subs:
            for z in itertools.product((0, 1), repeat=len(sub)):
                u = after(t, sub, z); w = np.linalg.norm(u) ** 2
                pr, ss, sp = sy.stabilizer_measurement_prob((s, p), z, sub, return_state=True)
                ck(abs(pr - w) < 1e-9, 'stabilizer_measurement_prob', (sub, z, pr))
                if w > 1e-9: ck(tabstate(ss, sp, u.ravel()), 'state after several measurements', (sub, z))
                if sub == tuple(range(n)): ck(abs(sy.stabilizer_measurement_prob((s, p), z) - w) < 1e-9, 'stabilizer_measurement_prob', z)
        ck((s == c[0]).all() and (p == c[1]).all(), 'measuring changed the state')
        ck(tabstate(s, p, v), 'tableau')


def tabstate(s, p, v):
    """do the stabilizer columns of the tableau stabilize the vector, and do the columns commute as they must"""
    n = len(p) // 2
    for i in range(n):
        u = v.copy()
        for q in range(n):
            if s[n + q, i]: u = apply(np.diag([1., -1]).astype(complex), (q,), u, n)
        for q in range(n):
            if s[q, i]: u = apply(U1['X'], (q,), u, n)
        if not close(1j ** int(p[i]) * u, v): return False
    # independent stabilizers
    span = {0}
    for i in range(n):
        c = int(''.join(str(int(x)) for x in s[:, i]), 2)
        if c in span: return False
        span |= {x ^ c for x in span}
    return True


def hist(ctx, n, part, zi):
    from pygsti.objects import StabilizerFrame
    from pygsti.tools import symplectic as sy
    depth = {1: 4, 2: 3, 3: 2}[n] + (ctx.tier != 'quick')
    zs = list(itertools.product((0, 1), repeat=n)); zs = [zs[0]] if zi == 0 else ([zs[-1], zs[1]] if n > 1 else [zs[1]])
    G = gates(n); ks = {1: 1, 2: 4, 3: 16}[n]
    from pygsti.objects.replib import slowreplib as sl
    for z in zs:
        f = StabilizerFrame.from_zvals(n, z); v = basis(z)
        sl_ = lambda f: sl.SBStateRep(f.s.copy(), f.ps.copy(), f.a.copy())
        tab = sy.prep_stabilizer_state(n, z)
        if part == 0:
            observe(ctx, z, f, v, n, tab, None, sl_(f)); observe(ctx, z, StabilizerFrame.from_zvals(None, z), v, n)
            if not any(z): observe(ctx, z, StabilizerFrame.from_zvals(n), v, n, sy.prep_stabilizer_state(n))
        seen = set()
        def go(f, tab, fast, slow, v, h, d, first):
            for k, (nm, qs) in enumerate(G):
                if first and k % ks != part: continue
                h2 = h + ' ; %s%r' % (nm, qs); ctx.where = h2; ctx.trans()
                f2 = f.copy(); c = op(nm); f2.clifford_update(c.smatrix, c.svector, U(nm), qs if k % 3 or len(qs) < n else (None if qs == tuple(range(n)) else qs))
                E = sy.embed_clifford(c.smatrix, c.svector, qs, n)
                tab2 = sy.apply_clifford_to_stabilizer_state(E[0], E[1], *tab)
                fast2 = fastrep(nm, qs, n).acton(fast)
                slow2 = slowrep(nm, qs, n).acton(slow) if n < 3 or d < 1 else None
                v2 = apply(U(nm), qs, v, n)
                key = (f2.s.tobytes(), f2.ps.tobytes(), np.round(f2.a, 6).tobytes(), tab2[0].tobytes(), tab2[1].tobytes())
                new = ctx.new_state((n, d, key)) or first
                ctx.trace()
                if (key, d) in seen: continue
                seen.add((key, d))
                observe(ctx, h2, f2, v2, n, tab2, fast2, slow2, full=(n < 3 or d == 0))
                observe_adj(ctx, h2, nm, qs, n, fast2, slow2, v)
                if d + 1 < depth: go(f2, tab2, fast2, slow2 if slow2 is not None else None, v2, h2, d + 1, False) if slow2 is not None or n == 3 else None
            return
        go(f, tab, f.torep(), sl_(f), v, 'basis %r' % (z,), 0, True)
        ctx.check(close(f.to_statevec(), v), 'original changed', lambda: 'the initial frame changed', repr(z))


def observe_adj(ctx, h, nm, qs, n, fast, slow, v):
    from pygsti.objects.replib import fastreplib, slowreplib
    r = fastrep(nm, qs, n).adjoint_acton(fast)
    for i, z in enumerate(itertools.product((0, 1), repeat=n)):
        ctx.check(close(fastreplib.SBEffectRep(np.array(z, np.int64)).amplitude(r), v[i]), 'compiled adjoint', lambda: 'after %s and its adjoint: amplitude of %r' % (h, z), h)
    if slow is not None and n < 3:
        r = slowrep(nm, qs, n).adjoint_acton(slow)
        for i, z in enumerate(itertools.product((0, 1), repeat=n)):
            ctx.check(close(slowreplib.SBEffectRep(list(z)).amplitude(r), v[i]), 'pure python adjoint', lambda: 'after %s and its adjoint: amplitude of %r' % (h, z), h)


def states(n, depth):
    """frames (with vectors) reached by gate histories"""
    from pygsti.objects import StabilizerFrame
    out = [(StabilizerFrame.from_zvals(n, z), basis(z), repr(z)) for z in itertools.product((0, 1), repeat=n)]; seen = set(); lay = out
    for d in range(depth):
        nxt = []
        for f, v, h in lay:
            for nm, qs in gates(n):
                v2 = apply(U(nm), qs, v, n); k = np.round(v2, 5).tobytes()
                if k in seen: continue
                seen.add(k); f2 = f.copy(); c = op(nm); f2.clifford_update(c.smatrix, c.svector, U(nm), qs); nxt.append((f2, v2, h + ';%s%r' % (nm, qs)))
        out = out + nxt; lay = nxt
    return out


def kron(ctx, part):
    from pygsti.objects.stabilizer import sframe_kronecker
    A = states(1, 2); B = states(2, 1)
    k = 0
    for fs in list(itertools.product(A, A)) + list(itertools.product(A, B)) + list(itertools.product(B, A)) + [(a, b, c) for a in A[::5] for b in A[::7] for c in A[::6]]:
        k += 1
        if k % 4 != part: continue
        v = np.ones(1)
        for f in fs: v = np.kron(v, f[1])
        h = ' (x) '.join(f[2] for f in fs); ctx.where = h; ctx.trans()
        g = sframe_kronecker([f[0] for f in fs]); n = len(v).bit_length() - 1
        ctx.check(close(g.to_statevec(), v), 'kronecker', lambda: h); ctx.new_state(('k', k)); ctx.trace()
        g.clifford_update(op('H').smatrix, op('H').svector, U('H'), (n - 1,))
        ctx.check(close(g.to_statevec(), apply(U('H'), (n - 1,), v, n)), 'kronecker then gate', lambda: h)


def multi(ctx, part):
    """frames with several phase vectors: superpositions of states of one stabilizer group up to signs"""
    from pygsti.objects import StabilizerFrame
    from pygsti.objects.replib import slowreplib as sl, fastreplib as fl
    for n in (1, 2):
        for k, (f, v, h) in enumerate(states(n, 2 if n == 1 else 1)):
            if k % 8 != part: continue
            # same s with all sign choices of the stabilizers (antistabilizers' phases adjusted freely): each is a valid state
            vs = []
            for bits in itertools.product((0, 2), repeat=n):
                p = f.ps[0].copy(); p[:n] = (p[:n] + bits) % 4
                vs.append((p, StabilizerFrame(f.s, [p], [1.]).to_statevec()))
            for (p1, v1), (p2, v2) in itertools.product(vs, repeat=2):
                for a1, a2 in ((1, 1j), (.6, -.8)):
                    w = a1 * v1 + a2 * v2; ctx.trans(); ctx.where = h + repr((p1, p2, a1))
                    g = StabilizerFrame(f.s, [p1, p2], [a1, a2])
                    ctx.new_state((n, k, tuple(p1), tuple(p2), a1)); ctx.trace()
                    ctx.check(close(g.to_statevec(), w), 'multi', lambda: h)
                    for nm, qs in gates(n):
                        w2 = apply(U(nm), qs, w, n); g2 = g.copy(); c = op(nm); g2.clifford_update(c.smatrix, c.svector, U(nm), qs)
                        ctx.check(close(g2.to_statevec(), w2), 'multi gate', lambda: '%s ; %s%r' % (ctx.where, nm, qs)); ctx.trans()
                        r = fastrep(nm, qs, n).acton(g.torep()); rs = slowrep(nm, qs, n).acton(sl.SBStateRep(g.s, g.ps, g.a))
                        for i, z in enumerate(itertools.product((0, 1), repeat=n)):
                            ctx.check(close(fl.SBEffectRep(np.array(z, np.int64)).amplitude(r), w2[i]), 'multi compiled', lambda: '%s ; %s%r' % (ctx.where, nm, qs))
                            ctx.check(close(sl.SBEffectRep(list(z)).amplitude(rs), w2[i]), 'multi pure python', lambda: '%s ; %s%r' % (ctx.where, nm, qs))


def ops(ctx, part):
    """composed, exponentiated and doubly embedded operations"""
    from pygsti.objects import CliffordOp, EmbeddedOp, ComposedOp
    from pygsti.objects.spamvec import StabilizerSPAMVec, StabilizerEffectVec
    from pygsti.objects.operation import ExponentiatedOp
    n = 3; G = gates(3)
    st = states(3, 1)[:: 9 if ctx.tier == 'quick' else 2]
    emb = lambda nm, qs, lines: EmbeddedOp([tuple(lines)], list(qs), op(nm))
    cases = [('comp', a, b) for a in G for b in G[::4]] + [('exp', a, k) for a in G for k in (0, 1, 2, 3, 5)] + [('nest', a, qs) for a in gates(2) for qs in itertools.permutations(range(3), 2)]
    for k, c in enumerate(cases):
        if k % 4 != part: continue
        ctx.where = repr(c)
        if c[0] == 'comp': o = ComposedOp([emb(*c[1], range(3)), emb(*c[2], range(3))]); f = lambda v: apply(U(c[2][0]), c[2][1], apply(U(c[1][0]), c[1][1], v, 3), 3)
        elif c[0] == 'exp':
            o = ExponentiatedOp(emb(*c[1], range(3)), c[2])
            def f(v):
                for _ in range(c[2]): v = apply(U(c[1][0]), c[1][1], v, 3)
                return v
        else:
            o = EmbeddedOp([(0, 1, 2)], list(c[2]), EmbeddedOp([(0, 1)], list(c[1][1]), op(c[1][0])))
            f = lambda v: apply(U(c[1][0]), tuple(c[2][q] for q in c[1][1]), v, 3)
        for fr, v, h in st:
            r = fr.torep(); w = f(v); ctx.trans()
            out = o._rep.acton(r); back = o._rep.adjoint_acton(out)
            for i, z in enumerate(itertools.product((0, 1), repeat=3)):
                e = StabilizerEffectVec(z)._rep
                ctx.check(close(e.amplitude(out), w[i]), 'operation ' + c[0], lambda: '%r on %s' % (c, h))
                ctx.check(close(e.amplitude(back), v[i]), 'adjoint ' + c[0], lambda: '%r on %s' % (c, h))
                ctx.check(close(e.amplitude(r), v[i]), 'input changed', lambda: '%r on %s' % (c, h))
        ctx.new_state(c); ctx.trace()


def spam(ctx):
    from pygsti.objects.spamvec import StabilizerSPAMVec, StabilizerEffectVec
    from pygsti.objects.povm import ComputationalBasisPOVM
    for n in (1, 2, 3):
        for i, z in enumerate(itertools.product((0, 1), repeat=n)):
            v = basis(z); ctx.new_state(z); ctx.trans(); ctx.trace()
            p = StabilizerSPAMVec(n, z); ctx.check(close(p.todense(), v) and p.todense().shape == (2 ** n, 1), 'prep', repr(z))
            ctx.check(close(StabilizerSPAMVec.from_dense_purevec(v).todense(), v), 'prep from vector', repr(z))
            e = StabilizerEffectVec(z); ctx.check(close(e.todense(), v) and tuple(e.outcomes) == z, 'effect', repr(z))
            ctx.check(tuple(StabilizerEffectVec.from_dense_purevec(v).outcomes) == z, 'effect from vector', repr(z))
            m = ComputationalBasisPOVM(n, 'stabilizer')
            for j, y in enumerate(itertools.product((0, 1), repeat=n)):
                x = m[''.join(map(str, y))]
                ctx.check(abs(x._rep.probability(p._rep) - (y == z)) < 1e-9, 'povm', repr((y, z)))
            ctx.check(list(m.keys()) == [''.join(map(str, y)) for y in itertools.product((0, 1), repeat=n)], 'povm labels', repr(list(m.keys())))
        ctx.check(close(StabilizerSPAMVec(n).todense(), basis((0,) * n)), 'prep default', n)


def model(ctx, part):
    """probabilities of a stabilizer model for every circuit of bounded depth"""
    from pygsti.objects.processorspec import ProcessorSpec
    from pygsti.objects import Circuit, Label
    for lines in (('a', 'b'), (2, 0, 1)):
        n = len(lines)
        ps = ProcessorSpec(n, ['Gh', 'Gp', 'Gxpi', 'Gcnot', 'Gcphase'], qubit_labels=list(lines), availability={'Gcphase': 'all-combinations', 'Gcnot': 'all-permutations'}, construct_models=('clifford', 'target'), construct_clifford_compilations={})
        m = ps.models['clifford']; W = {'Gh': U1['H'], 'Gp': U1['P'], 'Gxpi': U1['X'], 'Gcnot': U2['CNOT'], 'Gcphase': U2['CPHASE']}
        one = [((g, (q,)),) for g in ('Gh', 'Gp', 'Gxpi') for q in lines] + [(('Gcnot', qs),) for qs in itertools.permutations(lines, 2)] + [(('Gcphase', qs),) for qs in itertools.combinations(lines, 2)]
        lay = [()] + one + [a + b for a, b in itertools.combinations(one, 2) if not set(a[0][1]) & set(b[0][1])]
        if n == 3: lay = lay[::2 if ctx.tier == 'quick' else 1]
        k = 0
        for ls in [()] + [(a,) for a in lay] + list(itertools.product(lay, lay)) + list(itertools.product(one[:2] + one[-2:], one, one[::2])):
            k += 1
            if k % 8 != part: continue
            v = basis((0,) * n)
            for l in ls:
                for g, qs in l: v = apply(W[g], [lines.index(q) for q in qs], v, n)
            c = Circuit([Label([Label(g, qs) for g, qs in l]) if len(l) != 1 else Label(*l[0]) for l in ls], line_labels=lines)
            ctx.where = c.str; ctx.trans(); ctx.trace(); ctx.new_state(c.str)
            pr = m.probs(c)
            want = {(''.join(map(str, z)),): abs(v[i]) ** 2 for i, z in enumerate(itertools.product((0, 1), repeat=n))}
            ctx.check(set(pr) == set(want) and all(abs(pr[x] - want[x]) < 1e-9 for x in want), 'model', lambda: '%s: %r' % (c.str, dict(pr)))
