"""C29: polynomials.  A polynomial is a map {multiset of variable indices: coefficient}; all coefficients used here are small
Gaussian integers, so floating point arithmetic is exact and every comparison is exact."""
import itertools, copy, pickle
LEVEL = 'model_checking'
RULE = ("all histories of polynomial operations up to a depth bound over an alphabet of operand polynomials, for several numbers of "
        "variables (so that keys span one or many machine words), with the compiled and the pure-Python representation; a state is "
        "the (implementation, number of variables, coefficients); each reached polynomial is evaluated, differentiated and compacted, "
        "its tapes evaluated and differentiated by both tape implementations, and compared with the reference map")
ASSUMPTIONS = ["all polynomials of one computation have the same max_num_vars", "terms with |coefficient| <= 1e-12 may be dropped",
               "adding a number to a Polynomial (documented as adding it to every coefficient) is not used"]


# ---- reference
def norm(p): return {k: v for k, v in p.items() if v != 0}
def radd(p, q):
    r = dict(p)
    for k, v in q.items(): r[k] = r.get(k, 0) + v
    return norm(r)
def rmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b)); r[k] = r.get(k, 0) + x * y
    return norm(r)
def rpow(p, n):
    r = {(): 1}
    for _ in range(n): r = rmul(r, p)
    return r
def rmap(p, f):
    r = {}
    for k, v in p.items():
        k2 = tuple(sorted(f(i) for i in k)); r[k2] = r.get(k2, 0) + v
    return norm(r)
def rderiv(p, v):
    r = {}
    for k, c in p.items():
        n = k.count(v)
        if n:
            l = list(k); l.remove(v); k2 = tuple(l); r[k2] = r.get(k2, 0) + n * c
    return norm(r)
def reval(p, x):
    t = 0
    for k, c in p.items():
        for i in k: c = c * x[i]
        t = t + c
    return t


def operands(n):
    """operand polynomials (as users may write them: any order of the indices within a term)"""
    a, b, z = 0, min(1, n - 1), n - 1
    out = [{}, {(): 2}, {(a,): 1}, {(z,): -1, (): 1}, {(z, a): 1, (a,): 1j}, {(a, a, z): 2, (b,): -1, (): 3 - 1j},
           {(z, a): 1, (a, z): 2, (z, b): -3}, {(z,) * 5: 1, (a,) * 9: 2}]
    return out


def ops(n):
    z = n - 1
    for j in range(8): yield ('add', j); yield ('iadd', j); yield ('mul', j)
    for c in (0, 1, -2, 1j): yield ('scale', c); yield ('smul', c)
    for e in (0, 1, 2, 3): yield ('pow', e)
    for v in sorted({0, z}): yield ('deriv', v)
    for m in ('id', 'rev', 'zero', 'up'): yield ('map', m); yield ('mapin', m); yield ('mapvec', m); yield ('mapvecin', m)
    for w in ('copy', 'deepcopy', 'product', 'pickle'): yield (w,)


def mapper(m, n):
    return {'id': lambda i: i, 'rev': lambda i: n - 1 - i, 'zero': lambda i: 0, 'up': lambda i: min(i + 1, n - 1)}[m]


def apply_op(P, p, r, op, n, store):
    """-> (new polynomial, new reference); operands come from `store` as (polynomial, reference)"""
    import numpy as np
    o = op[0]
    if o in ('add', 'iadd', 'mul'):
        q, s = store[op[1]]
        if o == 'add': return p + q, radd(r, s)
        if o == 'mul': return (p * q if op[1] % 2 else p.mult(q)), rmul(r, s)
        p = p.copy(); p += q; return p, radd(r, s)
    if o == 'scale': p = p.copy(); p.scale(op[1]); return p, norm({k: v * op[1] for k, v in r.items()})
    if o == 'smul': return (op[1] * p if op[1] == -2 else p * op[1] if op[1] == 1j else p.scalar_mult(op[1])), norm({k: v * op[1] for k, v in r.items()})
    if o == 'pow': return p ** op[1], rpow(r, op[1])
    if o == 'deriv': return p.deriv(op[1]), rderiv(r, op[1])
    if o.startswith('map'):
        f = mapper(op[1], n); vec = np.array([f(i) for i in range(n)], np.int64)
        if o == 'map': q = p.map_indices(lambda k: tuple(f(i) for i in k))
        elif o == 'mapin': q = p.copy(); q.map_indices_inplace(lambda k: tuple(f(i) for i in k))
        elif o == 'mapvec': q = p.mapvec_indices(vec)
        else: q = p.copy(); q.mapvec_indices_inplace(vec)
        return q, rmap(r, f)
    if o == 'copy': return copy.copy(p), r
    if o == 'deepcopy': return copy.deepcopy(p), r
    if o == 'pickle': return pickle.loads(pickle.dumps(p)), r
    if o == 'product': return P.product([p, store[4][0], store[2][0]]), rmul(rmul(r, store[4][1]), store[2][1])
    raise ValueError(op)


def points(n):
    import numpy as np
    return [np.zeros(n), np.ones(n), np.array([float((i * 7) % 5 - 2) for i in range(n)])]


def rep_ok(v, w): return v == w


def observe(ctx, key, p, r, n, O, last):
    import numpy as np
    fast, slow = O
    def ck(c, what, got=None, exp=None): return ctx.check(c, key + ':' + what, lambda: '%s: got %r, expected %r' % (what, got, exp))
    got = norm(p.coeffs)
    ck(got == {k: complex(v) for k, v in r.items()}, 'coefficients', got, r)
    ck(all(tuple(sorted(k)) == k for k in p.coeffs), 'sorted terms')
    ck(p.max_num_vars == n, 'max_num_vars')
    deg = max([len(k) for k in p.coeffs], default=0)
    ck(p.get_degree() == deg and deg >= max([len(k) for k in r], default=0), 'degree', p.get_degree(), deg)
    xs = points(n)
    vals = [reval(r, x) for x in xs]
    for x, v in zip(xs, vals): ck(p.evaluate(x) == v, 'evaluate', p.evaluate(x), v)
    txt = str(p)
    ck((txt == '0') == (not norm(r)), 'text of zero', txt, r)
    vt, ct = p.compact(True)
    dec = decode(vt, ct)
    ck(dec is not None and len(dec) == 1 and norm(dec[0]) == norm(r), 'compact form', dec, r)
    isreal = all(complex(c).imag == 0 for c in r.values())
    if isreal:
        vt2, ct2 = p.compact(False)
        ck(ct2.dtype == np.dtype('d') and norm(decode(vt2, ct2)[0]) == norm(r), 'real compact form')
        for x, v in zip(xs, vals):
            ck(fast.bulk_eval_compact_polys(vt2, ct2, x, (1,))[0] == v and slow.bulk_eval_compact_polys(vt2, ct2, x, (1,))[0] == v, 'evaluate real tape')
    ck(ct.dtype == np.dtype(complex), 'complex tape type')
    # several polynomials on one tape: this one, the previous one and an empty one, with doubled order
    both = [(vt, ct, r)] + ([last] if last else []) + [(np.zeros(1, np.int64), np.zeros(0, complex), {})]
    both = both + both[::-1]
    VT = np.concatenate([b[0] for b in both]); CT = np.concatenate([b[1] for b in both]); rs = [b[2] for b in both]
    for x in xs:
        ev = [reval(q, x) for q in rs]
        shp = (2, len(rs) // 2)
        a = fast.bulk_eval_compact_polys_complex(VT, CT, x, shp); b = slow.bulk_eval_compact_polys_complex(VT, CT, x, shp)
        ck(a.shape == shp and list(a.flat) == ev, 'compiled evaluation of a tape', a, ev)
        ck(b.shape == shp and list(b.flat) == ev, 'Python evaluation of a tape', b, ev)
        s = sum(abs(e) for e in ev)
        ck(abs(fast.abs_sum_bulk_eval_compact_polys_complex(VT, CT, x, len(rs)) - s) <= 1e-9 * (1 + s), 'sum of magnitudes (compiled)')
        ck(abs(slow.abs_sum_bulk_eval_compact_polys_complex(VT, CT, x, len(rs)) - s) <= 1e-9 * (1 + s), 'sum of magnitudes (Python)')
    wrts = [[0], [n - 1], sorted({0, n - 1}), list(range(n)) if n < 8 else [0, 1, n - 2, n - 1], []]
    for w in wrts:
        exp = [rderiv(q, v) for q in rs for v in w]
        for nm, impl in (('compiled', fast), ('Python', slow)):
            dv, dc = impl.compact_deriv(VT.copy(), CT.copy(), np.array(w, np.int64))
            d = decode(np.asarray(dv), np.asarray(dc))
            ck(d is not None and [norm(q) for q in d] == exp, 'derivative tape (%s)' % nm, d, exp)
            if w and nm == 'compiled':
                dd = decode(*impl.compact_deriv(np.ascontiguousarray(dv), np.ascontiguousarray(dc), np.array(w, np.int64)))
                ck(dd is not None and [norm(q) for q in dd] == [rderiv(q, v) for q in exp for v in w], 'second derivative tape')
    return (vt, ct, r)


def decode(vt, ct):
    out = []; i = c = 0
    while i < len(vt):
        nt = int(vt[i]); i += 1; q = {}
        for _ in range(nt):
            nv = int(vt[i]); i += 1
            k = tuple(int(v) for v in vt[i:i + nv]); i += nv
            if k != tuple(sorted(k)): return None
            q[k] = q.get(k, 0) + complex(ct[c]); c += 1
        out.append(q)
    return out if (c == len(ct) and i == len(vt)) else None


def depth(tier): return 3 if tier == 'quick' else 4


def shards(tier):
    out = []
    for impl in ('fast', 'slow'):
        for n in (1, 2, 3, 100) if tier == 'quick' else (1, 2, 3, 7, 100, 2000):
            for i in range(8): out.append((impl, n, i, depth(tier)))
    return out


def run(shard, ctx):
    impl, n, i0, D = shard
    import numpy as np
    import pygsti.objects.polynomial as pm
    from pygsti.objects.opcalc import slowopcalc, fastopcalc
    if impl == 'slow':
        from pygsti.objects.replib import slowreplib
        pm.replib = slowreplib
    P = pm.Polynomial; O = (fastopcalc, slowopcalc)
    opl = list(ops(n))
    if impl == 'slow': opl = [o for o in opl if o not in (('pickle',), ('deepcopy',))]   # the fallback class is not picklable storage
    raw = operands(n); seen = set(); last = [None]
    def ref(c):
        r = {}
        for k, v in c.items(): k2 = tuple(sorted(k)); r[k2] = r.get(k2, 0) + v
        return norm(r)
    def go(p, r, d, hist):
        for op in opl:
            h = hist + (op,); ctx.where = repr((impl, n, h))
            store = [(P(c, n), ref(c)) for c in raw]
            before = dict(p.coeffs)
            q, s = apply_op(P, p, r, op, n, store)
            ctx.trans()
            ctx.check(dict(p.coeffs) == before, 'operand changed:%s' % op[0], lambda: 'the operand of %s changed from %r to %r' % (op, before, p.coeffs))
            for (o, orf), c in zip(store, raw): ctx.check(norm(o.coeffs) == {k: complex(v) for k, v in orf.items()}, 'second operand changed:%s' % op[0], 'second operand changed')
            st = (impl, n, tuple(sorted((k, complex(v).real, complex(v).imag) for k, v in s.items())))
            fresh = ctx.new_state(st)
            if sum(len(k) for k in s) > 400 or max([len(k) for k in s], default=0) > 40: continue   # size bound of the exploration
            if fresh or d == D: last[0] = observe(ctx, '%s:%d:%s' % (impl, n, op), q, s, n, O, last[0]); ctx.trace()
            if d > 1 and fresh: go(q, s, d - 1, h)
    p0 = P(raw[i0], n) if raw[i0] else P(None, n)
    observe(ctx, '%s:%d:init' % (impl, n), p0, ref(raw[i0]), n, O, None)
    ctx.sample('%s n=%d start %r' % (impl, n, raw[i0]))
    go(p0, ref(raw[i0]), D, (('start', i0),))
