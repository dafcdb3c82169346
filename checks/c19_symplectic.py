"""C19: Clifford arithmetic in symplectic form.  The reference is the action on Paulis computed with integers: a Clifford is the
list of images of X_0..X_{n-1}, Z_0..Z_{n-1}, each image i^k X^x Z^z; everything is obtained by multiplying Paulis.  The reference
convention itself is tied to unitaries (all 1- and 2-qubit Cliffords)."""
import itertools
LEVEL = 'exploration'
RULE = ("every 1- and 2-qubit Clifford (24; 720 symplectic matrices x 16 phase vectors), every pair of 2-qubit symplectic matrices, "
        "every embedding into 3 qubits, all small mod-2 matrices, all circuits of bounded size and all outcomes of the random draws are "
        "run through the real functions and compared with integer Pauli arithmetic")
ASSUMPTIONS = ["column j of s and entry j of p describe i^p X^(s[:n,j]) Z^(s[n:,j]), the image of the j-th of X_0..,Z_0.. (the convention documented in symplectic.py; confirmed here against unitaries)"]


# ---- reference
def pmul(a, b): return ((a[0] + b[0] + 2 * bin(a[2] & b[1]).count('1')) % 4, a[1] ^ b[1], a[2] ^ b[2])
def gens(n): return [(0, 1 << i, 0) for i in range(n)] + [(0, 0, 1 << i) for i in range(n)]
def act(C, P):
    n = len(C) // 2; r = (P[0], 0, 0)
    for i in range(n):
        if P[1] >> i & 1: r = pmul(r, C[i])
    for i in range(n):
        if P[2] >> i & 1: r = pmul(r, C[n + i])
    return r
def comp(C1, C2): return tuple(act(C2, x) for x in C1)       # first C1, then C2
def ref(s, p):
    n = len(p) // 2
    return tuple((int(p[j]) % 4, sum(int(s[i, j]) << i for i in range(n)), sum(int(s[n + i, j]) << i for i in range(n))) for j in range(2 * n))
def real(C):
    import numpy as np
    n = len(C) // 2; s = np.zeros((2 * n, 2 * n), int); p = np.zeros(2 * n, int)
    for j, (k, x, z) in enumerate(C):
        p[j] = k
        for i in range(n): s[i, j] = x >> i & 1; s[n + i, j] = z >> i & 1
    return s, p
def ok(C):
    """is the map a Clifford: commutation relations kept and images Hermitian"""
    n = len(C) // 2; g = gens(n)
    com = lambda a, b: (bin(a[1] & b[2]).count('1') + bin(a[2] & b[1]).count('1')) % 2
    return all(com(C[i], C[j]) == com(g[i], g[j]) for i in range(2 * n) for j in range(i)) and all((c[0] - bin(c[1] & c[2]).count('1')) % 2 == 0 for c in C)
def embed(C, qs, n):
    m = len(qs); out = gens(n)
    sp = lambda b: sum(1 << qs[i] for i in range(m) if b >> i & 1)
    for i, q in enumerate(qs):
        out[q] = (C[i][0], sp(C[i][1]), sp(C[i][2])); out[n + q] = (C[m + i][0], sp(C[m + i][1]), sp(C[m + i][2]))
    return tuple(out)
def inv(C):
    # search-free: the inverse maps C[j] -> g[j]; solve by powers (finite order)
    D = C
    while True:
        E = comp(D, C)
        if E == tuple(gens(len(C) // 2)): return D
        D = E


def from_unitary(U):
    """tableau of a unitary, by explicit matrices"""
    import numpy as np
    X = np.array([[0, 1], [1, 0]], complex); Z = np.diag([1, -1]).astype(complex); I = np.eye(2)
    d = len(U); n = d.bit_length() - 1
    def mat(P):
        M = np.eye(1)
        for i in range(n): M = np.kron(M, (X if P[1] >> i & 1 else I) @ (Z if P[2] >> i & 1 else I))
        return 1j ** P[0] * M
    out = []
    for g in gens(n):
        V = U @ mat(g) @ U.conj().T
        for x in range(2 ** n):
            for z in range(2 ** n):
                t = np.trace(mat((0, x, z)).conj().T @ V) / d
                if abs(abs(t) - 1) < 1e-6:
                    k = [k for k in range(4) if abs(1j ** k - t) < 1e-6]
                    if k: out.append((k[0], x, z))
        if len(out) == 0 or len(out) < gens(n).index(g) + 1: return None
    return tuple(out)


def group(n):
    """(tableau, unitary) of every n-qubit Clifford up to global phase, n = 1, 2 (phase-free part: symplectic representatives first)"""
    import numpy as np
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2); S = np.diag([1, 1j]); CN = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)
    if n == 1: G = [H, S]
    else: G = [np.kron(H, np.eye(2)), np.kron(np.eye(2), H), np.kron(S, np.eye(2)), np.kron(np.eye(2), S), CN]
    Gt = [from_unitary(U.astype(complex)) for U in G]
    e = tuple(gens(n)); seen = {e: np.eye(2 ** n, dtype=complex)}; todo = [e]
    for C in todo:
        for U, t in zip(G, Gt):
            D = comp(C, t)
            if D not in seen: seen[D] = U @ seen[C]; todo.append(D)
    return seen


_g = {}
def allc(n):
    if n not in _g: _g[n] = group(n)
    return _g[n]
def symps(n):
    """one representative per symplectic matrix, with its 4^n phase variants"""
    d = {}
    for C in allc(n): d.setdefault(tuple(c[1:] for c in C), []).append(C)
    return d


def shards(tier):
    out = [('one',), ('tables',), ('unitary1',), ('kron',), ('mod2', 2), ('mod2', 3), ('valid',), ('draw',), ('relations',), ('convention',)]
    out += [('pairs', i) for i in range(16)] + [('two', i) for i in range(16)] + [('unitary2', i) for i in range(16)]
    out += [('circ', i) for i in range(8)] + [('index', n, i) for n, m in ((1, 1), (2, 2), (3, 8)) for i in range(m)] + [('albert', i) for i in range(4)] + [('three', i) for i in range(8)]
    if tier != 'quick': out += [('mod2', 4)] + [('index3all', i) for i in range(48)]
    return out


def run(shard, ctx):
    globals()[shard[0]](ctx, *shard[1:])


def same(ctx, key, got, want, what):
    """got: (s,p) from the implementation; want: tableau"""
    import numpy as np
    s, p = np.asarray(got[0]), np.asarray(got[1])
    good = set(np.unique(s)) <= {0, 1} and np.all((p >= 0) & (p < 4)) and ref(s, p) == tuple(want)
    ctx.check(bool(good), key, lambda: '%s: got %r (p=%r), expected %r' % (what, ref(s, p), list(p), want)); ctx.trans()


def binary(ctx, A, B):
    from pygsti.tools import symplectic as sy
    (s1, p1), (s2, p2) = real(A), real(B)
    c = [x.copy() for x in (s1, p1, s2, p2)]
    same(ctx, 'compose', sy.compose_cliffords(s1, p1, s2, p2), comp(A, B), '%r then %r' % (A, B))
    return all((x == y).all() for x, y in zip(c, (s1, p1, s2, p2)))


def unary(ctx, A):
    from pygsti.tools import symplectic as sy
    import numpy as np
    s, p = real(A); c = s.copy(), p.copy(); n = len(p) // 2
    ctx.check(bool(sy.check_valid_clifford(s, p)) and bool(sy.check_symplectic(s)), 'valid', lambda: '%r is a Clifford' % (A,))
    same(ctx, 'inverse', sy.inverse_clifford(s, p), inv(A), 'inverse of %r' % (A,))
    ctx.check(np.array_equal(sy.inverse_symplectic(s), real(inv(A))[0]), 'inverse_symplectic', lambda: '%r' % (A,))
    ctx.check((s == c[0]).all() and (p == c[1]).all(), 'argument changed', lambda: '%r' % (A,))
    # which Pauli turns this into another Clifford with the same symplectic matrix
    P = {'I': ((0, 1, 0), (0, 0, 1)), 'X': ((0, 1, 0), (2, 0, 1)), 'Y': ((2, 1, 0), (2, 0, 1)), 'Z': ((2, 1, 0), (0, 0, 1))}
    for flips in itertools.product((0, 2), repeat=2 * n):
        pt = (p + np.array(flips)) % 4; T = ref(s, pt)
        for f, order in ((sy.find_postmultipled_pauli, 1), (sy.find_premultipled_pauli, 0)):
            for ql in (None, ['q%d' % i for i in range(n)]):
                L = f(s, p, pt, ql) if ql else f(s, p, pt)
                lab = ql or list(range(n))
                good = [x[1] for x in L] == lab
                D = tuple(gens(n))
                for i, (nm, _) in enumerate(L): D = comp(D, embed(P[nm], [i], n))
                good = good and (comp(A, D) if order else comp(D, A)) == T
                ctx.check(good, f.__name__, lambda: '%s of %r with target phases %r: %r' % (f.__name__, A, list(pt), L)); ctx.trans()


def one(ctx):
    C = list(allc(1)); ctx.check(len(C) == 24, 'count', 'number of 1-qubit Cliffords')
    for A in C:
        ctx.new_state(('1', A)); unary(ctx, A); ctx.trace()
        for B in C: ctx.check(binary(ctx, A, B), 'argument changed', lambda: repr((A, B)))
        for n in (2, 3):
            for q in range(n): emb(ctx, A, [q], n)


def emb(ctx, A, qs, n):
    from pygsti.tools import symplectic as sy
    same(ctx, 'embed', sy.embed_clifford(*real(A), qubit_inds=list(qs), n=n), embed(A, qs, n), '%r on %r of %d' % (A, qs, n))


def two(ctx, part):
    for k, A in enumerate(sorted(allc(2))):
        if k % 16 != part: continue
        if ctx.tier == 'quick' and A[0][0] % 4 > 1: continue    # thorough: all 11520; quick: the half with unflipped image of X_0
        ctx.new_state(('2', A)); ctx.where = repr(A)
        unary(ctx, A); ctx.trace()
        for qs in itertools.permutations(range(3), 2): emb(ctx, A, qs, 3)
        emb(ctx, A, (1, 0), 2)


def pairs(ctx, part):
    R = sorted(symps(2).items())
    for i, (_, As) in enumerate(R):
        if i % 16 != part: continue
        for j, (_, Bs) in enumerate(R):
            if ctx.tier == 'quick' and (i + j) % 3: continue
            A, B = As[(i * 7 + j) % 16], Bs[(i + 3 * j) % 16]
            binary(ctx, A, B)
        ctx.trace(); ctx.new_state(('row', i))


def three(ctx, part):
    """3-qubit Cliffords: everything reached by two (three) embedded gates, composed pairwise"""
    c1 = [('H', from_tab('H'))]
    G = [embed(from_tab(nm), list(qs), 3) for nm, m in (('H', 1), ('P', 1), ('CNOT', 2), ('CPHASE', 2), ('HP', 1), ('SWAP', 2)) for qs in itertools.permutations(range(3), m)]
    seen = [tuple(gens(3))]; st = set(seen)
    lay = seen
    for d in range(2):
        nxt = []
        for C in lay:
            for g in G:
                D = comp(C, g)
                if D not in st: st.add(D); nxt.append(D)
        lay = nxt; seen = seen + nxt
    from pygsti.tools import symplectic as sy
    for k, A in enumerate(seen):
        if k % 8 != part: continue
        ctx.new_state(('3', A)); s, p = real(A); ctx.trace()
        same(ctx, 'inverse', sy.inverse_clifford(s, p), inv(A), 'inverse of %r' % (A,))
        for B in seen[::1 if ctx.tier != 'quick' else 13]: binary(ctx, A, B)


def from_tab(nm):
    from pygsti.tools import symplectic as sy
    return ref(*sy.get_internal_gate_symplectic_representations()[nm])


def tables(ctx):
    from pygsti.tools import symplectic as sy, internalgates as itg
    import numpy as np
    R = sy.get_internal_gate_symplectic_representations(); U = itg.get_internal_gate_unitaries()
    ctx.check(set(R) == set(U), 'tables:names', lambda: 'names differ %r' % (set(R) ^ set(U)))
    for nm in R:
        same(ctx, 'tables:' + nm, R[nm], from_unitary(np.asarray(U[nm], complex)), nm); ctx.new_state(nm); ctx.trace()
    sub = sy.get_internal_gate_symplectic_representations(['H', 'CNOT']); ctx.check(set(sub) == {'H', 'CNOT'}, 'tables:selection', 'selection of names')
    std = itg.get_standard_gatename_unitaries()
    for nm in std:
        u = np.asarray(std[nm], complex); t = from_unitary(u); ctx.trans()
        if t is None or not ok(t):
            ctx.check(not sy.unitary_is_a_clifford(u), 'tables:nonclifford', lambda: '%s is no Clifford' % nm)
            s, p = sy.unitary_to_symplectic(u, flagnonclifford=False); ctx.check(s is None and p is None, 'tables:nonclifford', nm)
            try: sy.unitary_to_symplectic(u); r = False
            except ValueError: r = True
            ctx.check(r, 'tables:nonclifford refused', nm)
        else:
            ctx.check(sy.unitary_is_a_clifford(u), 'tables:clifford', lambda: '%s is a Clifford' % nm)
            same(ctx, 'tables:std:' + nm, sy.unitary_to_symplectic(u), t, nm)
    pau = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    for a in std:
        for b in U:
            A, B = np.asarray(std[a], complex), np.asarray(U[b], complex)
            eq = A.shape == B.shape and abs(abs(np.trace(A.conj().T @ B)) - len(A)) < 1e-7
            ctx.check(bool(itg.is_gate_this_standard_unitary(A, b)) == eq, 'tables:is', lambda: '%s is %s' % (a, b)); ctx.trans()
            if b not in R or not sy.unitary_is_a_clifford(A): continue
            ps = pau if len(B) == 2 else [np.kron(x, y) for x in pau for y in pau]
            eq = A.shape == B.shape and any(abs(abs(np.trace(A.conj().T @ P @ B)) - len(A)) < 1e-7 for P in ps)
            ctx.check(bool(itg.is_gate_pauli_equivalent_to_this_standard_unitary(A, b)) == eq, 'tables:pauli eq', lambda: '%s is %s up to Paulis' % (a, b)); ctx.trans()


def relations(ctx):
    from pygsti.tools import symplectic as sy
    rel = sy.oneQclifford_symplectic_group_relations(); nm = ['I', 'H', 'P', 'HP', 'PH', 'HPH']
    T = {x: real(from_tab(x))[0] for x in nm}
    ctx.check(set(rel) == set(itertools.product(nm, nm)), 'relations:keys', 'missing pairs')
    for (a, b), c in rel.items():
        D = real(comp(from_tab(a), from_tab(b)))[0]
        ctx.check((D == T[c]).all(), 'relations', lambda: '%s then %s is not %s' % (a, b, c)); ctx.trans(); ctx.new_state((a, b)); ctx.trace()
    import numpy as np
    for bits in itertools.product((0, 2), repeat=6):
        p = np.array(bits); c = p.copy()
        ctx.check(sy.bitstring_for_pauli(p) == [1 if b else 0 for b in bits[3:]], 'bitstring_for_pauli', lambda: repr(bits))
        ctx.check((p == c).all(), 'bitstring_for_pauli changes its argument', lambda: repr(bits))


def unitary1(ctx):
    from pygsti.tools import symplectic as sy
    import numpy as np
    for C, U in allc(1).items():
        for ph in (1, 1j, np.exp(.3j)):
            same(ctx, 'unitary1', sy.unitary_to_symplectic(ph * U), C, 'unitary %r' % (U,)); ctx.trace()
        V = U @ np.diag([1, np.exp(.7j)])
        ctx.check(not sy.unitary_is_a_clifford(V), 'unitary1:non', 'non-Clifford accepted')
        V = U @ np.diag([1, np.exp(.25j * np.pi)])
        ctx.check(not sy.unitary_is_a_clifford(V), 'unitary1:non', 'non-Clifford accepted')


def unitary2(ctx, part):
    from pygsti.tools import symplectic as sy
    G = allc(2); R = sorted(symps(2).items())
    for i, (_, Cs) in enumerate(R):
        if i % 16 != part: continue
        for C in (sorted(Cs) if ctx.tier != 'quick' else [sorted(Cs)[i // 16 % 16]]):
            same(ctx, 'unitary2', sy.unitary_to_symplectic(G[C] * 1j ** (i % 4)), C, 'unitary of %r' % (C,)); ctx.trace(); ctx.new_state(('u2', C))


def kron(ctx):
    from pygsti.tools import symplectic as sy
    C = sorted(allc(1)); T = sorted(allc(2))[::239 if ctx.tier == 'quick' else 23]
    for A in C:
        for B in C:
            same(ctx, 'kron', sy.symplectic_kronecker([real(A), real(B)]), comp(embed(A, [0], 2), embed(B, [1], 2)), '%r x %r' % (A, B))
        for D in T:
            same(ctx, 'kron', sy.symplectic_kronecker([real(A), real(D)]), comp(embed(A, [0], 3), embed(D, [1, 2], 3)), '1x2')
            same(ctx, 'kron', sy.symplectic_kronecker([real(D), real(A)]), comp(embed(A, [2], 3), embed(D, [0, 1], 3)), '2x1')
        ctx.new_state(A); ctx.trace()
    for A, B, D in itertools.product(C[::5], repeat=3):
        same(ctx, 'kron', sy.symplectic_kronecker([real(A), real(B), real(D)]), comp(comp(embed(A, [0], 3), embed(B, [1], 3)), embed(D, [2], 3)), '1x1x1')


def valid(ctx):
    """exactly the valid matrices and phase vectors are accepted"""
    from pygsti.tools import symplectic as sy
    import numpy as np
    S1 = {k: v for k, v in symps(1).items()}
    S2 = set(symps(2))
    for bits in itertools.product((0, 1), repeat=16):
        m = np.array(bits).reshape(4, 4)
        key = tuple((int(m[0, j] + 2 * m[1, j]), int(m[2, j] + 2 * m[3, j])) for j in range(4))
        ctx.check(bool(sy.check_symplectic(m)) == (key in S2), 'check_symplectic', lambda: repr(m)); ctx.trans()
    for bits in itertools.product((0, 1), repeat=4):
        m = np.array(bits).reshape(2, 2); ctx.new_state(bits); ctx.trace()
        for p in itertools.product(range(4), repeat=2):
            try: got = bool(sy.check_valid_clifford(m, np.array(p)))
            except AssertionError: got = False
            ctx.check(got == ok(ref(m, p)), 'check_valid_clifford', lambda: '%r %r' % (m, p)); ctx.trans()
    for n in (1, 2):
        for Cs in symps(n).values():
            s, p0 = real(Cs[0]); legal = set(tuple(c[0] for c in C) for C in Cs)
            for seed in itertools.product(range(4), repeat=2 * n):
                if n == 2 and ctx.tier == 'quick' and sum(seed) % 3: continue
                sd = np.array(seed); q = sy.construct_valid_phase_vector(s, sd); ctx.trans()
                ctx.check(tuple(q) in legal, 'construct_valid_phase_vector', lambda: '%r for %r is invalid' % (q, Cs[0]))
                if seed in legal: ctx.check(tuple(q) == seed, 'construct_valid_phase_vector:kept', lambda: '%r for %r' % (q, seed))
                ctx.check(tuple(sd) == seed, 'argument changed', 'construct_valid_phase_vector')
            # gates applied to rows (after) / columns (before) of a symplectic matrix
            for nm, m in (('H', 1), ('P', 1), ('CNOT', 2), ('SWAP', 2)):
                for qs in itertools.permutations(range(n), m):
                    g = embed(from_tab(nm), list(qs), n)
                    for opt in ('row', 'column'):
                        w = real(comp(Cs[0], g) if opt == 'row' else comp(g, Cs[0]))[0]
                        t = s.copy(); sy.apply_internal_gate_to_symplectic(t, nm, list(qs), opt); ctx.trans()
                        ctx.check((t == w).all(), 'apply_internal_gate', lambda: '%s on %r by %s: %r' % (nm, qs, opt, Cs[0]))


def convention(ctx):
    from pygsti.tools import symplectic as sy
    import numpy as np
    for n in (1, 2, 3, 4):
        om = {}
        for conv in ('standard', 'directsum'):
            w = np.zeros((2 * n, 2 * n), int)
            for i in range(n):
                a, b = (i, n + i) if conv == 'standard' else (2 * i, 2 * i + 1)
                w[a, b] = w[b, a] = 1
            ctx.check((np.asarray(sy.symplectic_form(n, conv)) % 2 == w).all(), 'form', lambda: '%s %d' % (conv, n))
        M = np.arange(4 * n * n).reshape(2 * n, 2 * n)
        perm = [2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]      # standard index -> directsum index
        a = sy.change_symplectic_form_convention(M, 'standard')
        ctx.check((np.asarray(a) == M[np.ix_(perm, perm)]).all() or n == 1, 'convention', lambda: '%r' % a)
        b = sy.change_symplectic_form_convention(a, 'directsum')
        ctx.check((np.asarray(b) == M).all(), 'convention:round trip', lambda: '%r' % b); ctx.new_state(n); ctx.trace(); ctx.trans()
    for v in itertools.product((0, 1), repeat=4):
        for w in itertools.product((0, 1), repeat=4):
            ctx.check(int(sy.symplectic_innerproduct(np.array(v, 'int8'), np.array(w, 'int8'))) == (v[0] * w[1] + v[1] * w[0] + v[2] * w[3] + v[3] * w[2]) % 2, 'innerproduct', lambda: repr((v, w)))
            if any(v) and any(w):
                t = sy.find_symplectic_transvection(np.array(v, 'int8'), np.array(w, 'int8'))
                x = sy.symplectic_transvection(t[1], sy.symplectic_transvection(t[0], np.array(v, 'int8')))
                ctx.check(tuple(x) == w, 'transvection', lambda: '%r to %r: %r' % (v, w, x)); ctx.trans()
    for n in (1, 2, 3, 8):
        for i in {0, 1, 2 ** n - 1, 2 ** (n - 1), 5 % 2 ** n}:
            b = sy.int_to_bitstring(i, n); ctx.check(sum(int(x) << k for k, x in enumerate(b)) == i and sy.bitstring_to_int(b, n) == i, 'bitstring', lambda: repr((i, n)))
    for n, c in ((1, 6), (2, 720), (3, 1451520), (4, 47377612800)):
        ctx.check(sy.numberofsymplectic(n) == c and sy.numberofcliffords(n) == c * 4 ** n, 'number', n)


def index(ctx, n, part):
    """the numbering of symplectic matrices is a bijection"""
    from pygsti.tools import symplectic as sy
    import numpy as np
    if n < 3: it = list(range({1: 6, 2: 720}[n]))
    else: it = [k + 63 * b + 63 * 32 * r for k in range(63) for b in range(32) for r in (0, 1, 361, 719)]   # every first pair of rows
    seen = set()
    for c, i in enumerate(it):
        if n == 3 and c % 8 != part or n == 2 and c % 2 != part: continue
        numbering(ctx, i, n, seen)
    if n == 1 or n == 3: ctx.check(len(seen) == sum(1 for c in range(len(it)) if n != 3 or c % 8 == part), 'index:distinct', 'repeated matrices')
    else: ctx.check(len(seen) == 360, 'index:distinct', 'repeated matrices')


def numbering(ctx, i, n, seen):
    from pygsti.tools import symplectic as sy
    import numpy as np
    m = sy.get_symplectic_matrix(i, n); ctx.trans(); ctx.trace()
    w = np.zeros((2 * n, 2 * n), int)
    for a in range(n): w[2 * a, 2 * a + 1] = w[2 * a + 1, 2 * a] = 1
    M = m.astype(int)
    ctx.check(set(np.unique(M)) <= {0, 1} and ((M @ w @ M.T) % 2 == w).all(), 'index:symplectic', lambda: 'matrix %d of %d qubits' % (i, n))
    lab = sy.get_symplectic_label(m, n)
    ctx.check(int(lab) == i, 'index:label', lambda: 'matrix %d of %d qubits is numbered %r' % (i, n, lab))
    seen.add(M.tobytes()); ctx.new_state((n, i))


def index3all(ctx, part):
    N = 1451520; seen = set(); a, b = N * part // 48, N * (part + 1) // 48
    for i in range(a, b): numbering(ctx, i, 3, seen)
    ctx.check(len(seen) == b - a, 'index:distinct', 'repeated matrices')


class Draw(object):
    """stand-in for numpy.random.randint handing out chosen values"""
    def __init__(s, vals): s.vals = list(vals); s.asked = []
    def __call__(s, low, high=None, size=None, dtype=None):
        import numpy as np
        if high is None: low, high = 0, low
        s.asked.append((low, high, size))
        if size is None: return low + s.vals.pop(0) if s.vals[0] < high - low else 1 // 0
        k = int(np.prod(size)); v = [low + s.vals.pop(0) for _ in range(k)]
        return np.array(v).reshape(size)


def draw(ctx):
    from pygsti.tools import symplectic as sy
    import numpy as np
    old = np.random.randint
    try:
        for n in (1, 2):
            got = {}
            for i in range({1: 6, 2: 720}[n]):
                for bits in itertools.product((0, 1), repeat=2 * n):
                    np.random.randint = D = Draw((i,) + bits)
                    s, p = sy.random_clifford(n); ctx.trans()
                    ctx.check(not D.vals, 'draw:used', 'not all random bits were used')
                    C = ref(s, p); ctx.check(ok(C), 'draw:valid', lambda: '%r drawn by %r' % (C, (i, bits))); got[C] = got.get(C, 0) + 1
            ctx.check(len(got) == {1: 24, 2: 11520}[n] and set(got.values()) == {1}, 'draw:uniform', lambda: '%d-qubit draws cover %d Cliffords' % (n, len(got))); ctx.trace(); ctx.new_state(n)
        # large groups: the index is composed of decimal chunks
        for n in (6, 7, 8):
            card = sy.numberofsymplectic(n); d1, d2 = len(str(card)), 18
            k = d1 // d2; m = d1 - k * d2
            cs = str(card - 1); chunks = [int(cs[:m] or 0)] + [int(cs[m + d2 * j:m + d2 * (j + 1)]) for j in range(k)]
            tries = {'last': chunks, 'zero': [0] * (k + 1), 'one': [0] * k + [1], 'mid': [0] + [123] * k, 'top': [chunks[0]] + [0] * k}
            for nm, (hi, *lo) in tries.items():
                np.random.randint = D = Draw(lo + [hi] + [0] * (k + 1))
                idx = sy.random_symplectic_index(n); ctx.trans()
                ctx.check(int(idx) == int(str(hi) + ''.join('%018d' % x for x in lo)), 'draw:index', lambda: '%s of %d qubits: %r' % (nm, n, idx))
                ctx.check(sorted(set(h for _, h, _ in D.asked)) == sorted({10 ** 18, 10 ** m}), 'draw:ranges', lambda: repr(D.asked))
            over = [int(str(card)[:m] or 0)] + [int(str(card)[m + d2 * j:m + d2 * (j + 1)]) for j in range(k)]
            np.random.randint = D = Draw(over[1:] + over[:1] + [7] * k + [0])
            idx = sy.random_symplectic_index(n); ctx.check(int(idx) == int(''.join('%018d' % 7 for _ in range(k))), 'draw:rejected', lambda: '%r' % idx)
    finally: np.random.randint = old


def mod2(ctx, n):
    from pygsti.tools import matrixmod2 as mm
    import numpy as np
    for bits in itertools.product((0, 1), repeat=n * n):
        M = np.array(bits).reshape(n, n); c = M.copy()
        rows = [int(''.join(map(str, r)), 2) for r in M]
        span = {0}
        for r in rows: span |= {x ^ r for x in span}
        full = len(span) == 2 ** n
        ctx.check(int(mm.detmod2(M)) == full, 'detmod2', lambda: repr(M)); ctx.trans()
        ctx.new_state(bits); ctx.trace()
        if full:
            I = mm.inv_mod2(M)
            ctx.check(I.shape == (n, n) and ((M @ I) % 2 == np.eye(n)).all() and ((I @ M) % 2 == np.eye(n)).all(), 'inv_mod2', lambda: '%r -> %r' % (M, I))
            for b in itertools.product((0, 1), repeat=n):
                x = mm.Axb_mod2(M, np.array(b)); ctx.trans()
                ctx.check(((M @ x).ravel() % 2 == b).all(), 'Axb_mod2', lambda: '%r x = %r: %r' % (M, b, x))
        ctx.check((M == c).all(), 'argument changed', lambda: repr(M))
        ctx.check((np.asarray(mm.dotmod2(M, M.T)) == (M @ M.T) % 2).all() and (np.asarray(mm.multidotmod2([M, M.T, M])) == (M @ M.T @ M) % 2).all(), 'dotmod2', lambda: repr(M))
        K = M * 2 + np.arange(n * n).reshape(n, n); c = K.copy()
        ctx.check((mm.strictly_upper_triangle(K) == np.triu(K, 1)).all() and (mm.diagonal_as_matrix(K) == np.diag(np.diag(K))).all() and (mm.diagonal_as_vec(K) == np.diag(K)).all() and (K == c).all(), 'triangle', lambda: repr(K))
        if n == 2:
            D = mm.matrix_directsum(M, np.eye(3, dtype=int)); ctx.check((D == np.block([[M, np.zeros((2, 3))], [np.zeros((3, 2)), np.eye(3)]])).all(), 'directsum', lambda: repr(D))


def albert(ctx, part):
    """factoring symmetric invertible matrices, for every such matrix of size up to 4"""
    from pygsti.tools import matrixmod2 as mm
    import numpy as np
    k = 0
    for n in (2, 3, 4):
        iu = [(i, j) for i in range(n) for j in range(i, n)]
        for bits in itertools.product((0, 1), repeat=len(iu)):
            M = np.zeros((n, n), int)
            for (i, j), b in zip(iu, bits): M[i, j] = M[j, i] = b
            if int(round(np.linalg.det(M))) % 2 == 0 or not np.diag(M).any(): continue
            k += 1
            if k % 4 != part: continue
            for seed in range(2 if ctx.tier == 'quick' else 8):
                np.random.seed(seed); ctx.where = repr((M, seed)); ctx.trans()
                L = np.asarray(mm.albert_factor(M)); ctx.trace()
                ctx.check(((L @ L.T) % 2 == M).all(), 'albert_factor', lambda: '%r -> %r' % (M, L))
            ctx.new_state(bits)
    for n in (1, 2, 3):
        for seed in range(20):
            np.random.seed(seed)
            M = mm.random_invertable_matrix(n); ctx.check(int(round(np.linalg.det(M))) % 2 == 1, 'random_invertable_matrix', lambda: repr(M))
            M = mm.random_symmetric_invertable_matrix(n); ctx.check((M == M.T).all() and int(round(np.linalg.det(M))) % 2 == 1, 'random_symmetric_invertable_matrix', lambda: repr(M))


def circ(ctx, part):
    """circuits and layers of named gates"""
    from pygsti.tools import symplectic as sy
    from pygsti.objects import Circuit, Label
    import numpy as np
    names1 = ['H', 'P', 'X', 'C5', 'Gmine', 'I']
    mine = {'Gmine': real(from_tab('HPH')), 'Gtwo': real(comp(from_tab('CNOT'), embed(from_tab('P'), [1], 2))), 'Gall': real(comp(from_tab('SWAP'), embed(from_tab('H'), [0], 2)))}
    tab = lambda nm: ref(*mine[nm]) if nm in mine else from_tab(nm)
    for lines in ((0, 1), ('a', 'b', 'c'), (2, 0, 1)):
        n = len(lines)
        single = [[(nm, (q,))] for nm in names1 for q in lines] + [[(nm, qs)] for nm in ('CNOT', 'CPHASE', 'Gtwo') for qs in itertools.permutations(lines, 2)]
        layers = [[]] + single + [a + b for a in single for b in single if not set(a[0][1]) & set(b[0][1])]
        def R(l):
            C = tuple(gens(n))
            for nm, qs in l: C = comp(C, embed(tab(nm), [lines.index(q) for q in qs], n))
            return C
        for k, l in enumerate(layers):
            if k % 8 != part: continue
            lab = Label([Label(nm, qs) for nm, qs in l]) if len(l) != 1 else Label(l[0][0], l[0][1])
            w = R(l)
            for args in ((n, lines), (None, lines)) + (((n, None),) if lines == (0, 1) else ()):
                same(ctx, 'layer', sy.symplectic_rep_of_clifford_layer(lab, *args, srep_dict=mine), w, 'layer %s on %r' % (lab, lines))
            ctx.new_state((lines, k)); ctx.trace()
            for l2 in single[::3]:
                c = Circuit([lab, Label(*l2[0])], line_labels=lines)
                same(ctx, 'circuit', sy.symplectic_rep_of_clifford_circuit(c, srep_dict=mine), comp(w, R(l2)), 'circuit %s' % c.str)
        if part == 0:
            if n == 2: same(ctx, 'layer', sy.symplectic_rep_of_clifford_layer(Label('Gall'), 2, lines, srep_dict=mine), tab('Gall'), 'gate on all lines')
            same(ctx, 'circuit', sy.symplectic_rep_of_clifford_circuit(Circuit([], line_labels=lines), srep_dict=mine), gens(n), 'empty circuit')
            sub = Circuit([Label('H', lines[0]), Label('CNOT', lines[:2])], line_labels=lines)
            c = Circuit([Label('P', lines[1]), Label(tuple([Label('P', lines[0]), Label('H', lines[1])]))], line_labels=lines)
            w = comp(R([('P', (lines[1],))]), R([('P', (lines[0],)), ('H', (lines[1],))]))
            same(ctx, 'circuit', sy.symplectic_rep_of_clifford_circuit(c, srep_dict=mine), w, c.str)
    if part == 0:
        from pygsti.objects.processorspec import ProcessorSpec
        ps = ProcessorSpec(3, ['Gh', 'Gp', 'Gcnot', 'Gxpi'], availability={'Gcnot': [(0, 1), (1, 2)]}, construct_models=('target', 'clifford'), construct_clifford_compilations={})
        m = {'Gh': 'H', 'Gp': 'P', 'Gcnot': 'CNOT', 'Gxpi': 'X'}
        for l in itertools.product([('Gh', (0,)), ('Gp', (2,)), ('Gcnot', (0, 1)), ('Gcnot', (1, 2)), ('Gxpi', (1,))], repeat=3):
            C = tuple(gens(3))
            for nm, qs in l: C = comp(C, embed(from_tab(m[nm]), list(qs), 3))
            c = Circuit([Label(nm, qs) for nm, qs in l], line_labels=(0, 1, 2))
            same(ctx, 'circuit:pspec', sy.symplectic_rep_of_clifford_circuit(c, pspec=ps), C, c.str)
