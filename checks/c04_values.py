"""C04: frozen circuits as values.  All circuits over small alphabets, every non-mutating operation, compared with the
algebra of layer sequences; every operand is snapshotted before and compared after."""
import itertools, copy, pickle
from checks.c01_labels import build, content, observe, time_of
from checks.c03_editing import G, Ref, read, lab, lkey, ctime, from_obs, xp
LEVEL = 'exploration'
RULE = ("every circuit of length <= 3 (4 in thorough) over four alphabets of layers (plain names; one line; two lines with "
        "parallel, two-line, argument-carrying, timed, global and idle layers; sub-circuit layers), every pair within an "
        "alphabet for the binary operations, every index/slice/repetition count/period parameter for the others; a case is "
        "non-trivial when it is a distinct (operation, operands)")
ASSUMPTIONS = ["order of labels within a layer is not significant where an operation reorders gates"]

SUB = ('c', '', (G('Gx', 0), ('l', (G('Gy', 0), G('Gx', 1)), (), None)), (0, 1), 2, None)
ALPH = {
    'plain': (('*',), [[G('Gx')], [G('Gy')], [], [G('Gz', args=('0.5',))]]),
    'one': ((0,), [[G('Gx', 0)], [G('Gy', 0)], [], [G('Gi')], [G('Gx', 0, args=('2', 'a'))]]),
    'two': ((0, 1), [[G('Gx', 0)], [G('Gx', 1)], [], [G('Gx', 0), G('Gy', 1)], [G('Gc', 0, 1)], [G('Gc', 1, 0)], [G('Gi')], [G('Gx', 1, t=1.5)], [G('Gr', 0, args=('3',)), G('Gx', 1)]]),
    'three': (('Qb', 'Qa', 'Qc'), [[G('Gx', 'Qa')], [G('Gc', 'Qa', 'Qb')], [G('Gc', 'Qb', 'Qc'), G('Gx', 'Qa')], [G('Gx', 'Qc')], [G('Gi')], [G('Gt', 'Qc', 'Qb', 'Qa')]]),
    'sub': ((0, 1), [[G('Gx', 0)], [SUB], [('c', '', (G('Gz', 0),), (0,), 3, None), G('Gx', 1)], [('c', 'N', (G('Gc', 0, 1), SUB), (0, 1), 1, None)]]),
}
NLEN = {'quick': {'plain': 3, 'one': 3, 'two': 2, 'three': 2, 'sub': 2}, 'thorough': {'plain': 4, 'one': 4, 'two': 3, 'three': 3, 'sub': 3}}


def words(nm, tier):
    lines, al = ALPH[nm]
    for n in range(NLEN[tier][nm] + 1):
        for w in itertools.product(range(len(al)), repeat=n): yield w


def mk(nm, w, editable=False):
    from pygsti.objects import Circuit
    lines, al = ALPH[nm]
    return Circuit([lab(al[i]) for i in w], lines, editable=editable, expand_subcircuits=False)


def snap(c):
    if not c._static: return ('E', tuple(map(tuple, (sorted(map(lkey, l)) for l in read(c).layers))), c.line_labels)
    return (hash(c), c.tup, c.str, len(c), c.line_labels, repr(c), tuple(sorted(map(lkey, l)) for l in map(list, read(c).layers)).__repr__(), c._static)


def flat(c):
    """expanded layers with times/arguments, order within a layer ignored"""
    r = read(c); r.expand_subcircuits()
    return [sorted(map(lkey, l)) for l in r.layers]


def rflat(layers, lines):
    r = Ref(layers, lines); r.expand_subcircuits()
    return [sorted(map(lkey, l)) for l in r.layers]


def perline(layers, lines):
    r = Ref(layers, lines); r.expand_subcircuits()
    out = {q: [] for q in lines}
    for lay in r.layers:
        for l in lay:
            for q in r.on(l): out[q].append(lkey(l))
    return out, r


def shards(tier):
    out = []
    for nm in ALPH:
        al = range(len(ALPH[nm][1]))
        out.append((nm, 'short', None))
        for a in al:
            for b in al: out.append((nm, 'w', (a, b)))
    return out


def run(shard, ctx):
    from pygsti.objects import Circuit
    from pygsti.objects.circuit import CompressedCircuit
    from pygsti.objects.label import Label
    nm, kind, pre = shard
    lines, al = ALPH[nm]
    allw = list(words(nm, ctx.tier))
    mine = [w for w in allw if (len(w) < 2 if kind == 'short' else (len(w) >= 2 and w[:2] == pre))]
    maxn = NLEN[ctx.tier][nm]

    def show(w): return '%s:%s' % (nm, '.'.join(str(lab(al[i])) or '[]' for i in w) or '{}')

    def L(w): return [al[i] for i in w]

    def same(got, layers, ln, what, exact=False, times=True):
        """got is a circuit standing for `layers` on lines ln"""
        g = read(got)
        if not times: got = notime(got); layers = notime_layers(layers)
        ok = flat(got) == rflat(layers, ln) and tuple(got.line_labels) == tuple(ln)
        if exact: ok = ok and [sorted(map(lkey, l)) for l in g.layers] == [sorted(map(lkey, l)) for l in layers] and len(got) == len(layers)
        ctx.check(ok, what, lambda: '%s gives %s, i.e. %r on %r; expected %r on %r' % (what, got.str, g.layers, got.line_labels, layers, ln))
        # its text reads back as itself (where it has one)
        return ok

    def guarded(f, what, *ops):
        b = [snap(o) for o in ops]
        ctx.where = what; ctx.ev(what)
        x = f()
        a = [snap(o) for o in ops]
        ctx.check(a == b, 'mutated:' + what, lambda: '%s changed its operand: %r -> %r' % (what, b, a))
        return x

    for w in mine:
        c = mk(nm, w); s = show(w); lay = L(w); n = len(w)
        ctx.where = s
        c2 = mk(nm, w); e = mk(nm, w, True)
        hash(c)
        ctx.check(c == c2 and hash(c) == hash(c2) and not (c != c2) and not (c < c2) and not (c > c2) and c.str == c2.str and c.tup == c2.tup and {c: 1}.get(c2) == 1,
                  'equal:' + s, lambda: '%s: two circuits of the same layers do not compare alike: ==%s hash %s <%s >%s' % (s, c == c2, hash(c) == hash(c2), c < c2, c > c2))
        same(c, lay, lines, 'build ' + s, True)
        ctx.check(e == c and c == e, 'equal-e:' + s, '%s: editable and frozen forms differ' % s)
        ctx.sample('%s and all operations on it' % s)
        # -- copies
        for cn, f in (('copy()', lambda c: c.copy()), ('copy(editable)', lambda c: c.copy(True)), ('copy(static)', lambda c: c.copy(False)), ('copy.copy', copy.copy),
                      ('deepcopy', copy.deepcopy), ('pickle', lambda c: pickle.loads(pickle.dumps(c))), ('pickle2', lambda c: pickle.loads(pickle.dumps(c, 2))), ('fromtup', lambda c: Circuit.fromtup(c.tup) if nm != 'sub' else c)):
            for o in (c, e):
                x = guarded(lambda: f(o), '%s %s%s' % (cn, s, '' if o is c else ' (editable)'), o)
                same(x, lay, lines, '%s %s' % (cn, s), True)
                ctx.check(x == c and x.str == c.str, 'copyeq:%s %s' % (cn, s), lambda: '%s of %s: %s' % (cn, s, x.str))
                x = x.copy(False)
                ctx.check(hash(x) == hash(c), 'copyhash:%s %s' % (cn, s), '%s of %s hashes differently' % (cn, s))
        # editing an editable copy leaves the original alone
        def edit(o):
            x = o.copy(True); x.insert_layer([], 0); x.clear_labels(); x.append_idling_lines(['zz']); x.map_names_inplace({'Gx': 'Gq'}); x.delete_layers(); return x
        guarded(lambda: edit(c), 'edit copy of ' + s, c)
        guarded(lambda: edit(e), 'edit copy of editable ' + s, e)
        # -- queries leave it alone
        def queries(o):
            o.num_layers(), len(o), o.depth(), o.size(), o.width(), o.str, repr(o), list(o), o.tup, o.layertup, o.name, o.number_of_lines(), o.get_idling_lines(), o == o, o < o, str(o), o.get_labels(), o.as_label(), o.as_label(2), Label('Gx') in o
            return bool(o != c)
        for o in (c, e): guarded(lambda: queries(o), 'queries ' + s, o)
        # -- indexing, slicing
        for o, t in ((c, ''), (e, ' editable')):
            for i in range(-n, n):
                x = guarded(lambda: o[i], '%s%s[%d]' % (s, t, i), o)
                ob = from_obs(*observe(x)); got = list(ob[1]) if ob[0] == 'l' else [ob]
                ctx.check(sorted(map(lkey, got)) == sorted(map(lkey, lay[i])), 'item:%s%s[%d]' % (s, t, i), lambda: '%s[%d] is %s' % (s, i, x))
            bounds = [None] + list(range(-n - 1, n + 2))
            for a in bounds:
                for b in bounds:
                    for st in ((None, 1, 2) if o is c else (None,)):
                        if a is not None and a < -n or b is not None and b < -n: continue
                        sl = slice(a, b, st)
                        x = guarded(lambda: o[sl], '%s%s[%s:%s:%s]' % (s, t, a, b, st), o)
                        want = lay[sl]
                        same(x, want, lines, 'slice %s%s[%s:%s:%s]' % (s, t, a, b, st), nm != 'sub')
            x = guarded(lambda: o[tuple(range(n)),], 'tuple index %s%s' % (s, t), o) if False else o
        ctx.check(tuple(c) == c.layertup and [x for x in c] == list(c.layertup), 'iter:' + s, 'iteration of %s' % s)
        for k in range(len(al)):
            v = lab(al[k])
            want = k in w or any(al[k] and len(al[k]) == 1 and any(lkey(al[k][0])[:1] and observe(v)[0] == from_obs(*observe(build(y)))[:4] for y in lay[i]) for i in range(n))
            want = any(_contains(build_layer(lay[i]), v) for i in range(n))
            for o in (c, e):
                if al[k] == [] : continue
                got = guarded(lambda: v in o, '%s in %s' % (v, s), o)
                ctx.check(got == want, 'in:%s %s' % (v, s), lambda: '(%s in %s) is %s' % (v, s, got))
        for v in ('G', 'x', 'Gnot', ('Gx', 7)):
            ctx.check((v in c) is False, 'in:%r %s' % (v, s), lambda: '%r in %s is True' % (v, s))
        # -- repetition
        for r in range(4):
            for o, t in ((c, ''), (e, ' editable')):
                for fn, f in (('*', lambda: o * r), ('**', lambda: o ** r), ('repeat', lambda: o.repeat(r)), ('repeat-boxed', lambda: o.repeat(r, expand=False))):
                    what = '%s%s %s %d' % (s, t, fn, r)
                    x = guarded(f, what, o)
                    if fn == 'repeat-boxed' and n == 0: continue
                    same(x, lay * r, lines, what)
                    _text(ctx, x, what)
        # -- concatenation with every circuit of the alphabet
        for w2 in (allw if n + 0 <= 2 else allw[:1 + len(al)]):
            d = mk(nm, w2); what = '%s + %s' % (s, show(w2))
            x = guarded(lambda: c + d, what, c, d)
            same(x, lay + L(w2), lines, what, True if nm != 'sub' else False)
            ctx.check(x._static, 'static:' + what, 'the sum of frozen circuits is editable')
            _text(ctx, x, what)
            if nm != 'sub':
                both = mk(nm, w + w2)
                ctx.check(x == both and hash(x) == hash(both), 'cat:' + what, lambda: '%s is not the circuit %s' % (what, show(w + w2)))
            eqv = (c == d)
            if nm != 'sub':
                iseq = [sorted(map(content, l)) for l in lay] == [sorted(map(content, l)) for l in L(w2)]
                ctx.check(eqv == iseq and (not eqv or hash(c) == hash(d)), 'eq:' + what, lambda: '(%s == %s) is %s' % (s, show(w2), eqv))
            if len(w2) <= 1:
                de = mk(nm, w2, True)
                x = guarded(lambda: c + de, what + ' (right editable)', c, de); same(x, lay + L(w2), lines, what + ' (right editable)')
                x = guarded(lambda: de + c, what + ' (left editable)', c, de); same(x, L(w2) + lay, lines, what + ' (left editable)')
                # as argument of edits of another circuit
                for m, f, want in (('append_circuit', lambda y: y.append_circuit(d), lay + L(w2)), ('prefix_circuit', lambda y: y.prefix_circuit(d), L(w2) + lay)):
                    y = mk(nm, w, True); what2 = '%s.%s(%s)' % (s, m, show(w2))
                    guarded(lambda: f(y), what2, d); same(y, want, lines, what2)
                    y = c.copy(True); guarded(lambda: f(y), what2, c, d); same(y, want, lines, what2 + ' on a copy of a frozen')
        # -- replacement
        if n:
            for i in range(len(al)):
                for j in range(len(al)):
                    for o, t in ((c, ''), (e, ' editable')):
                        what = '%s%s.replace_layer(%d,%d)' % (s, t, i, j)
                        x = guarded(lambda: o.replace_layer(lab(al[i]), lab(al[j])), what, o)
                        same(x, [al[j] if _eqlay(l, al[i]) else l for l in lay], lines, what)
                    if i != j and nm != 'sub' and al[i]:
                        for blk in ((), (j,), (j, j)):
                            if _eqlay(al[i], al[j]): continue
                            for o, t in ((c, ''), (e, ' editable')):
                                what = '%s%s.replace_layers_with_aliases(%d:%s)' % (s, t, i, blk)
                                al_c = mk(nm, blk)
                                x = guarded(lambda: o.replace_layers_with_aliases({lab(al[i]): al_c}), what, o, al_c)
                                same(x, [y for l in lay for y in (L(blk) if _eqlay(l, al[i]) else [l])], lines, what)
            for o, t in ((c, ''), (e, ' editable')):
                what = '%s%s.replace_gatename' % (s, t)
                x = guarded(lambda: o.replace_gatename('Gx', 'Gnew'), what, o)
                r = Ref(lay, lines); r.rename(lambda q: 'Gnew' if q == 'Gx' else q)
                same(x, r.layers, lines, what)
                if lines != ('*',):
                    m = {q: 'S%s' % q for q in lines}
                    for mm, f in (('dict', m), ('func', lambda q: m[q])):
                        what = '%s%s.map_state_space_labels(%s)' % (s, t, mm)
                        x = guarded(lambda: o.map_state_space_labels(f), what, o)
                        r = Ref(lay, lines); r.relabel(lambda q: m[q])
                        same(x, r.layers, r.lines, what)
        # -- serialize / parallelize
        pl, rr = perline(lay, lines)
        for o, t in ((c, ''), (e, ' editable')):
            what = '%s%s.serialize()' % (s, t)
            x = guarded(lambda: o.serialize(), what, o)
            got, gr = perline(read(x).layers, lines)
            ctx.check(got == pl and x.line_labels == lines and all(len(l) <= 1 for l in gr.layers) and len([l for l in gr.layers if l]) == sum(len(l) for l in rr.layers),
                      what, lambda: '%s = %s does not hold the gates of the circuit one per layer' % (what, x.str))
            for brk in (True, False):
                for adj in (False, True):
                    what = '%s%s.parallelize(%s,%s)' % (s, t, brk, adj)
                    x = guarded(lambda: o.parallelize(brk, adj), what, o)
                    got, gr = perline(read(x).layers, lines)
                    ok = got == pl and x.line_labels == lines
                    for l in gr.layers:
                        on = [q for y in l for q in gr.on(y)]
                        ok = ok and len(on) == len(set(on))
                    ctx.check(ok, what, lambda: '%s = %s does not apply the same gates to each line' % (what, x.str))
                    if not adj and brk:
                        busy = dict.fromkeys(lines, 0)
                        for l in rr.layers:
                            for y in l:
                                d = max(busy[q] for q in rr.on(y)) + 1
                                for q in rr.on(y): busy[q] = d
                        ctx.check(len([l for l in gr.layers if l]) == max(busy.values()), what + ' depth', lambda: '%s = %s has depth %d where %d is possible' % (what, x.str, len(x), max(busy.values())))
        # -- compression
        for ml in range(1, 5):
            for mp in (1, 2, 3):
                what = 'compress(%d,%d) %s' % (ml, mp, s)
                big = c if n == 0 else guarded(lambda: c * 3 if ml % 2 else c + c + mk(nm, w[:1]), what, c)
                want = (lay * 3 if ml % 2 else lay * 2 + L(w[:1])) if n else []
                z = guarded(lambda: CompressedCircuit(big, ml, mp), what, big)
                for y, t in ((z, ''), (pickle.loads(pickle.dumps(z)), ' pickled')):
                    x = y.expand()
                    same(x, want, lines, what + t, times=False)
                    ctx.check(flat(notime(x)) == flat(notime(big)) and x.str == big.str and (nm == 'sub' or (x == big and hash(x) == hash(big))), 'expand ' + what + t, lambda: '%s: expands to %s' % (what + t, x.str))
        # -- factor repetitions, expand
        y = c.copy(True)
        def fac():
            y.factorize_repetitions()
        guarded(fac, 'factorize ' + s, c)
        same(y, lay, lines, 'factorize ' + s, times=False)
        ctx.check(all(a != b for a, b in zip(y.layertup, y.layertup[1:])), 'factored ' + s, lambda: 'repetitions remain in %s' % y.str)
        z = y.copy(True); z.expand_subcircuits(); same(z, lay, lines, 'factorize+expand ' + s, times=False)
        yf = y.copy(False)
        for cn, f in (('copy', lambda: yf.copy()), ('pickle', lambda: pickle.loads(pickle.dumps(yf))), ('deepcopy', lambda: copy.deepcopy(yf))):
            x = guarded(f, '%s factored %s' % (cn, s), yf)
            ctx.check(x == yf and hash(x) == hash(yf) and x.tup == yf.tup and len(x) == len(yf), 'fcopy %s %s' % (cn, s), lambda: '%s of the factored %s is %s' % (cn, s, x.str))
        # -- boxing
        if n:
            for r in (1, 2):
                B = guarded(lambda: c.as_label(r), 'box %s' % s, c)
                x = Circuit([B], lines)
                same(x, lay * r, lines, 'box(%d) %s' % (r, s))
                ctx.check(B.reps == r and B.depth() == max(len(rflat(lay, lines)) * r, 0), 'boxdepth(%d) %s' % (r, s), lambda: 'as_label(%d) of %s has reps %s depth %s' % (r, s, B.reps, B.depth()))
        if nm in ('plain', 'one') and all(lay):
            ops = [lab(l) for l in al]
            p = guarded(lambda: c.to_pythonstr(ops), 'pythonstr ' + s, c)
            x = Circuit.from_pythonstr(p, ops)
            same(x, lay, lines if any(g[2] for l in lay for g in l) else ('*',), 'pythonstr ' + s) if n else None
        # -- in-place edits refused; edits of the lines do not alter the value
        for mname, f in (('reorder_lines', lambda x: x.reorder_lines(tuple(reversed(x.line_labels)))), ('insert_idling_lines', lambda x: x.insert_idling_lines(None, ('zz',))),
                         ('append_idling_lines', lambda x: x.append_idling_lines(('zz',))), ('delete_idling_lines', lambda x: x.delete_idling_lines()),
                         ('line_labels', lambda x: setattr(x, 'line_labels', x.line_labels + ('zz',))), ('done_editing', lambda x: x.done_editing())):
            x = mk(nm, w); h = hash(x); b = snap(x)
            try: f(x)
            except (AssertionError, ValueError): pass
            ctx.check(snap(x) == b, 'line-edit of a frozen circuit:' + mname, lambda: '%s on the frozen %s changes its value (now %s)' % (mname, s, x.str))
            ctx.check(x.str == mk(nm, w).copy(True).str or x.line_labels != lines, 'stale text:%s %s' % (mname, s), '')
            fresh = Circuit(x.layertup, x.line_labels, expand_subcircuits=False)
            ctx.check(x.str == fresh.str, 'text after %s of %s' % (mname, s), lambda: 'after %s on the frozen %s its text is %s, not %s' % (mname, s, x.str, fresh.str))


def notime_layers(layers):
    """times are not part of a circuit's value: equal labels at different times may be merged"""
    def go(l):
        if l[0] == 'g': return l[:4] + (0.0,)
        if l[0] == 'l': return ('l', tuple(map(go, l[1]))) + l[2:]
        return l[:2] + (tuple(map(go, l[2])),) + l[3:]
    return [[go(l) for l in lay] for lay in layers]


def notime(c):
    from pygsti.objects import Circuit
    return Circuit([lab(l) for l in notime_layers(read(c).layers)], c.line_labels, expand_subcircuits=False)


def build_layer(l): return lab(l)


def _contains(layer, v):
    """v is the layer itself, or one of the labels (or sub-layers) in it"""
    if layer == v: return True
    comps = layer.components
    return any((c is not layer) and _contains(c, v) for c in comps)


def _eqlay(a, b):
    return tuple(content(x) for x in a) == tuple(content(x) for x in b)


def _text(ctx, x, what):
    """the text of x reads back as a circuit standing for the same layers"""
    from pygsti.objects import Circuit
    if any(l.time != 0.0 for l in x.layertup) or '!' in x.str or 'N' in x.str: return   # (times and names of sub-circuits have no readable text)
    y = Circuit(None, stringrep=x.str)
    ctx.check(flat(y) == flat(x) and tuple(y.line_labels) == tuple(x.line_labels), 'text ' + what, lambda: '%s: the text %s reads back as %s' % (what, x.str, y.str))
