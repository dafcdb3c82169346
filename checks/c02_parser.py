"""C02: circuit text.  (a) strings generated by the grammar together with their denotation, (b) all short token strings
against an independent recognizer, on both parser implementations, (c) text round trip of enumerated circuits."""
import re, itertools
from checks.c01_labels import observe, content, times, expand, time_of
LEVEL = 'exploration'
RULE = ("all token strings over a 19-token alphabet up to length 4 (5 in thorough) and all grammar-generated circuits "
        "of bounded size, each parsed by the pure-Python and the Cython parser with sub-circuits kept or multiplied out; "
        "distinct = distinct strings that denote something")

LBL = re.compile(r'(rho[a-z0-9_]*|[GIM][a-z0-9_]*)((?:;[a-zQ0-9_./]*)*)((?::[a-zQ0-9_]*)*)(?:!([0-9.]*))?')


class Bad(Exception): pass


def union_ssl(specs):
    out = []
    if not specs: return None
    for s in specs:
        x = ssl(s)
        if x is None: return None
        out += list(x)
    return frozenset(out)


def ssl(s):
    if s[0] == 'g': return s[2]
    if s[0] == 'c': return s[3]
    return union_ssl(s[1])


def reference(text, sub, integerize=True):
    """stack parser over regular-expression tokens: list of specs (as in c01), or Bad"""
    lines = None
    if '@' in text:
        parts = text.split('@')
        if len(parts) != 2: raise Bad('two @')
        text, l = parts
        l = l.strip('( )')
        lines = tuple(int(x) if x.strip().isdigit() else x.strip() for x in l.split(',')) if l else ()
    text = text.replace('*', '')
    pos = 0; stack = [('', [])]; last = None   # last: list of items an exponent would act on
    phase = 0
    def close(kind, items):
        if kind == '(':
            if not sub: return items, True
            return (([('c', '', tuple(items), union_ssl(items), 1, None)] if items else []), True)
        if not items: return [('l', (), (), None)], True
        if len(items) == 1: return items, True
        return [('l', tuple(items), (), None)], True
    while pos < len(text):
        c = text[pos]
        if c in '([':
            stack.append((c, [])); pos += 1; continue
        if c in ')]':
            if len(stack) == 1 or stack[-1][0] != {')': '(', ']': '['}[c]: raise Bad('unbalanced')
            kind, items = stack.pop(); pos += 1
            items, _ = close(kind, items)
        elif text.startswith('{}', pos):
            if phase > 1: raise Bad('after povm')
            kind = '{'; items = []; pos += 2
        else:
            m = LBL.match(text, pos)
            if not m: raise Bad('illegal text')
            nm = m.group(1)
            if nm.startswith('rho'):
                if phase > 0: raise Bad('prep not first')
                phase = 1
            elif phase > 1: raise Bad('after povm')
            else: phase = 2 if nm[0] == 'M' else 1
            args = tuple(m.group(2).split(';')[1:])
            sl = m.group(3).split(':')[1:]
            if any(x == '' for x in sl): raise Bad('empty state-space label')
            sl = tuple(int(x) if integerize and x.isdigit() else x for x in sl) or None
            t = 0.0
            if m.group(4) is not None:
                try: t = float(m.group(4))
                except ValueError: raise Bad('time')
            kind = 'g'; items = [('g', nm, sl, args, t)]; pos = m.end()
        m = re.compile(r'\^([0-9]*)').match(text, pos)
        if m:
            if not m.group(1): raise Bad('exponent')
            n = int(m.group(1)); pos = m.end()
            if kind == '(' and sub:
                items = [x[:4] + (n,) + x[5:] for x in items]
            else: items = items * n
        stack[-1][1].extend(items)
    if len(stack) != 1: raise Bad('unbalanced')
    return stack[0][1], lines


def norm(c):
    """content with the state-space labels of sub-circuits as a set"""
    if c[0] == 'g': return c
    if c[0] == 'l': return ('l', tuple(norm(x) for x in c[1]), c[2])
    return ('c', c[1], tuple(norm(x) for x in c[2]), None if c[3] is None else frozenset(c[3]), c[4])


def spec_content(s):
    """like c01.content but keeps digit strings that were kept"""
    if s[0] == 'g': return ('g', s[1], s[2], s[3])
    if s[0] == 'l': return ('l', tuple(spec_content(x) for x in s[1]), s[2])
    return ('c', s[1], tuple(spec_content(x) for x in s[2]), None if s[3] is None else frozenset(s[3]), s[4])


def parsers():
    from pygsti.io.circuitparser import slowcircuitparser as S, CircuitParser
    out = [('slow', S.parse_circuit)]
    from pygsti.io.circuitparser import fastcircuitparser as F
    out.append(('fast', F.parse_circuit))
    return out, CircuitParser().parse


def seen(fn, text, sub, integ):
    try:
        r, lines = fn(text, sub, integ)
    except ValueError as e:
        return ('refused',)
    obs = [observe(l) for l in r]
    return ('ok', tuple(norm(o[0]) for o in obs), tuple(o[1] for o in obs), lines)


def expect(text, sub, integ):
    try: r, lines = reference(text, sub, integ)
    except Bad: return ('refused',)
    return ('ok', tuple(spec_content(s) for s in r), tuple(times(s) for s in r), lines)


TOK = ['Gx', 'Gx:0', ':1', ':Q1', ';a', ';1.4/2', '!2.5', '^2', '^0', '(', ')', '[', ']', '{}', '*', 'rho0', 'Mz', 'Iz:0', '@(0,Q1)']
TOK5 = ['Gx:0', 'Gy', ':1', ';a', '!2', '^2', '(', ')', '[', ']', '{}', 'rho0', 'Mz']
JUNK = ['X', 'g', '{', '}', '^', '!', ':', ';', '@', 'S', 'r', 'rh', '1', ' ', '!1.2.3', ':1_0', '+', 'Gx.', '^-1']


# --- generated circuits with their denotation -----------------------------------------------------------
def gen_simple():
    for nm in ('Gx', 'Gcnot', 'Iz'):
        for sl in (None, (0,), ('Q1', 2)):
            for ar in ((), ('1', 'a/b')):
                for t in (0.0, 1.5):
                    s = nm + ''.join(';' + a for a in ar) + ''.join(':%s' % x for x in (sl or ())) + ('!%s' % t if t else '')
                    yield s, ('g', nm, sl, ar, t)


BASE = [('Gx:0', ('g', 'Gx', (0,), (), 0.0)), ('Gi', ('g', 'Gi', None, (), 0.0)),
        ('Gz;1.5:1!2.0', ('g', 'Gz', (1,), ('1.5',), 2.0))]


def combine(lev, sub):
    """all one-step combinations of (text, layers) items; layers is the list of specs denoted"""
    one = [(t, d) for t, d in lev if len(d) == 1]
    for t, d in lev:
        for n in (0, 1, 2, 3):
            if sub: den = [('c', '', tuple(d), union_ssl(d), n, None)] if d else []
            else: den = d * n
            yield '(%s)^%d' % (t, n), den
        yield '(%s)' % t, ([('c', '', tuple(d), union_ssl(d), 1, None)] if d else []) if sub else d
    for (t1, d1), (t2, d2) in itertools.product(lev, repeat=2):
        yield t1 + t2, d1 + d2
        yield t1 + '*' + t2, d1 + d2
    for (t1, d1), (t2, d2) in itertools.product(one, repeat=2):
        lay = ('l', (d1[0], d2[0]), (), None)
        yield '[' + t1 + t2 + ']', [lay]
        yield '[' + t1 + t2 + ']^2', [lay, lay]
    yield '[]', [('l', (), (), None)]
    yield '{}', []


def generated(sub, tier):
    lev0 = [(t, [s]) for t, s in BASE]
    lev1 = lev0 + list(combine(lev0, sub))
    yield from ((t, [s]) for t, s in gen_simple())
    yield from lev1
    l1 = [x for k, x in enumerate(lev1) if tier == 'thorough' or k % 2 == 0 or k < 12]
    lev2 = list(combine(l1, sub))
    yield from lev2
    for pre, post in (('rho0', 'Mz'), ('rho0!1.5', ''), ('', 'Mdefault')):
        for t, d in lev1:
            P = [('g', 'rho0', None, (), 1.5 if '!' in pre else 0.0)] if pre else []
            Q = [('g', post, None, (), 0.0)] if post else []
            yield pre + t + post, P + d + Q


def shards(tier):
    out = [('tok', a) for a in range(len(TOK))]
    if tier == 'thorough': out += [('tok5', a, b) for a in range(len(TOK5)) for b in range(len(TOK5))]
    return out + [('junk',), ('gen', True), ('gen', False), ('circ', 0), ('circ', 1), ('circ', 2), ('strings',)]


def one(text, ctx, full=False):
    (ps, main) = P
    for sub in (True, False):
        for integ in ((True, False) if full else (True,)):
            want = expect(text, sub, integ)
            got = {nm: seen(fn, text, sub, integ) for nm, fn in ps}
            got['default'] = seen(main, text, sub, integ)
            if want == ('refused',) and full: ctx.ev()
            else: ctx.ev((text, sub, integ) if want[0] == 'ok' else None)
            for nm, g in got.items():
                if not ctx.check(g == want, 'parse:%s:%s:%s:%s' % (nm, sub, integ, text), lambda: '%r parsed by the %s parser (sub-circuits %s, integerize %s): %r, the text says %r' % (text, nm, sub, integ, g, want), text):
                    return


def run(shard, ctx):
    global P
    P = parsers()
    import pygsti
    from pygsti.objects import Circuit
    kind = shard[0]
    if kind == 'tok':
        for n in range(0, 4 if ctx.tier == 'quick' else 5):
            for rest in itertools.product(TOK, repeat=n):
                one(TOK[shard[1]] + ''.join(rest), ctx)
        ctx.sample(TOK[shard[1]] + ''.join(TOK[:3]))
    elif kind == 'tok5':
        for rest in itertools.product(TOK5, repeat=4):
            one(TOK5[shard[1]] + TOK5[shard[2]] + ''.join(rest), ctx)
    elif kind == 'junk':
        base = ['', 'Gx', 'Gx:0', '(Gx)', '[Gx:0Gy:1]', 'Gx^2', '{}', 'rho0', 'Mz']
        for j in JUNK:
            for a in base:
                for b in base: one(a + j + b, ctx, full=True)
            for j2 in JUNK:
                one(j + j2, ctx); one('Gx' + j + j2, ctx)
        for lines in ('@(0,1)', '@(Q1)', '@()', '@( 0, Q1 )', '@0,1', '@(0)@(1)', '@(1,0,qa)'):
            for a in base: one(a + lines, ctx, full=True)
    elif kind == 'gen':
        for text, den in generated(shard[1], ctx.tier):
            ctx.where = text
            want = ('ok', tuple(spec_content(s) for s in den), tuple(times(s) for s in den), None)
            ref = expect(text, shard[1], True)
            assert ref == want, ('the two oracles disagree on', text, ref, want)
            ctx.ev(text)
            for nm, fn in P[0]:
                g = seen(fn, text, shard[1], True)
                ctx.check(g == want, 'gen:%s:%s' % (nm, text), lambda: '%r parsed by %s: %r, denotes %r' % (text, nm, g, want))
            g = seen(fn, text + '@(0,1,Q1,2)', shard[1], True)
            ctx.check(g == want[:3] + ((0, 1, 'Q1', 2),), 'genl:' + text, lambda: 'with line labels: %r -> %r' % (text, g))
        ctx.sample(text)
    elif kind == 'circ':
        circ_roundtrip(shard[1], ctx, Circuit)
    elif kind == 'strings':
        # Circuit(text) stands for the expanded layers of the text
        for text, den in generated(True, 'quick'):
            if 'rho' in text or 'M' in text or 'Q1:2' in text: continue
            ctx.where = text
            lay = []
            for s in den: lay += expand_spec(s)
            cont = lay_content(lay)
            try: flat_ok = all(len(c) < 2 or disjoint(c) for c in lay)
            except TypeError: flat_ok = False
            if not flat_ok: continue
            c = Circuit(text)
            got = tuple(norm(observe(l)[0]) for l in c.layertup)
            ctx.ev(text)
            ctx.check(got == cont, 'expand:' + text, lambda: 'Circuit(%r) has layers %r, the text stands for %r' % (text, got, cont))
            ctx.check(c.str == text or Circuit(c.str, c.line_labels) == c, 'expandstr:' + text, lambda: 'str %r' % c.str)


def expand_spec(s):
    """list of layers, each a list of simple specs"""
    if s[0] == 'g': return [[s]]
    if s[0] == 'c': return sum([expand_spec(x) for x in s[2]], []) * s[4]
    ex = [expand_spec(x) for x in s[1]]
    if not ex: return [[]]
    return [[x for e in ex if i < len(e) for x in e[i]] for i in range(max(map(len, ex)))]


def lay_content(lay):
    return tuple(spec_content(l[0]) if len(l) == 1 else ('l', tuple(spec_content(x) for x in l), ()) for l in lay)


def disjoint(items):
    s = [i[2] for i in items]
    if any(x is None for x in s): return False
    f = [y for x in s for y in x]
    return len(f) == len(set(f))


LINESETS = [('*',), (0,), (0, 1), (1, 0), ('Q0', 'Q1'), (0, 1, 'Q2'), ('qa', 3)]


def circ_roundtrip(k, ctx, Circuit):
    """every circuit of the alphabet prints to a text that parses back to it"""
    from pygsti.objects.label import Label, CircuitLabel
    for lines in LINESETS:
        q = [l for l in lines if l != '*']
        comp = [('Gx', None, (), 0.0)] + [('Gx', (l,), (), 0.0) for l in q] + [('Gy', (l,), ('1.4',), 0.0) for l in q[:1]] \
            + [('Gz', (q[-1],), (), 2.5) for _ in q[:1]] + [('Gcnot', (a, b), (), 0.0) for a in q for b in q if a != b]
        single = set()
        layers = [Label(n, s, t, a or None) for n, s, a, t in comp] + [Label(())]
        for a, b in itertools.permutations([c for c in comp if c[1]], 2):
            if not set(a[1]) & set(b[1]):
                layers.append(Label([Label(n, s, t, ar or None) for n, s, ar, t in (a, b)]))
        if q and len(set(map(type, q))) == 1: layers.append(CircuitLabel('', tuple(Label('Gx', x) for x in q), tuple(sorted(q)), 2))
        if len(q) == 1: single.add(layers[-1])
        if q:   # sub-circuits of a single gate: their text is that of the repeated gate, so the text is compared by meaning
            s1 = CircuitLabel('', (Label('Gy', q[-1]),), (q[-1],), 2)
            single.add(s1)
            layers.append(s1)
            if len(q) > 1: layers.append(Label((Label('Gx', q[0]), s1)))   # (inside a layer the text keeps the sub-circuit)
            layers.append(CircuitLabel('', (Label('Gx', q[0]), Label('Gy', q[0])), (q[0],), 3))
        for n in range(0, 3 if ctx.tier == 'quick' else 4):
            for ls in itertools.product(layers, repeat=n):
                if (len(ls) + hash_of(ls)) % 3 != k: continue
                for ex in (True, False):
                    c = Circuit(ls, lines, expand_subcircuits=ex)
                    ctx.where = (repr(lines), [str(x) for x in ls], ex)
                    want = [observe(l) for l in c.layertup]
                    s = c.str
                    ctx.ev((s, lines, ex))
                    d = Circuit(s, expand_subcircuits=ex) if lines != ('*',) else Circuit(s, lines, expand_subcircuits=ex)
                    if any(l in single for l in ls) and not ex:
                        c2 = Circuit(c.layertup, lines, expand_subcircuits=True); d2 = Circuit(d.layertup, lines, expand_subcircuits=True)
                        ctx.check(c2 == d2 and tuple(map(observe, c2.layertup)) == tuple(map(observe, d2.layertup)), 'rt1:' + s, lambda: '%r stands for %r, not %r' % (s, d2.layertup, c2.layertup))
                        continue
                    got = [observe(l) for l in d.layertup]
                    ctx.check([(norm(x[0]), x[1]) for x in got] == [(norm(x[0]), x[1]) for x in want], 'rt:%s:%s' % (ex, s), lambda: '%r parses to %r, not %r' % (s, got, want))
                    ctx.check(d == c and hash(d) == hash(c) and d.line_labels == tuple(lines), 'rteq:%s:%s' % (ex, s), lambda: '%r: lines %r vs %r; equal %s' % (s, d.line_labels, lines, d == c))
                    e = Circuit(c.layertup, lines, stringrep=s, expand_subcircuits=ex)   # layer labels checked against the text
                    ctx.check(e == c and e.str == s, 'rtboth:%s:%s' % (ex, s), s)
                    g = Circuit(c.layertup, lines, editable=True, expand_subcircuits=False)
                    if c.layertup: ctx.check(g.str == s, 'editable:%s:%s' % (ex, s), lambda: 'editable copy prints %r, not %r' % (g.str, s))
                    f = Circuit(c.layertup, lines, expand_subcircuits=False, editable=False); f._str = None
                    ctx.check(f.str == Circuit(c.layertup, lines, expand_subcircuits=False).str, 'again:' + s, s)
                    if ls:
                        # a text that stands for something else is refused
                        other = Circuit(tuple(c.layertup) + (Label('Gother', None if not q else q[0]),), lines, expand_subcircuits=False).str
                        try:
                            Circuit(c.layertup, lines, stringrep=other, expand_subcircuits=ex)
                            bad = True
                        except ValueError: bad = False
                        ctx.check(not bad, 'mismatch:%s:%s' % (ex, s), lambda: 'layers %r accepted with text %r' % (c.layertup, other))
        ctx.sample(str(lines))


def hash_of(ls):
    return sum(len(str(x)) for x in ls)
