"""C03: circuit editing.  Breadth-first exploration of editing-operation histories; every operation is applied to a real
editable Circuit and to a plain reference (a list of layers, each a list of labels, plus the lines)."""
import itertools, copy
from checks.c01_labels import build, content, observe, rename, remap, time_of
LEVEL = 'model_checking'
RULE = ("all histories of editing operations (each with all its argument choices) up to depth 2 (3 in thorough, and over a "
        "reduced argument set in quick) from 6 initial circuits on 0-3 lines; a state is the layers and lines held; every "
        "transition is executed on a real Circuit and compared with the list-of-layers reference")
ASSUMPTIONS = ["order of labels within a layer is not significant", "a refused operation ends the history"]


class Refuse(Exception): pass


def G(n, *q, **k): return ('g', n, tuple(q) or None, tuple(k.get('args', ())), k.get('t', 0.0))


class Ref(object):
    def __init__(self, layers, lines):
        self.layers = [list(l) for l in layers]; self.lines = tuple(lines)

    def copy(self): return Ref(self.layers, self.lines)

    def on(self, l):
        s = l[2] if l[0] == 'g' else l[3]
        return set(self.lines) if s is None else set(s)

    def explicit(self, l):
        if l[0] == 'g': return set(l[2] or ())
        if l[0] == 'c': return set(l[3] or ())   # a sub-circuit is an opaque label on its lines
        return set()

    def key(self):
        return (tuple(tuple(sorted(map(lkey, l))) for l in self.layers), self.lines)

    # --- operations ---------------------------------------------------------------------------------
    def idx(self, layers):
        n = len(self.layers)
        if layers is None: return list(range(n))
        if isinstance(layers, slice): return list(range(n))[layers]
        if isinstance(layers, int): layers = (layers,)
        for i in layers:
            if not -n <= i < n: raise Refuse()
        return list(layers)

    def lin(self, lines):
        if lines is None: return self.lines
        if isinstance(lines, (list, tuple)): return tuple(lines)
        return (lines,)

    def clear_labels(self, layers=None, lines=None, clear_straddlers=False):
        ii = self.idx(layers); ls = set(self.lin(lines))
        for i in ii:
            new = []
            for l in self.layers[i]:
                on = self.on(l)
                if not on & ls: new.append(l)
                elif not clear_straddlers and not on <= ls: raise Refuse()
            self.layers[i] = new

    def set_labels(self, lbls, layers=None, lines=None):
        # lbls: a layer (list of labels) for an int, otherwise a list of layers
        many = not isinstance(layers, int)
        ls = self.lin(lines)
        block = lbls if many else [lbls]
        ii = self.idx(layers)
        if layers is None:
            while len(self.layers) < len(block): self.layers.append([])
            ii = list(range(len(self.layers)))
        elif ii and len(ii) != len(block): raise Refuse()
        if not ii or (not ls and lines is not None): return
        expl = set().union(*[self.explicit(l) for lay in block for l in lay]) if block else set()
        if lines is None:
            self.lines = self.lines + tuple(sorted(expl - set(self.lines))); ls = self.lines
        elif not expl <= set(ls) or not set(ls) <= set(self.lines): raise Refuse()
        self.clear_labels(ii, ls)
        for i, lay in zip(ii, block):
            for l in lay:
                if lines is not None and l[0] == 'g' and l[2] is None: l = l[:2] + (tuple(ls),) + l[3:]
                if lines is not None and l[0] == 'c' and l[3] is None: raise Refuse()
                self.layers[i].append(l)

    def insert_idling_layers(self, i, n, lines=None):
        if i is None: i = len(self.layers)
        elif i < 0: i = len(self.layers) + i
        if lines is None:
            self.layers[i:i] = [[] for _ in range(n)]
            return
        if n == 0: return
        ls = set(self.lin(lines))
        stay = [[] for _ in range(len(self.layers) + n)]
        for k, lay in enumerate(self.layers):
            for l in lay:
                on = self.on(l)
                if k >= i and on & ls:
                    if not on <= ls: raise Refuse()
                    stay[k + n].append(l)
                else: stay[k].append(l)
        self.layers = stay

    def append_idling_layers(self, n, lines=None): self.insert_idling_layers(None, n, lines)

    def insert_labels_into_layers(self, lbls, i, lines=None):
        if i is None: i = len(self.layers)
        elif i < 0: i = len(self.layers) + i
        self.insert_idling_layers(i, len(lbls), lines)
        if lbls: self.set_labels(lbls, list(range(i, i + len(lbls))), lines)

    def insert_layer(self, lay, i): self.insert_labels_into_layers([lay], i)

    def insert_idling_lines(self, before, new):
        k = len(self.lines) if before is None else self.lines.index(before)
        self.lines = self.lines[:k] + tuple(new) + self.lines[k:]

    def append_idling_lines(self, new): self.insert_idling_lines(None, new)

    def insert_labels_as_lines(self, lbls, layer, before, new):
        if set(new) & set(self.lines): raise Refuse()
        if layer is None: layer = 0
        elif layer < 0: layer += len(self.layers)
        self.insert_idling_lines(before, new)
        while len(self.layers) < layer + len(lbls): self.layers.append([])
        if lbls: self.set_labels(lbls, list(range(layer, layer + len(lbls))), new)

    def tensor_circuit(self, other, order=None):
        self.insert_labels_as_lines(other.layers, None, None, other.lines)
        if order is not None: self.lines = tuple(order)

    def insert_circuit(self, other, j):
        for q in other.lines:
            if q not in self.lines and not other.idle(q): raise Refuse()
        self.insert_labels_into_layers(other.layers, j)

    def append_circuit(self, other): self.insert_circuit(other, len(self.layers))
    def prefix_circuit(self, other): self.insert_circuit(other, 0)

    def replace_layer_with_circuit(self, other, j):
        self.delete_layers(j)
        self.insert_labels_into_layers(other.layers, j)

    def idle(self, q): return all(q not in self.on(l) for lay in self.layers for l in lay)

    def delete_layers(self, layers):
        ii = set(i % len(self.layers) if self.layers else i for i in self.idx(layers))
        self.layers = [l for i, l in enumerate(self.layers) if i not in ii]

    def delete_lines(self, lines, delete_straddlers=False):
        ls = set(self.lin(lines))
        for i, lay in enumerate(self.layers):
            new = []
            for l in lay:
                s = self.explicit(l)
                if not s & ls: new.append(l)
                elif not delete_straddlers and not s <= ls: raise Refuse()
            self.layers[i] = new
        self.lines = tuple(q for q in self.lines if q not in ls)

    def setlines(self, value):
        gone = [q for q in self.lines if q not in value and not self.idle(q)]
        if gone: self.delete_lines(gone)
        self.lines = tuple(value)

    def delete_idling_lines(self):
        if any(self.on(l) >= set(self.lines) and not self.explicit(l) for lay in self.layers for l in lay): return
        self.lines = tuple(q for q in self.lines if not self.idle(q))

    def reorder_lines(self, order):
        if set(order) != set(self.lines): raise Refuse()
        self.lines = tuple(order)

    def replace_with_idling_line(self, q): self.clear_labels(None, q, True)
    def reverse(self): self.layers.reverse()
    def clear(self): self.layers = []
    def delete_idle_layers(self): self.layers = [l for l in self.layers if l]

    def rename(self, f):
        def go(l):
            if l[0] == 'g': return l[:1] + (f(l[1]),) + l[2:]
            if l[0] == 'l': return ('l', tuple(map(go, l[1])), l[2], l[3])
            return l[:2] + (tuple(map(go, l[2])),) + l[3:]
        self.layers = [[go(l) for l in lay] for lay in self.layers]

    def relabel(self, f):
        def go(l):
            if l[0] == 'g': return l[:2] + (None if l[2] is None else tuple(map(f, l[2])),) + l[3:]
            if l[0] == 'l': return ('l', tuple(map(go, l[1])), l[2], l[3])
            return l[:2] + (tuple(map(go, l[2])), None if l[3] is None else tuple(map(f, l[3]))) + l[4:]
        self.layers = [[go(l) for l in lay] for lay in self.layers]
        self.lines = tuple(map(f, self.lines))

    def expand_subcircuits(self):
        out = []
        for lay in self.layers:
            e = [xp(l) for l in lay]
            # labels without lines inside a sub-circuit take the sub-circuit's lines
            for k, l in enumerate(lay):
                if l[0] == 'c' and l[3] is not None:
                    e[k] = [[(x[:2] + (tuple(l[3]),) + x[3:] if x[0] == 'g' and x[2] is None else x) for x in ly] for ly in e[k]]
            for i in range(max([len(x) for x in e] + [1])):
                out.append([y for x in e if i < len(x) for y in x[i]])
        self.layers = out

    def factorize_repetitions(self):
        out = []; i = 0
        while i < len(self.layers):
            j = i + 1
            while j < len(self.layers) and self.layers[j] == self.layers[i]: j += 1
            lay = self.layers[i]
            if j - i > 1:
                out.append([('c', '', (lay[0] if len(lay) == 1 else ('l', tuple(lay), (), None),), None, j - i, None)])
            else: out.append(lay)
            i = j
        self.layers = out

    def shift_gates_forward(self):
        out = [[] for _ in self.layers]; busy = {q: 0 for q in self.lines}
        for k, lay in enumerate(self.layers):
            for l in lay:
                on = self.on(l)
                d = max([busy.get(q, 0) for q in on] + [0])
                out[d].append(l)
                for q in on: busy[q] = d + 1
        self.layers = out

    def compress_depth(self):
        self.shift_gates_forward(); self.delete_idle_layers()


def xp(l):
    if l[0] == 'g': return [[l]]
    if l[0] == 'c': return sum([xp(x) for x in l[2]], []) * l[4]
    e = [xp(x) for x in l[1]]
    return [[y for x in e if i < len(x) for y in x[i]] for i in range(max([len(x) for x in e] + [1]))]


def lkey(l):
    """comparable content (times of simple labels included)"""
    return repr((ctime(l)))


def ctime(l):
    if l[0] == 'g': return ('g', l[1], l[2], tuple(l[3]), float(l[4]))
    if l[0] == 'l': return ('l', tuple(sorted(repr(ctime(x)) for x in l[1])))
    return ('c', l[1], tuple(ctime(x) for x in l[2]), l[3], l[4])


def from_obs(c, t):
    if c[0] == 'g': return c + (t[0],)
    if c[0] == 'l': return ('l', tuple(from_obs(x, y) for x, y in zip(c[1], t[1:])), c[2], None)
    return ('c', c[1], tuple(from_obs(x, y) for x, y in zip(c[2], t[1:])), c[3], c[4], None)


def read(c):
    """reference state held by a real circuit"""
    out = []
    for l in c.layertup:
        o = from_obs(*observe(l))
        out.append(list(o[1]) if o[0] == 'l' else [o])
    return Ref(out, c.line_labels)


def lab(lay):
    from pygsti.objects.label import Label
    return Label([build(l) for l in lay])


def mk(ref, editable=True):
    from pygsti.objects import Circuit
    return Circuit([lab(l) for l in ref.layers], ref.lines, editable=editable, expand_subcircuits=False)


I0 = {
    'A': Ref([[G('Gx', 0), G('Gy', 1)], [G('Gc', 0, 1)], [G('Gz', 0)]], (0, 1)),
    'B': Ref([[], [G('Gx', 0, args=('1.5',), t=2.0)], [G('Gx', 1)]], (0, 1)),
    'C': Ref([[G('Gc', 'Q0', 'Q1'), G('Gx', 'Q2')], [G('Gi')]], ('Q0', 'Q1', 'Q2')),
    'D': Ref([], (0, 1)),
    'E': Ref([[('c', '', (G('Gx', 0), ('l', (G('Gy', 0), G('Gx', 1)), (), None)), (0, 1), 2, None)], [G('Gx', 1), ('c', '', (G('Gz', 0),), (0,), 3, None)]], (0, 1)),
    'F': Ref([[G('Gx', 1), G('Gx', 0)], [G('Gx', 1), G('Gx', 0)], [G('Gy', 1)], [G('Gy', 1)]], (1, 0)),
}
CFR = {('Gx', 'Gx'): 'Gxx', ('Gx', 'Gxx'): 'Gxxx', ('Gxx', 'Gx'): 'Gxxx', ('Gxx', 'Gxx'): None, ('Gx', 'Gxxx'): None, ('Gxxx', 'Gx'): None}


def operations(r, rich):
    """all operations (method, positional arguments) offered in reference state r; circuits/layers given as reference data"""
    n = len(r.layers); q = r.lines
    if not q:
        yield 'insert_idling_lines', (None, (7, 1)), {}
        yield 'append_idling_lines', ((1, 7),), {}
        yield 'insert_layer', ([G('Ga', 7)], 0), {}
        yield 'set_labels', ([[G('Ga', 7)], [G('Gc', 1, 7)]], None, None), {}
        yield 'setlines', ((1, 2),), {}
        yield 'append_labels_as_lines', ([[G('Gu', 7)], [], [G('Gu', 7, t=2.0)]], None, (7,)), {}
        yield 'tensor_circuit', (Ref([[G('Gu', 7)], [], [G('Gu', 1, args=('1',))]], (7, 1)), (1, 7)), {}
        return
    a = q[0] if q else 0; b = q[-1] if q else 0
    new = 7 if not q or isinstance(q[0], int) else 'Q7'
    L1 = [G('Ga', a)]; L2 = [G('Gb', a), G('Gb', b)] if a != b else [G('Gb', a)]
    Lg = [G('Gg')]; Le = []; Lt = [G('Ga', b, args=('2', 'x'), t=3.0)]; Ln = [G('Gn', new)]
    Lc = [G('Gc', b, a)] if a != b else L1
    other = Ref([L1, Lc], q or (0,)); idleother = Ref([L1, Le, L1], tuple(q) + (new,)) if q else Ref([], ())
    sub1 = Ref([[G('Gs', b)], Le], (b,)) if q else Ref([], ())
    tens = Ref([[G('Gu', new)], Le, [G('Gu', new, args=('1',))], [G('Gu', new)]], (new,))
    tens2 = Ref([[G('Gu')]], (new,))
    if n:
        for i in ((0, n - 1) if n > 1 else (0,)):
            for lay in (L1, L2, Lg, Le, Lt, Ln, Lc): yield 'set_labels', (lay, i, None), {}
            yield 'set_labels', ([G('Gw')], i, a), {}
            yield 'set_labels', ([G('Gw', t=1.0, args=('3',))], i, (b,)), {}
            yield 'set_labels', (Lc, i, (a,)), {}
            yield 'setitem', (L1, (i, a)), {}
            yield 'setitem', (L2, i), {}
        yield 'setitem', (L1, -1), {}
        yield 'set_labels', ([L1, Lt][:min(n, 2)], slice(0, min(n, 2)), None), {}
        yield 'set_labels', ([[G('Gw')]] * n, slice(0, n), (b,)), {}
        yield 'set_labels', ([L1], slice(-1, None), None), {}
        yield 'set_labels', ([L1, L1], slice(0, 1), None), {}
        yield 'set_labels', ([Lt, L2][:min(2, n)], [n - 1, 0][:min(2, n)], None), {}
        yield 'set_labels', ([L1] * n, slice(None, None), None), {}
    yield 'set_labels', ([L1, Lc, Le, Lt, L2], None, None), {}
    yield 'set_labels', ([L1], None, None), {}
    yield 'set_labels', ([[G('Gw')]], None, a), {}
    for kw in ({}, {'clear_straddlers': True}):
        if n:
            for ly in (0, slice(0, 1), slice(0, None), None, [0, n - 1]): yield 'clear_labels', (ly, a), kw
            yield 'clear_labels', (None, (b,)), kw
        yield 'clear_labels', (None, None), kw
    for i in sorted({0, 1, n, n // 2} & set(range(n + 1))) + [None] + ([-1] if n else []):
        for k in (0, 1, 2):
            yield 'insert_idling_layers', (i, k), {}
            for ls in (a, (b,), q): yield 'insert_idling_layers', (i, k, ls), {}
        for block in ([L1], [Lg, Lt], [Le, Ln], []):
            yield 'insert_labels_into_layers', (block, i), {}
        yield 'insert_labels_into_layers', ([[G('Gw')], L1], i, (a,)), {}
        yield 'insert_labels_into_layers', ([[G('Gw', b)]], i, b), {}
        if i is not None and i >= 0:
            yield 'insert_circuit', (other, i), {}
            yield 'insert_circuit', (sub1, i), {}
            yield 'insert_layer', (L2, i), {}
            yield 'insert_layer', (Le, i), {}
    yield 'append_idling_layers', (2,), {}
    yield 'append_idling_layers', (1, a), {}
    for o in (other, idleother, sub1, Ref([[G('Gn', new)]], (new,))):
        yield 'append_circuit', (o,), {}
        yield 'prefix_circuit', (o,), {}
    for i in range(min(n, 2)):
        yield 'replace_layer_with_circuit', (other, i), {}
        yield 'replace_layer_with_circuit', (sub1, i), {}
    for bef in (None, a):
        if new not in q: yield 'insert_idling_lines', (bef, (new,)), {}
        for ly in (None, 1, -1) if n else (None,):
            yield 'insert_labels_as_lines', ([[G('Gu', new)], [G('Gv')]], ly, bef, (new,)), {}
    if new not in q: yield 'append_idling_lines', ((new, 9 if new == 7 else 'Q9'),), {}
    yield 'append_labels_as_lines', ([[G('Gu', new)], [], [G('Gu', new, t=2.0)]], None, (new,)), {}
    yield 'append_labels_as_lines', (tens, None, 'auto'), {}
    for o in (tens, tens2, other):
        yield 'tensor_circuit', (o,), {}
        yield 'tensor_circuit', (o, (new,) + tuple(reversed(q))), {}
    if n:
        yield 'delete_layers', (0,), {}
        yield 'delete_layers', (-1 if n == 1 else [0, n - 1],), {}
        yield 'delete_layers', (slice(0, 1),), {}
        if n > 1: yield 'delete_layers', ([n - 1, 0],), {}
        if n > 2: yield 'delete_layers', ((1, 2, 0),), {}; yield 'delete_layers', ([2, 0],), {}; yield 'clear_labels', ([2, 0], a), {}
        yield 'delete_layers', (slice(1, None),), {}
        yield 'delitem', (n - 1,), {}
    yield 'delete_layers', (None,), {}
    for kw in ({}, {'delete_straddlers': True}):
        for ls in (a, (b,), q, ()): yield 'delete_lines', (ls,), kw
    yield 'delitem', ((None, a),), {}
    for v in (tuple(reversed(q)), q + ((new,) if new not in q else ()), q[:1], q[1:]) + (((new,) + q,) if new not in q else ()): yield 'setlines', (v,), {}
    yield 'reorder_lines', (tuple(reversed(q)),), {}
    yield 'delete_idling_lines', (), {}
    for l in sorted(set((a, b))): yield 'replace_with_idling_line', (l,), {}
    yield 'replace_gatename_inplace', ('Gx', 'Gr'), {}
    yield 'map_names_inplace', ('dict',), {}
    yield 'map_names_inplace', ('func',), {}
    yield 'map_state_space_labels_inplace', ('dict',), {}
    yield 'map_state_space_labels_inplace', ('func',), {}
    for m in ('reverse', 'clear', 'delete_idle_layers', 'shift_gates_forward', 'compress_depth', 'expand_subcircuits', 'factorize_repetitions', 'refreeze', 'setstr'):
        yield m, (), {}
    yield 'combine_oneQgates', (), {}
    yield 'change_gate_library', (False,), {}
    yield 'change_gate_library', (True,), {}


NMAP = {'Gx': 'Gm1', 'Gy': 'Gx', 'Gc': 'Gc2'}


def apply_ref(r, op, args, kw):
    if op == 'setitem':
        key = args[1]
        return r.set_labels(args[0], key[0], key[1]) if isinstance(key, tuple) else r.set_labels(args[0], key % len(r.layers), None)
    if op == 'delitem':
        k = args[0]
        return r.delete_lines(k[1], True) if isinstance(k, tuple) else r.delete_layers(k)
    if op == 'append_labels_as_lines':
        if isinstance(args[0], Ref): return r.insert_labels_as_lines(args[0].layers, args[1], None, args[0].lines)
        return r.insert_labels_as_lines(args[0], args[1], None, args[2])
    if op == 'replace_gatename_inplace': return r.rename(lambda n: args[1] if n == args[0] else n)
    if op == 'map_names_inplace': return r.rename(lambda n: NMAP.get(n, n))
    if op == 'map_state_space_labels_inplace':
        m = {q: ('S%s' % q) for q in r.lines}
        if any(not r.explicit(l) <= set(r.lines) for lay in r.layers for l in lay): raise Refuse()
        return r.relabel(lambda q: m[q])
    if op in ('refreeze', 'setstr'): return
    return getattr(r, op)(*copy.deepcopy(args), **kw)


def apply_real(c, r, op, args, kw):
    """r: the reference state before the operation"""
    def conv(x):
        if isinstance(x, Ref): return mk(x, editable=(len(x.layers) % 2 == 0))
        if isinstance(x, list) and (not x or isinstance(x[0], list)): return [lab(l) for l in x]
        return x
    if op in ('set_labels', 'setitem', 'insert_layer'):
        a0 = args[0]
        one = op != 'set_labels' or isinstance(args[1], int)
        v = lab(a0) if one and a0 else ([] if one else [lab(l) for l in a0])
        if op == 'setitem': c[args[1]] = v; return
        return getattr(c, op)(v, *args[1:])
    if op == 'delitem': del c[args[0]]; return
    if op == 'setlines': c.line_labels = args[0]; return
    if op == 'map_names_inplace': return c.map_names_inplace(dict(NMAP) if args[0] == 'dict' else (lambda n: NMAP.get(n, None)))
    if op == 'map_state_space_labels_inplace':
        m = {q: ('S%s' % q) for q in r.lines}
        return c.map_state_space_labels_inplace(m if args[0] == 'dict' else (lambda q: m[q]))
    if op == 'refreeze': c.done_editing(); return
    if op == 'setstr':
        if all(len(l) == 1 and l[0][0] == 'g' for l in r.layers) and r.layers: c.str = c.str
        return
    return getattr(c, op)(*[conv(x) for x in args], **kw)


def sequences(r, weight):
    """per-line words, for the operations that may reschedule or rewrite gates"""
    out = {q: [] for q in r.lines}
    for lay in r.layers:
        for l in lay:
            for w in weight(l):
                for q in r.on(w): out[q].append(w)
    return out


def zsum(words):
    """collapse runs of Gx-type one-qubit gates modulo 4"""
    W = {'Gx': 1, 'Gxx': 2, 'Gxxx': 3}
    out = {}
    for q, ws in words.items():
        seq = []; k = 0
        for w in ws:
            if w[0] == 'g' and w[1] in W and w[2] is not None and len(w[2]) == 1: k = (k + W[w[1]]) % 4
            else: seq += [k, lkey(w)]; k = 0
        out[q] = seq + [k]
    return out


def observations(c, r, ctx, hist, full=True):
    """every read-only query agrees with the reference"""
    n = len(r.layers); q = r.lines
    def ck(cond, what, got, want):
        return ctx.check(cond, 'query:%s:%s' % (what, hist), lambda: 'after %s: %s is %r, the reference says %r' % (hist, what, got, want))
    ck(len(c) == n and c.num_layers() == n, 'length', len(c), n)
    ck(c.number_of_lines() == len(q) and c.width() == len(q), 'width', c.width(), len(q))
    simple = all(l[0] == 'g' for lay in r.layers for l in lay)
    if simple:
        sz = sum(len(r.on(l)) for lay in r.layers for l in lay)
        ck(c.size() == sz, 'size', c.size(), sz)
        for k in (1, 2):
            w = sum(1 for lay in r.layers for l in lay if l[2] is not None and len(l[2]) == k)
            ck(c.nQgate_count(k) == w, 'nQgate_count%d' % k, c.nQgate_count(k), w)
        w = sum(1 for lay in r.layers for l in lay if l[2] is not None and len(l[2]) >= 2)
        ck(c.multiQgate_count() == w and c.depth() == n, 'multiQ/depth', (c.multiQgate_count(), c.depth()), (w, n))
    else:
        d = sum(max([len(xp(l)) for l in lay] + [0 if lay else 1]) for lay in r.layers)
        ck(c.depth() == d, 'depth', c.depth(), d)
    st = c.copy(editable=False)
    ck(read(st).key() == r.key(), 'frozen copy', st.str, r.key())
    for x in (c, st):
        t = 'static ' if x is st else ''
        for l in q:
            ck(x.is_line_idling(l) == r.idle(l), t + 'is_line_idling(%r)' % (l,), x.is_line_idling(l), r.idle(l))
        w = tuple(l for l in q if r.idle(l))
        ck(tuple(x.get_idling_lines()) == w, t + 'get_idling_lines', x.get_idling_lines(), w)
        if not simple: continue
        for ly in (([0, n - 1] if n else []) + [None, slice(None), slice(0, n), slice(1, None), slice(-1, None) if n else None, [n - 1, 0] if n else None] if full else [n - 1 if n else None, slice(1, None)]):
            for ls in ((None, q[:1], q[-1] if q else None, tuple(reversed(q))) if full else (q[:1], tuple(reversed(q)))):
                for strict in (True, False):
                    g = x.get_labels(ly, ls, strict)
                    lset = set(r.lin(ls))
                    want = [[l for l in r.layers[i] if (r.on(l) <= lset if strict else r.on(l) & lset)] for i in r.idx(ly)]
                    if isinstance(ly, int):
                        got = [from_obs(*observe(g))] if g is not None else [('l', (), (), None)]
                        got = [list(g0[1]) if g0[0] == 'l' else [g0] for g0 in got]
                        gl = None
                    else: rr = read(g); got = rr.layers; gl = rr.lines
                    if not r.lin(ls): continue
                    ok = [sorted(map(lkey, l)) for l in got] == [sorted(map(lkey, l)) for l in want]
                    if strict and gl is not None: ok = ok and tuple(gl) == tuple(r.lin(ls))
                    ck(ok, t + 'get_labels(%r,%r,%r)' % (ly, ls, strict), (got, gl), want)
        for i in range(n):
            lw = sorted(map(lkey, r.layers[i]))
            got = [from_obs(*observe(y)) for y in x.get_layer(i)]
            ck(sorted(map(lkey, got)) == lw, t + 'get_layer(%d)' % i, got, lw)
            occupied = set().union(*[r.on(l) for l in r.layers[i]]) if r.layers[i] else set()
            if r.layers[i] and r.layers[i][0][2] is not None:
                want = lw + [lkey(G('I', l)) for l in q if l not in occupied]
                got = [from_obs(*observe(y)) for y in x.get_layer_with_idles(i)]
                ck(sorted(map(lkey, got)) == sorted(want), t + 'get_layer_with_idles(%d)' % i, got, want)


def shards(tier):
    out = []
    for k, r in I0.items():
        n = len(list(operations(r, True)))
        step = 12 if tier == 'quick' else 3
        out += [(k, i, min(i + step, n)) for i in range(0, n, step)]
    return out


def run(shard, ctx):
    nm, lo, hi = shard
    depth = 2 if ctx.tier == 'quick' else 3
    r0 = I0[nm]
    ops0 = list(operations(r0, True))[lo:hi]
    seen = set()

    def step(r, c, op, hist, args, kw):
        """apply to both; returns (ref, real) or None when the history ends"""
        r2 = r.copy(); c2 = copy.deepcopy(c)
        h = hist + ' ; %s%s%s' % (op, show(args), kw or '')
        ctx.where = h; ctx.trans()
        if op in ('combine_oneQgates', 'change_gate_library'):
            rewriting(op, args, r2, c2, h); return None
        try: apply_ref(r2, op, args, kw); refused = False
        except Refuse: refused = True
        try: apply_real(c2, r, op, args, kw); err = None
        except (ValueError, AssertionError, IndexError, KeyError) as e: err = e
        if refused:
            ctx.check(err is not None, 'norefuse:' + h, lambda: '%s is contradictory but was accepted, leaving %s' % (h, c2.str)); return None
        if not ctx.check(err is None, 'refused:' + h, lambda: '%s refused: %s %s' % (h, type(err).__name__, err)): return None
        got = read(c2)
        if not ctx.check(got.key() == r2.key(), 'state:' + h, lambda: '%s leaves %r on %r, the reference %r on %r' % (h, got.layers, got.lines, r2.layers, r2.lines)): return None
        ctx.trace()
        return r2, c2, h

    def rewriting(op, args, r2, c2, h):
        before = r2.copy()
        if any(l[0] == 'c' for lay in r2.layers for l in lay): return
        if op == 'combine_oneQgates':
            c2.combine_oneQgates(CFR)
            a = zsum(sequences(before, lambda l: [l])); b = zsum(sequences(read(c2), lambda l: [l]))
            # (trailing separators: identity words compare equal)
            ctx.check(a == b, 'rewrite:' + h, lambda: '%s changed what the circuit does: %r -> %r' % (h, before.layers, read(c2).layers))
            c3 = mk(before); c3.compress_depth(oneQgate_relations=CFR)
            b = zsum(sequences(read(c3), lambda l: [l]))
            ctx.check(a == b and len(c3) <= len(before.layers), 'rewritec:' + h, lambda: '%s (compress_depth) changed what the circuit does: %r -> %r' % (h, before.layers, read(c3).layers))
        else:
            tab = {}
            for lay in before.layers:
                for l in lay:
                    if l[0] == 'g' and l[2] is not None:
                        if l[1] == 'Gx': tab[ctime(l)] = [[G('Gp', *l[2])], [G('Gq', *l[2], args=('5',))]]
                        if l[1] == 'Gc': tab[ctime(l)] = [[G('Gp', l[2][1])], [G('Gd', *l[2])], [G('Gq', l[2][0])]]
                        if l[1] == 'Gy': tab[ctime(l)] = []
            def sub(l): return [x for ly in tab[ctime(l)] for x in ly] if ctime(l) in tab else [l]
            comp = {}
            for lay in before.layers:
                for l in lay:
                    if ctime(l) in tab: comp[build(l)] = mk(Ref(tab[ctime(l)], before.lines), editable=False)
            full = all(ctime(l) in tab for lay in before.layers for l in lay)
            try: c2.change_gate_library(comp, allow_unchanged_gates=True, depth_compression=args[0])
            except ValueError as e:
                return ctx.fail('lib:' + h, '%s refused: %s' % (h, e))
            a = {q: list(map(lkey, w)) for q, w in sequences(before, sub).items()}
            b = {q: list(map(lkey, w)) for q, w in sequences(read(c2), lambda l: [l]).items()}
            ctx.check(a == b, 'lib:' + h, lambda: '%s: %r becomes %r' % (h, before.layers, read(c2).layers))
            if not full:
                c3 = mk(before)
                try: c3.change_gate_library(comp); ok = False
                except ValueError: ok = True
                ctx.check(ok, 'libmiss:' + h, lambda: '%s: a gate without compilation was accepted' % h)

    def explore(r, c, d, hist, ops):
        for op, args, kw in ops:
            res = step(r, c, op, hist, args, kw)
            if res is None: continue
            r2, c2, h = res
            k = (r2.key(), d, getattr(c2, '_static'))
            if op == 'refreeze' and d > 0:
                frozen(c2, r2, h, ctx); continue
            if k in seen: continue
            seen.add(k); ctx.state(r2.key())
            if c2._static: frozen(c2, r2, h, ctx); continue
            if r2.lines: observations(c2, r2, ctx, h, d == 0 or depth == 3 and d == 1)
            if d + 1 < depth and len(r2.layers) <= 7:
                nxt = operations(r2, False)
                if d + 2 == 3: nxt = (o for i, o in enumerate(nxt) if i % 3 == 0)
                explore(r2, c2, d + 1, h, nxt)
    c = mk(r0)
    if lo == 0:
        assert read(c).key() == r0.key()
        observations(c, r0, ctx, nm)
    explore(r0, c, 0, nm, ops0)
    ctx.sample('%s ; %s%s ; ...' % (nm, ops0[0][0], show(ops0[0][1])))


def frozen(c, r, h, ctx):
    """a frozen circuit refuses every label edit and holds the same labels"""
    k = read(c).key()
    for f in (lambda: c.insert_layer([], 0), lambda: c.set_labels([], 0), lambda: c.delete_layers(None), lambda: c.clear_labels(), lambda: c.append_idling_layers(1),
              lambda: c.reverse(), lambda: c.clear(), lambda: c.compress_depth(), lambda: c.delete_lines(r.lines), lambda: c.map_names_inplace({'Gx': 'Gy'}),
              lambda: c.map_state_space_labels_inplace({q: q for q in r.lines}), lambda: c.expand_subcircuits(), lambda: c.factorize_repetitions()):
        try: f(); ok = False
        except (AssertionError, ValueError): ok = True
        ctx.check(ok and read(c).key() == k, 'frozen:' + h, lambda: '%s: a frozen circuit was edited' % h)


def show(args):
    def s(x):
        if isinstance(x, Ref): return '<%s@%s>' % (''.join('[%s]' % ' '.join(map(s, l)) for l in x.layers), ','.join(map(str, x.lines)))
        if isinstance(x, list): return '[%s]' % ','.join(map(s, x))
        if isinstance(x, tuple) and x and x[0] == 'g': return str(build(x))
        return repr(x)
    return '(%s)' % ', '.join(map(s, args))
