"""The default storage: nodes in boxes.  Allocation binds an identifier to a node until it is released or dropped."""
from absint.harness import *
from absint.builtins import free_box, rd


class BX:
    def __init__(self, ck):
        self.ck = ck; self.p = ck.p; self.rep = ck.rep or Rep(ck.p)
        self.I = ck.interp()
        self.I.handlers['drop_box'] = self.drop_box
        self.I.drop_hook = self.on_drop

    def drop_box(self, I, st, v, ty, fr):
        """drop of a box: its content first, then the memory (which is freed in any case)"""
        if type(v) is not tuple or v[0] != 'R': raise Stuck('box value %r' % (v,))
        c = st.get(v[1], v[2])
        free_box(I, st, v)
        a = ('tmp', st.fresh('d'))
        st.mem[a] = c
        t = ty['args'][0]
        I.push_drop(st, [(a, (), t, None)], 'stay', fr.unw)

    def on_drop(self, I, st, v):
        st.ev.append(('dropT', v[1]))
        return None

    def leaf(self, tag): return self.rep.node('leaf', self.rep.leaf(NONE, [T(tag + str(i)) for i in range(3)]))

    def internal(self, tag): return self.rep.node('internal', self.rep.internal(NONE, N('c'), [(T(tag), N('d'))]))

    def m(self, name, trait='storage::Storage', ty='storage::BoxStorage'): return self.ck.method(ty, name, trait)

    def one(self, j, st, key, args, label):
        """the only outcome of a call, or None"""
        outs = self.I.call_all([st], key, args)
        good = []
        for o in outs:
            j.exits += 1
            if o.kind == 'ret': good.append(o)
            elif o.kind == 'stuck': j.undecided.append('%s: %s' % (label, o.val))
            else: j.problems.append('%s: %s' % (label, o.val.msg if o.kind == 'bad' else '%s (%s)' % (o.kind, o.val)))
        if len(good) != 1: return None
        return good[0]


def boxes(ck):
    def base(j, twin=False):
        b = BX(ck)
        st = State()
        st.mem[('h', 'S')] = ('A', 0, ())
        S = ('R', ('h', 'S'), (), None)
        j.starts += 1
        n1, n2 = b.leaf('a'), (b.leaf('a') if twin else b.internal('b'))
        o = b.one(j, st, b.m('allocate_node'), [S, n1], 'allocate_node')
        if o is None: return None
        i1 = o.val
        o = b.one(j, o.st, b.m('allocate_node'), [S, n2], 'allocate_node')
        if o is None: return None
        return b, o.st, S, n1, n2, i1, o.val

    def content(b, st, r):
        if type(r) is not tuple or r[0] != 'R': raise Stuck('reference expected')
        return rd(st, r)

    def bound(b, j, st, S, i, n, label):
        """the identifier maps to the node through get and get_mut"""
        for g in ('get', 'get_mut'):
            o = b.one(j, st.copy(), b.m(g), [S, i], g)
            if o is None: return
            if o.val[0] != 'R' or o.val[1][0] != 'box': j.problems.append('%s: not a node of the storage' % g); return
            if content(b, o.st, o.val) != n: j.problems.append('%s: %s does not return the node bound to the identifier' % (label, g))
            if o.st.gh.get('dead') != st.gh.get('dead') or any(e[0] in ('dropT', 'free') for e in o.st.ev[len(st.ev):]): j.problems.append('%s: %s frees or drops something' % (label, g))

    def alloc(j):
        r = base(j)
        if r is None: return
        b, st, S, n1, n2, i1, i2 = r
        if any(e[0] in ('dropT', 'free') for e in st.ev): j.problems.append('allocate_node: a node is freed or an item dropped')
        bound(b, j, st, S, i1, n1, 'allocate_node'); bound(b, j, st, S, i2, n2, 'allocate_node')
        # writing through one identifier changes that node only
        o = b.one(j, st.copy(), b.m('get_mut'), [S, i1], 'get_mut')
        if o is not None:
            n3 = b.leaf('e')
            o.st.set(o.val[1], o.val[2], n3)
            bound(b, j, o.st, S, i1, n3, 'after a write'); bound(b, j, o.st, S, i2, n2, 'after a write')

    def release(j):
        for which in (0, 1):
            r = base(j)
            if r is None: return
            b, st, S, n1, n2, i1, i2 = r
            k = len(st.ev)
            o = b.one(j, st, b.m('release_node'), [S, (i1, i2)[which]], 'release_node')
            if o is None: return
            ev = o.st.ev[k:]
            if o.val != (n1, n2)[which]: j.problems.append('release_node: the node that was bound to the identifier is not returned')
            if [e[0] for e in ev if e[0] == 'dropT']: j.problems.append('release_node: an item is dropped')
            if len([e for e in ev if e[0] == 'free']) != 1: j.problems.append('release_node: the memory of the node is freed %d times' % len([e for e in ev if e[0] == 'free']))
            bound(b, j, o.st, S, (i2, i1)[which], (n2, n1)[which], 'release_node')

    def drop_node(j):
        for which in (0, 1):
            r = base(j)
            if r is None: return
            b, st, S, n1, n2, i1, i2 = r
            o = b.one(j, st, b.m('start_dropping'), [S], 'start_dropping')
            if o is None: return
            if o.val == NONE: j.problems.append('start_dropping: no dropper, although nothing else frees the nodes'); return
            if any(e[0] in ('dropT', 'free') for e in o.st.ev): j.problems.append('start_dropping: a node is freed')
            s = o.st
            s.mem[('h', 'D')] = o.val[2][0]
            k = len(s.ev)
            o = b.one(j, s, b.m('drop_node', 'storage::Dropper', 'storage::BoxDrop'), [('R', ('h', 'D'), (), None), (i1, i2)[which]], 'drop_node')
            if o is None: return
            ev = o.st.ev[k:]
            want = ['a0', 'a1', 'a2'] if which == 0 else ['b']
            got = sorted(e[1] for e in ev if e[0] == 'dropT')
            if got != want: j.problems.append('drop_node: the items dropped are %s where %s are expected' % (got, want))
            if len([e for e in ev if e[0] == 'free']) != 1: j.problems.append('drop_node: the memory of the node is freed %d times' % len([e for e in ev if e[0] == 'free']))
            bound(b, j, o.st, S, (i2, i1)[which], (n2, n1)[which], 'drop_node')

    def ids(j):
        r = base(j, True)
        if r is None: return
        b, st, S, n1, n2, i1, i2 = r
        for x in (i1, i2):
            for y in (i1, i2):
                s = st.copy()
                s.mem[('h', 'x')] = x; s.mem[('h', 'y')] = y
                o = b.one(j, s, ck.method('storage::BoxPtr', 'eq', 'std::cmp::PartialEq'), [('R', ('h', 'x'), (), None), ('R', ('h', 'y'), (), None)], 'eq')
                if o is not None and bool(norm(o.st, o.val)) != (x is y): j.problems.append('eq: %s identifiers compare %s' % ('equal' if x is y else 'different', 'different' if x is y else 'equal'))
            s = st.copy(); s.mem[('h', 'x')] = x
            o = b.one(j, s, ck.method('storage::BoxPtr', 'clone', 'std::clone::Clone'), [('R', ('h', 'x'), (), None)], 'clone')
            if o is not None and o.val != x: j.problems.append('clone: another identifier')

    for n, f in (('allocate_node, get and get_mut', alloc), ('release_node', release), ('start_dropping and drop_node', drop_node), ('identifiers', ids)):
        ck.run('BoxStorage: ' + n, 'storage::BoxStorage', f)


def overrides(ck):
    """implementations of the storage trait only provide the required methods (the analyses use the provided ones)"""
    def g(j):
        tr = [t for t in ck.p.d['traits'] if t['path'] == 'storage::Storage']
        if not tr: raise Missing('storage::Storage')
        prov = {i['name'] for i in tr[0]['items'] if i['default']}
        for i in ck.p.d['impls']:
            if i.get('trait_path') == 'storage::Storage':
                j.starts += 1; j.exits += 1
                o = prov & set(i['items'])
                if o: j.undecided.append('%s replaces %s' % (i['self_ty'], ', '.join(sorted(o))))
    ck.run('implementations of Storage', 'storage::Storage', g)
