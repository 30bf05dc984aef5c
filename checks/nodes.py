"""C02 (and C09, C10 clauses): operations of single nodes, from every occupancy, offset and index."""
from absint.harness import *
from itertools import product

P = N('parent')
KINDS = ('leaf', 'internal')


class Nd:
    """a concrete-shape node of opaque items and child links: the oracle's view"""

    def __init__(self, kind, parent, items, children=()):
        self.kind = kind; self.parent = parent; self.items = list(items); self.children = list(children)

    def __eq__(self, o): return (self.kind, self.parent, self.items, self.children) == (o.kind, o.parent, o.items, o.children)

    def __repr__(self):
        s = []
        for i, x in enumerate(self.items):
            if self.kind == 'internal': s.append(self.children[i])
            s.append(x)
        if self.kind == 'internal': s.append(self.children[-1])
        return '%s(parent %s: %s)' % (self.kind, self.parent, ' '.join(str(x) for x in s))


def mk(kind, n, parent=None, p='x', c='c'):
    return Nd(kind, parent, ['%s%d' % (p, i) for i in range(n)], ['%s%d' % (c, i) for i in range(n + 1)] if kind == 'internal' else ())


class H:
    def __init__(self, ck):
        self.ck = ck; self.p = ck.p; self.rep = ck.rep
        self.I = ck.interp()
        r = self.rep
        self.paths = {'leaf': r.leaf_path, 'internal': r.int_path, 'node': r.node_path}
        self.tyNode = r.find_type(r.node_path)
        t = self.p.types[self.tyNode]
        self.ty = {'leaf': t['variants'][r.v_leaf]['fields'][0]['ty'], 'internal': t['variants'][r.v_internal]['fields'][0]['ty'], 'node': self.tyNode}
        self.tyT = [i for i, x in enumerate(self.p.types) if x['k'] == 'param' and x['name'] == 'T'][0]
        self.cap = {'leaf': r.leaf_cap, 'internal': r.int_cap}
        self.min = {'leaf': r.leaf_min, 'internal': r.int_min}
        self.max = {'leaf': r.leaf_max, 'internal': r.int_max}

    def key(self, cls, name, trait=None): return self.ck.method(self.paths[cls], name, trait)

    def val(self, nd, wrap):
        par = opt(None if nd.parent is None else N(nd.parent))
        if nd.kind == 'leaf': v = self.rep.leaf(par, [T(x) for x in nd.items])
        else: v = self.rep.internal(par, N(nd.children[0]), [(T(x), N(c)) for x, c in zip(nd.items, nd.children[1:])])
        return self.rep.node(nd.kind, v) if wrap else v

    def rd(self, st, v, wrap=None):
        """abstract value -> Nd"""
        if wrap is None: wrap = False
        if wrap:
            if type(v) is not tuple or v[0] != 'A': raise Problem('no node where one is expected')
            kind = 'leaf' if v[1] == self.rep.v_leaf else 'internal'
            v = v[2][0]
        else: kind = 'leaf' if len(v[2]) == len(self.rep.leaf_fields) and 'first' not in self.rep.leaf_fields and len(v[2]) == 2 else 'internal'
        if kind == 'leaf':
            par, items = self.rep.rd_leaf(st, v)
            return Nd('leaf', self.nopt(par), [self.tok(x) for x in items])
        par, ch, items = self.rep.rd_internal(st, v)
        return Nd('internal', self.nopt(par), [self.tok(x) for x in items], [self.nid(c) for c in ch])

    def tok(self, v):
        if type(v) is not tuple or v[0] != 'T': raise Problem('no item where one is expected: %r' % (v,))
        return v[1]

    def nid(self, v):
        if type(v) is not tuple or v[0] != 'N': raise Problem('no node identifier where one is expected: %r' % (v,))
        return v[1]

    def nopt(self, v):
        if type(v) is not tuple or v[0] != 'A': raise Problem('an Option is expected')
        return None if v[1] == 0 else self.nid(v[2][0])

    def topt(self, v):
        if type(v) is not tuple or v[0] != 'A': raise Problem('an Option is expected')
        return None if v[1] == 0 else v[2][0]

    def ref(self, slot='n'): return ('R', ('h', slot), (), None)

    def deref(self, st, r):
        if type(r) is not tuple or r[0] != 'R': raise Problem('a reference is expected')
        return st.get(r[1], r[2])

    def offset(self, n): return ('A', 0, (USIZE_MAX if n is None else n,))

    def rdoff(self, v):
        while type(v) is tuple and v[0] == 'A': v = v[2][0]
        if type(v) is not int: raise Undecided('offset')
        return None if v == USIZE_MAX else v


OWN = False     # C01 asks for the ownership of the items only: what else an operation does is not judged


def expect(got, want, what):
    if OWN: return
    if got != want: raise Problem('%s is %s where %s is expected' % (what, got, want))


class Ob:
    """one obligation: an operation of one class (leaf, internal or node)"""

    def __init__(self, ck, cls, fname, desc, trait=None):
        self.ck = ck; self.cls = cls; self.fname = fname; self.desc = desc; self.trait = trait

    def __call__(self, f):
        def g(j):
            h = H(self.ck)
            self.h = h; self.j = j
            self.key = h.key(self.cls, self.fname, self.trait)
            f(self)
        self.ck.run('%s %s: %s' % (self.cls, self.fname, self.desc), '%s::%s' % (self.cls, self.fname), g)

    def run(self, nd, args, check, label='', allow=('ret',), byval=False, more=None, handlers=None):
        """nd: receiver; check(o, st, result node or None)"""
        h = self.h
        if OWN: return self.owned(nd, args, label, more)
        st = State()
        wrap = self.cls == 'node'
        if nd is not None and not byval: st.mem[('h', 'n')] = h.val(nd, wrap)
        for k, v in (more or {}).items(): st.mem[('h', k)] = v
        self.j.starts += 1
        a = ([h.ref()] if nd is not None and not byval else []) + list(args)
        n0 = h.I.steps
        outs = h.I.call_all([st], self.key, a)
        self.j.steps += h.I.steps - n0

        def c(o):
            now = h.rd(o.st, o.st.mem[('h', 'n')], wrap) if nd is not None and not byval else None
            check(o, now)
        self.j.outs(h.I, outs, c, '%s %s' % (nd, label), allow)

    def owned(self, nd, args, label, more=None):
        """every item that was in the node or was given is afterwards in the node, in the result, or dropped: once"""
        h = self.h
        st = State()
        wrap = self.cls == 'node'
        if nd is not None: st.mem[('h', 'n')] = h.val(nd, wrap)
        for k, v in (more or {}).items(): st.mem[('h', k)] = v
        toks = list(nd.items) if nd is not None else []

        def given(v):
            if type(v) is not tuple: return
            if v and v[0] == 'T': toks.append(v[1])
            elif v and v[0] in ('A', 'V'):
                for x in v[-1]: given(x)
        for a in args: given(a)
        self.j.starts += 1
        n0 = h.I.steps
        outs = h.I.call_all([st], self.key, ([h.ref()] if nd is not None else []) + list(args))
        self.j.steps += h.I.steps - n0
        out = [i for i in self.ck.p.items if i['key'] == self.key][0]['output']
        leak = self.fname == 'forget'

        def c(o):
            made = ['clone(%s)' % x for k, x in [e[:2] for e in o.st.ev if e[0] == 'clone']]
            vals = [(o.st.mem[('h', 'n')], h.ty[self.cls])] if nd is not None else []
            if o.kind == 'ret': vals.append((o.val, out))
            else: vals = vals[:1]
            if drops(o.st) and o.kind == 'ret' and leak: raise Problem('forgetting a node drops items')
            check_owned(drop_all(h.I, o.st, vals), toks + made, leak or o.kind != 'ret')
        self.j.outs(h.I, outs, c, '%s %s' % (nd, label), ('ret', 'unw'))

    def own(self, o, toks, extra=(), leak=False):
        """drop what the caller still owns: every item exactly once"""
        h = self.h
        vals = list(extra)
        if ('h', 'n') in o.st.mem: vals.append((o.st.mem[('h', 'n')], h.ty[self.cls]))
        st = drop_all(h.I, o.st, vals)
        check_owned(st, toks, leak)

    def item(self, name): return (T(name), self.h.tyT)


def same(a, b, what='the node'):
    expect(repr(a), repr(b), what)


def classes(kinds=KINDS):
    """(class, kind) pairs under which an operation is exercised"""
    return [(k, k) for k in kinds] + [('node', k) for k in kinds]


def accessors(ck):
    for cls, kind in classes():
        full = None

        def rng(h): return range(0, h.cap[kind] + 1)

        def simple(fname, desc, want, args=lambda nd: [()], conv=lambda h, o: o.val, lo=0, cls=cls, kind=kind):
            @Ob(ck, cls, fname, desc + ' (%s)' % kind)
            def _(ob):
                for n in range(lo, ob.h.cap[kind] + 1):
                    for par in (None, 'parent'):
                        nd = mk(kind, n, par)
                        for a in args(nd):
                            def c(o, now):
                                expect(conv(ob.h, o), want(nd, *a), 'the result')
                                same(now, nd)
                                if drops(o.st): raise Problem('an accessor drops items')
                            ob.run(nd, a, c, '%s%r' % (fname, a))
        simple('item_count', 'number of items', lambda nd: len(nd.items))
        simple('parent', 'the parent link', lambda nd: nd.parent, conv=lambda h, o: h.nopt(o.val))
        if kind == 'internal' or cls == 'node':
            simple('child_count', 'number of children', lambda nd: len(nd.children))
        if kind == 'internal':
            simple('child_id', 'the i-th child', lambda nd, i: nd.children[i], args=lambda nd: [(i,) for i in range(len(nd.children))], conv=lambda h, o: h.nid(o.val))
            simple('child_id_opt', 'the i-th child, if any', lambda nd, i: nd.children[i] if i < len(nd.children) else None,
                   args=lambda nd: [(i,) for i in range(len(nd.children) + 2)], conv=lambda h, o: h.nopt(o.val))
            simple('child_index', 'the index of a child', lambda nd, i: nd.children.index(i[1]) if i[1] in nd.children else None,
                   args=lambda nd: [(N(c),) for c in nd.children + ['other']], conv=lambda h, o: h.topt(o.val))

            def seps(h, o):
                a, b = o.val[2]
                return tuple(None if h.topt(x) is None else h.tok(h.deref(o.st, h.topt(x))) for x in (a, b))
            simple('separators', 'the items around a child', lambda nd, i: (nd.items[i - 1] if i > 0 else None, nd.items[i] if i < len(nd.items) else None),
                   args=lambda nd: [(i,) for i in range(len(nd.children))], conv=seps)
        if cls == 'internal':
            simple('first_child_id', 'the first child', lambda nd: nd.children[0], conv=lambda h, o: h.nid(o.val))
        if cls == 'node' and kind == 'leaf':
            simple('child_id_opt', 'no child', lambda nd, i: None, args=lambda nd: [(0,), (1,)], conv=lambda h, o: h.nopt(o.val))
            simple('child_index', 'no child', lambda nd, i: None, args=lambda nd: [(N('other'),)], conv=lambda h, o: h.topt(o.val))

        simple('is_overflowing', 'more items than allowed', lambda nd, m=ck.rep: int(len(nd.items) > (m.leaf_max if nd.kind == 'leaf' else m.int_max)))
        simple('is_underflowing', 'fewer items than allowed', lambda nd, m=ck.rep: int(len(nd.items) < (m.leaf_min if nd.kind == 'leaf' else m.int_min)))

        def bal(h, o):
            return (o.val[1],) + tuple(o.val[2])
        bt = [t for t in ck.p.types if t['k'] == 'adt' and t.get('kind') == 'enum' and t.get('local') and t['path'].split('::')[-1] == 'Balance']
        if bt:
            vn = {v['name']: i for i, v in enumerate(bt[0]['variants'])}

            def want(nd, m=ck.rep, vn=vn):
                n = len(nd.items)
                hi, lo = (m.leaf_max, m.leaf_min) if nd.kind == 'leaf' else (m.int_max, m.int_min)
                return (vn['Overflow'],) if n > hi else (vn['Underflow'], int(n == 0)) if n < lo else (vn['Balanced'],)
            simple('balance', 'overflow, underflow (empty or not) or balanced', want, conv=bal)

        def itm(h, o):
            v = h.topt(o.val)
            return None if v is None else (h.tok(h.deref(o.st, v)), v[1][0] == 'h')
        for nm in ('item', 'item_mut'):
            simple(nm, 'the item at an offset, if any', lambda nd, o: (nd.items[o[2][0]], True) if o[2][0] < len(nd.items) else None,
                   args=lambda nd: [(('A', 0, (i,)),) for i in list(range(len(nd.items) + 2)) + [USIZE_MAX]], conv=itm)
    # Leaf::items, iter ; Internal::branches

    @Ob(ck, 'leaf', 'items', 'the item buffer')
    def _(ob):
        for n in range(ob.h.cap['leaf'] + 1):
            nd = mk('leaf', n)

            def c(o, now):
                expect([ob.h.tok(x) for x in ob.h.rep.rd_array(o.st, ob.h.deref(o.st, o.val))], nd.items, 'the items'); same(now, nd)
            ob.run(nd, (), c)

    @Ob(ck, 'leaf', 'iter', 'iterates over the items in order')
    def _(ob):
        for n in range(ob.h.cap['leaf'] + 1):
            nd = mk('leaf', n)

            def c(o, now):
                it = o.val
                if it[0] != 'SI': raise Undecided('iterator kind')
                expect([ob.h.tok(o.st.get(it[1], it[2] + (i,))) for i in range(it[3], it[4])], nd.items, 'the items'); same(now, nd)
            ob.run(nd, (), c)

    @Ob(ck, 'internal', 'branches', 'the items with their right children')
    def _(ob):
        r = ob.h.rep
        for n in range(ob.h.cap['internal'] + 1):
            nd = mk('internal', n)

            def c(o, now):
                s = o.val
                if s[0] != 'R' or s[3] is None: raise Undecided('slice')
                bs = [o.st.get(s[1], s[2] + (s[3][0] + i,)) for i in range(s[3][1])]
                expect([(b[2][r.br_fields['item']][1], b[2][r.br_fields['child']][1]) for b in bs], list(zip(nd.items, nd.children[1:])), 'the branches')
                same(now, nd)
            ob.run(nd, (), c)


ITERATORS = ('std::iter::Iterator', 'std::iter::DoubleEndedIterator', 'std::iter::ExactSizeIterator')


def walk(ob, nd, st, it, nxt, conv, want, label, slot='it', over=True):
    """call next() on an iterator value until exhaustion (and once more)"""
    h = ob.h
    st = st.copy(); st.fr = []
    st.mem[('h', slot)] = it
    want = list(want)
    for k, w in enumerate(want + [None, None]):
        if over: overridden(ob, nd, st, nxt, conv, want[k:], label, slot)
        st = step(ob, st, nxt, [('R', ('h', slot), (), None)], conv, w, 'the yielded element', label)
        if st is None: return
    same(h.rd(st, st.mem[('h', 'n')], ob.cls == 'node'), nd)


def step(ob, st, key, args, conv, w, what, label):
    """one call that returns an optional element; the state after it"""
    outs = ob.h.I.call_all([st], key, args)
    ok = []

    def c(o):
        v = ob.h.topt(o.val)
        expect(None if v is None else conv(ob.h, o, v), w, what)
        ok.append(o)
    ob.j.outs(ob.h.I, outs, c, label)
    if len(ok) != 1: return None
    st = ok[0].st.copy(); st.fr = []
    return st


def overridden(ob, nd, st, nxt, conv, rest, label, slot):
    """provided methods that the iterator overrides, compared with what they are defined to do"""
    p = ob.ck.p
    me = [i for i in p.items if i['key'] == nxt][0]
    ty = (me.get('self_ty') or '').split('<')[0]
    ref = ('R', ('h', slot), (), None)
    for i in p.items:
        if i.get('trait_path') not in ITERATORS or (i.get('self_ty') or '').split('<')[0] != ty or i['name'] == 'next': continue
        name = i['name']; n = len(rest); s = st.copy()
        w = '%s: %s with %d remaining elements' % (label, name, n)
        it = s.mem[('h', slot)]
        go = lambda o, left: walk(ob, nd, o, o.mem[('h', slot)], nxt, conv, left, w, slot, False)
        if name in ('count', 'last'): s.mem[('h', slot)] = U
        if name in ('count', 'len', 'size_hint'):
            def c(o):
                v = o.val
                if name != 'size_hint': expect(norm(o.st, v), n, 'the number of remaining elements'); return
                lo, hi = norm(o.st, v[2][0]), ob.h.topt(v[2][1])
                if type(lo) is int and lo > n or hi is not None and type(norm(o.st, hi)) is int and norm(o.st, hi) < n: raise Problem('size_hint does not enclose the number of remaining elements')
            ob.j.outs(ob.h.I, ob.h.I.call_all([s], i['key'], [it if name == 'count' else ref]), c, w)
        elif name == 'last': step(ob, s, i['key'], [it], conv, rest[-1] if rest else None, 'the last element', w)
        elif name == 'nth':
            for k in range(n + 2):
                o = step(ob, s.copy(), i['key'], [ref, k], conv, rest[k] if k < n else None, 'the element skipped to', w)
                if o is not None: go(o, rest[k + 1:])
        elif name == 'next_back':
            left = list(rest); o = s
            for _ in range(n + 1):
                o = step(ob, o, i['key'], [ref], conv, left[-1] if left else None, 'the element from the back', w)
                if o is None: break
                left = left[:-1]
                go(o, left)
                o.mem[('h', slot)] = o.mem[('h', slot)]
        else: ob.j.undecided.append('%s overrides %s' % (ty, name))


def children(ck):
    for cls, kind in (('internal', 'internal'), ('node', 'internal'), ('node', 'leaf')):
        @Ob(ck, cls, 'children', 'iterates over the child links in order (%s)' % kind)
        def _(ob):
            out = [i for i in ck.p.items if i['key'] == ob.key][0]['output']
            nxt = ck.method(ck.p.types[out]['path'], 'next', 'std::iter::Iterator')
            for n in range(ob.h.cap[kind] + 1):
                nd = mk(kind, n)

                def c(o, now):
                    walk(ob, nd, o.st, o.val, nxt, lambda h, o, v: h.nid(v), nd.children, repr(nd))
                ob.run(nd, (), c)

        @Ob(ck, cls, 'children_with_separators', 'iterates over the child links with the items around them (%s)' % kind)
        def _(ob):
            out = [i for i in ck.p.items if i['key'] == ob.key][0]['output']
            nxt = ck.method(ck.p.types[out]['path'], 'next', 'std::iter::Iterator')
            for n in range(ob.h.cap[kind] + 1):
                nd = mk(kind, n)

                def conv(h, o, v):
                    l, ch, r = v[2]
                    f = lambda x: None if h.topt(x) is None else h.tok(h.deref(o.st, h.topt(x)))
                    return (f(l), h.nid(ch), f(r))
                want = [(nd.items[i - 1] if i > 0 else None, ch, nd.items[i] if i < len(nd.items) else None) for i, ch in enumerate(nd.children)]

                def c(o, now):
                    walk(ob, nd, o.st, o.val, nxt, conv, want, repr(nd))
                ob.run(nd, (), c)


def edits(ck):
    for cls, kind in classes():
        wrap = cls == 'node'

        @Ob(ck, cls, 'set_parent', 'sets the parent link only (%s)' % kind)
        def _(ob):
            for n in range(ob.h.cap[kind] + 1):
                for par in (None, 'parent'):
                    for q in (None, 'q'):
                        nd = mk(kind, n, par); w = mk(kind, n, q)

                        def c(o, now):
                            same(now, w); ob.own(o, nd.items)
                        ob.run(nd, (opt(None if q is None else N(q)),), c)

        @Ob(ck, cls, 'forget', 'drops no item and leaves none (%s)' % kind)
        def _(ob):
            for n in range(ob.h.cap[kind] + 1):
                nd = mk(kind, n, 'parent')

                def c(o, now):
                    if drops(o.st): raise Problem('forgetting a node drops items')
                    expect(now.items, [], 'the remaining items')
                    st = drop_all(ob.h.I, o.st, [(o.st.mem[('h', 'n')], ob.h.ty[cls])])
                    if drops(st): raise Problem('dropping a forgotten node drops items')
                ob.run(nd, (), c)

        @Ob(ck, cls, 'split', 'splits around the median (%s)' % kind)
        def _(ob):
            h = ob.h
            for n in range(h.max[kind] + 1, h.cap[kind] + 1):
                for par in (None, 'parent'):
                    nd = mk(kind, n, par)

                    def c(o, now):
                        ln, med, right = o.val[2]
                        r = h.rd(o.st, right, wrap)
                        m = h.tok(med)
                        expect(now.items + [m] + r.items, nd.items, 'the left items, the median and the right items')
                        expect(now.children + r.children, nd.children, 'the left and right children')
                        if kind == 'internal':
                            expect((len(now.children), len(r.children)), (len(now.items) + 1, len(r.items) + 1), 'the number of children on each side')
                        expect(ln, len(now.items), 'the returned length')
                        expect((now.parent, r.parent), (par, par), 'the parent links')
                        for x in (now, r):
                            if not h.min[kind] <= len(x.items) <= h.max[kind]: raise Problem('a half holds %d items' % len(x.items))
                        ob.own(o, nd.items, [ob.item(m), (right, h.ty[cls])])
                    ob.run(nd, (), c, 'split')

        @Ob(ck, cls, 'append', 'appends the separator and the other node (%s)' % kind)
        def _(ob):
            h = ob.h
            for n in range(h.cap[kind]):
                for m in range(h.cap[kind] - n):
                    nd = mk(kind, n, 'parent'); other = mk(kind, m, 'parent', 'y', 'd')

                    def c(o, now):
                        same(now, Nd(kind, 'parent', nd.items + ['s'] + other.items, nd.children + other.children))
                        expect(h.rdoff(o.val), n, 'the offset of the separator')
                        ob.own(o, nd.items + ['s'] + other.items)
                    ob.run(nd, (T('s'), h.val(other, wrap)), c, 'append %s' % other)

        def childarg(v): return (opt(N(v)) if kind == 'internal' else NONE,) if wrap else ((N(v),) if kind == 'internal' else ())

        @Ob(ck, cls, 'push_left', 'adds an item and a first child on the left (%s)' % kind)
        def _(ob):
            for n in range(ob.h.cap[kind]):
                nd = mk(kind, n, 'parent')

                def c(o, now):
                    same(now, Nd(kind, 'parent', ['v'] + nd.items, (['d'] if kind == 'internal' else []) + nd.children))
                    ob.own(o, nd.items + ['v'])
                ob.run(nd, (T('v'),) + childarg('d'), c, 'push_left')

        @Ob(ck, cls, 'push_right', 'adds an item and a last child on the right (%s)' % kind)
        def _(ob):
            for n in range(ob.h.cap[kind]):
                nd = mk(kind, n, 'parent')

                def c(o, now):
                    same(now, Nd(kind, 'parent', nd.items + ['v'], nd.children + (['d'] if kind == 'internal' else [])))
                    expect(ob.h.rdoff(o.val), n, 'the offset')
                    ob.own(o, nd.items + ['v'])
                ob.run(nd, (T('v'),) + childarg('d'), c, 'push_right')

        for side in ('left', 'right'):
            @Ob(ck, cls, 'pop_' + side, 'takes the %s item and child unless that would underflow (%s)' % (side, kind))
            def _(ob):
                h = ob.h
                for n in range(h.cap[kind] + 1):
                    nd = mk(kind, n, 'parent')

                    def c(o, now):
                        r = o.val
                        if n - 1 < h.min[kind]:
                            if r[1] != 1: raise Problem('a pop that underflows the node is not refused')
                            same(now, nd); ob.own(o, nd.items); return
                        if r[1] != 0: raise Problem('a possible pop is refused')
                        v = r[2][0]
                        item = nd.items[0] if side == 'left' else nd.items[-1]
                        child = None if kind == 'leaf' else nd.children[0] if side == 'left' else nd.children[-1]
                        vals = [v] if v[0] == 'T' else list(v[2])
                        toks = [x for x in vals if type(x) is tuple and x[0] == 'T']
                        expect([x[1] for x in toks], [item], 'the popped item')
                        ids = []
                        offs = []
                        for x in vals:
                            if type(x) is tuple and x[0] == 'N': ids.append(x[1])
                            elif type(x) is tuple and x[0] == 'A':
                                if x[1] == 1 and x[2] and type(x[2][0]) is tuple and x[2][0][0] == 'N': ids.append(x[2][0][1])
                                elif x[2]: offs.append(h.rdoff(x))
                            elif type(x) is int: offs.append(x)
                        expect(ids, [child] if child else [], 'the popped child')
                        if side == 'right': expect(offs, [n - 1], 'the offset of the popped item')
                        if side == 'left': same(now, Nd(kind, 'parent', nd.items[1:], nd.children[1:]))
                        else: same(now, Nd(kind, 'parent', nd.items[:-1], nd.children[:-1]))
                        ob.own(o, nd.items, [ob.item(item)])
                    ob.run(nd, (), c, 'pop_' + side)

        @Ob(ck, cls, 'insert', 'inserts an item (and its right child) at an offset (%s)' % kind)
        def _(ob):
            for n in range(ob.h.cap[kind]):
                for i in range(n + 1):
                    nd = mk(kind, n, 'parent')

                    def c(o, now):
                        same(now, Nd(kind, 'parent', nd.items[:i] + ['v'] + nd.items[i:], nd.children[:i + 1] + ['d'] + nd.children[i + 1:] if kind == 'internal' else []))
                        ob.own(o, nd.items + ['v'])
                    ob.run(nd, (ob.h.offset(i), T('v')) + childarg('d'), c, 'insert at %d' % i)
    for cls in ('internal', 'node'):
        @Ob(ck, cls, 'replace', 'swaps the item at an offset')
        def _(ob):
            for n in range(1, ob.h.cap['internal'] + 1):
                for i in range(n):
                    nd = mk('internal', n, 'parent')

                    def c(o, now):
                        expect(ob.h.tok(o.val), nd.items[i], 'the replaced item')
                        same(now, Nd('internal', 'parent', nd.items[:i] + ['v'] + nd.items[i + 1:], nd.children))
                        ob.own(o, nd.items + ['v'], [ob.item(nd.items[i])])
                    ob.run(nd, (ob.h.offset(i), T('v')), c, 'replace at %d' % i)

        @Ob(ck, cls, 'merge', 'takes out the separator and the right child')
        def _(ob):
            h = ob.h
            bt = [t for t in ck.p.types if t['k'] == 'adt' and t.get('kind') == 'enum' and t.get('local') and t['path'].split('::')[-1] == 'Balance']
            vn = {v['name']: i for i, v in enumerate(bt[0]['variants'])}
            for n in range(1, h.cap['internal'] + 1):
                for i in range(n):
                    nd = mk('internal', n, 'parent')

                    def c(o, now):
                        off, l, r, sep, bal = o.val[2]
                        expect((h.rdoff(off), h.nid(l), h.nid(r), h.tok(sep)), (i, nd.children[i], nd.children[i + 1], nd.items[i]), 'the offset, left child, right child and separator')
                        same(now, Nd('internal', 'parent', nd.items[:i] + nd.items[i + 1:], nd.children[:i + 1] + nd.children[i + 2:]))
                        m = n - 1
                        w = (vn['Overflow'],) if m > h.max['internal'] else (vn['Underflow'], int(m == 0)) if m < h.min['internal'] else (vn['Balanced'],)
                        expect((bal[1],) + tuple(bal[2]), w, 'the balance')
                        ob.own(o, nd.items, [ob.item(nd.items[i])])
                    ob.run(nd, (i,), c, 'merge(%d)' % i)

    @Ob(ck, 'internal', 'remove', 'takes an item and its right child')
    def _(ob):
        h = ob.h
        for n in range(1, h.cap['internal'] + 1):
            for i in range(n):
                nd = mk('internal', n, 'parent')

                def c(o, now):
                    l, it, r = o.val[2]
                    expect((h.nid(l), h.tok(it), h.nid(r)), (nd.children[i], nd.items[i], nd.children[i + 1]), 'the result')
                    same(now, Nd('internal', 'parent', nd.items[:i] + nd.items[i + 1:], nd.children[:i + 1] + nd.children[i + 2:]))
                    ob.own(o, nd.items, [ob.item(nd.items[i])])
                ob.run(nd, (h.offset(i),), c, 'remove(%d)' % i)

    @Ob(ck, 'leaf', 'remove', 'takes the item at an offset')
    def _(ob):
        h = ob.h
        for n in range(1, h.cap['leaf'] + 1):
            for i in range(n):
                nd = mk('leaf', n, 'parent')

                def c(o, now):
                    expect(h.tok(o.val), nd.items[i], 'the result')
                    same(now, Nd('leaf', 'parent', nd.items[:i] + nd.items[i + 1:]))
                    ob.own(o, nd.items, [ob.item(nd.items[i])])
                ob.run(nd, (h.offset(i),), c, 'remove(%d)' % i)

    @Ob(ck, 'leaf', 'remove_last', 'takes the last item')
    def _(ob):
        h = ob.h
        for n in range(1, h.cap['leaf'] + 1):
            nd = mk('leaf', n, 'parent')

            def c(o, now):
                expect(h.tok(o.val), nd.items[-1], 'the result')
                same(now, Nd('leaf', 'parent', nd.items[:-1]))
                ob.own(o, nd.items, [ob.item(nd.items[-1])])
            ob.run(nd, (), c, 'remove_last')

    @Ob(ck, 'node', 'leaf_remove', 'removes from a leaf, or gives the left child of the item')
    def _(ob):
        h = ob.h
        for kind in KINDS:
            for n in range(h.cap[kind] + 1):
                for i in list(range(n + 2)) + [None]:
                    nd = mk(kind, n, 'parent')

                    def c(o, now):
                        v = h.topt(o.val)
                        if i is None or i >= n:
                            if v is not None: raise Problem('a removal outside the node is not refused')
                            same(now, nd); ob.own(o, nd.items); return
                        if v is None: raise Problem('a possible removal is refused')
                        if kind == 'leaf':
                            expect((v[1], v[2][0][1]), (0, nd.items[i]), 'the result')
                            same(now, Nd('leaf', 'parent', nd.items[:i] + nd.items[i + 1:]))
                            ob.own(o, nd.items, [ob.item(nd.items[i])])
                        else:
                            expect((v[1], v[2][0][1]), (1, nd.children[i]), 'the result')
                            same(now, nd); ob.own(o, nd.items)
                    ob.run(nd, (h.offset(i),), c, 'leaf_remove(%s)' % i)

    @Ob(ck, 'node', 'remove_rightmost_leaf', 'removes the last item of a leaf, or gives the last child')
    def _(ob):
        h = ob.h
        for kind in KINDS:
            for n in range(1, h.cap[kind] + 1):
                nd = mk(kind, n, 'parent')

                def c(o, now):
                    v = o.val
                    if kind == 'leaf':
                        expect((v[1], v[2][0][1]), (0, nd.items[-1]), 'the result')
                        same(now, Nd('leaf', 'parent', nd.items[:-1]))
                        ob.own(o, nd.items, [ob.item(nd.items[-1])])
                    else:
                        expect((v[1], v[2][0][1]), (1, nd.children[-1]), 'the result')
                        same(now, nd); ob.own(o, nd.items)
                ob.run(nd, (), c, 'remove_rightmost_leaf')


def builders(ck):
    def fresh(cls, fname, args, want, toks):
        @Ob(ck, cls, fname, 'builds a node')
        def _(ob):
            for par in (None, 'parent'):
                def c(o, now):
                    same(ob.h.rd(o.st, o.val, cls == 'node'), want(par), 'the new node')
                    ob.own(o, toks, [(o.val, ob.h.ty[cls])])
                ob.run(None, (opt(None if par is None else N(par)),) + tuple(args(ob.h)), c, 'parent %s' % par)
    for cls in ('internal', 'node'):
        fresh(cls, 'binary', lambda h: (N('l'), T('m'), N('r')), lambda p: Nd('internal', p, ['m'], ['l', 'r']), ['m'])
    fresh('leaf', 'from_item', lambda h: (T('m'),), lambda p: Nd('leaf', p, ['m']), ['m'])
    fresh('node', 'leaf', lambda h: (T('m'),), lambda p: Nd('leaf', p, ['m']), ['m'])
    fresh('leaf', 'new', lambda h: (h.rep.array([T('a'), T('b')], h.rep.leaf_cap),), lambda p: Nd('leaf', p, ['a', 'b']), ['a', 'b'])
    fresh('internal', 'new', lambda h: (N('l'), h.rep.array([h.rep.branch(T('a'), N('r'))], h.rep.int_cap)), lambda p: Nd('internal', p, ['a'], ['l', 'r']), ['a'])

    @Ob(ck, 'leaf', 'clone', 'clones every item', 'std::clone::Clone')
    def _(ob):
        for n in range(ob.h.cap['leaf'] + 1):
            nd = mk('leaf', n, 'parent')

            def c(o, now):
                same(now, nd)
                same(ob.h.rd(o.st, o.val), Nd('leaf', 'parent', ['clone(%s)' % x for x in nd.items]), 'the clone')
                ob.own(o, nd.items + ['clone(%s)' % x for x in nd.items], [(o.val, ob.h.ty['leaf'])])
            ob.run(nd, (), c)


def owned(ck, fname):
    """the obligations of one of the functions above, as far as the ownership of the items goes"""
    global OWN
    OWN = True
    globals()[fname](ck)


# ---------------------------------------------------------------- search (C09), replacement by key (C19)
def cmp_table(I, cx):
    """a comparison consistent with the order: Less/Equal/Greater from the ghost ranks"""
    st = cx.st
    a, b = (st.get(r[1], r[2]) for r in cx.args[1][2])
    if a[0] != 'T' or b[0] != 'T': raise Bad('the comparison is called on something that is not a live item')
    r = st.gh['rank']
    if a[1] not in r or b[1] not in r: raise Stuck('comparison of unknown items')
    x, y = r[a[1]], r[b[1]]
    return ordering((x > y) - (x < y))


def cmp_free(panics):
    def h(I, cx):
        st = cx.st
        for r in cx.args[1][2]:
            v = st.get(r[1], r[2])
            if v[0] != 'T': raise Bad('the comparison is called on something that is not a live item')
        c = st.gh.pop('choice', None)
        if c is None:
            st.gh['ncmp'] = st.gh.get('ncmp', 0) + 1
            if st.gh['ncmp'] > 200: raise Bad('more than 200 comparisons in one node', 'termination')
            raise Fork([(lambda s, k=k: s.gh.__setitem__('choice', k)) for k in ((-1, 0, 1, 'p') if panics and 'panicked' not in st.gh else (-1, 0, 1))])
        if c == 'p':
            st.gh['panicked'] = True
            raise Panic('comparison panicked')
        return ordering(c)
    return h


def free_cmp(ck, cls, fname, kind, f):
    pass


CMP = 'std::ops::Fn::call'


def set_cmp(h, f):
    for n in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'): h.I.handlers[n] = f


def search(ck):
    """with an ordered node and a consistent comparison"""
    for cls, kind in classes():
        for fname in ('get', 'get_mut', 'offset_of', 'insert_by_key'):
            @Ob(ck, cls, fname, 'finds the equal item or the place between its neighbours (%s)' % kind)
            def _(ob):
                h = ob.h
                set_cmp(h, cmp_table)
                cap = h.cap[kind] if fname != 'insert_by_key' else h.cap[kind] - (kind == 'leaf')
                for n in range(0, cap + 1):
                    nd = mk(kind, n, 'parent')
                    for pos in range(2 * n + 1):      # rank of the key: odd = equal to an item
                        rank = {x: 2 * i + 1 for i, x in enumerate(nd.items)}
                        rank['key'] = pos
                        i = pos // 2                     # index of the equal item, or of the child/insertion offset

                        def c(o, now):
                            v = o.val
                            found = pos % 2 == 1
                            if fname == 'insert_by_key':
                                if found:
                                    if kind == 'internal' or cls == 'node':
                                        if v[1] != 0: raise Problem('an equal item is not found')
                                        v = v[2][0]
                                    off, old = v[2]
                                    if type(old) is tuple and old[0] == 'A': old = h.topt(old)
                                    expect((h.rdoff(off), None if old is None else h.tok(old)), (i, nd.items[i]), 'the offset and the replaced item')
                                    same(now, Nd(kind, 'parent', nd.items[:i] + ['key'] + nd.items[i + 1:], nd.children))
                                    ob.own(o, nd.items + ['key'], [ob.item(nd.items[i])])
                                elif kind == 'leaf':
                                    if cls == 'node':
                                        if v[1] != 0: raise Problem('the insertion into a leaf is refused')
                                        v = v[2][0]
                                    off, old = v[2]
                                    expect((h.rdoff(off), h.topt(old)), (i, None), 'the offset and the replaced item')
                                    same(now, Nd(kind, 'parent', nd.items[:i] + ['key'] + nd.items[i:], nd.children))
                                    ob.own(o, nd.items + ['key'])
                                else:
                                    if v[1] != 1: raise Problem('an item is found where none is equal')
                                    e = v[2][0]
                                    toks = [x[1] for x in e[2] if type(x) is tuple and x[0] == 'T']
                                    ids = [x[1] for x in e[2] if type(x) is tuple and x[0] == 'N']
                                    offs = [x for x in e[2] if type(x) is int]
                                    expect((toks, ids, offs), (['key'], [nd.children[i]], [i]), 'the refused insertion')
                                    same(now, nd)
                                    ob.own(o, nd.items + ['key'], [ob.item('key')])
                                return
                            same(now, nd)
                            if drops(o.st): raise Problem('a search drops items')
                            if fname == 'offset_of':
                                if found:
                                    if v[1] != 0: raise Problem('the equal item is not found')
                                    expect(h.rdoff(v[2][0]), i, 'the offset')
                                else:
                                    if v[1] != 1: raise Problem('an item is found where none is equal')
                                    e = v[2][0]
                                    if kind == 'leaf' and cls == 'leaf': expect(h.rdoff(e), i, 'the insertion offset')
                                    elif kind == 'leaf': expect((e[2][0], h.topt(e[2][1])), (i, None), 'the insertion offset')
                                    elif cls == 'internal': expect((e[2][0], h.nid(e[2][1])), (i, nd.children[i]), 'the child to follow')
                                    else: expect((e[2][0], h.nopt(e[2][1])), (i, nd.children[i]), 'the child to follow')
                                return
                            # get, get_mut
                            if kind == 'leaf':
                                if cls == 'node':
                                    if v[1] != 0: raise Problem('a leaf has no child to follow')
                                    v = v[2][0]
                                r = h.topt(v)
                                expect(None if r is None else (h.tok(h.deref(o.st, r)), r[1]), (nd.items[i], ('h', 'n')) if found else None, 'the item found')
                            else:
                                if found:
                                    if v[1] != 0: raise Problem('the equal item is not found')
                                    r = v[2][0]
                                    if cls == 'node': r = h.topt(r)
                                    expect((h.tok(h.deref(o.st, r)), r[1]), (nd.items[i], ('h', 'n')), 'the item found')
                                else:
                                    if v[1] != 1: raise Problem('an item is found where none is equal')
                                    e = v[2][0]
                                    if type(e) is tuple and e[0] == 'R': e = h.deref(o.st, e)
                                    expect(h.nid(e), nd.children[i], 'the child to follow')
                        st_rank = rank
                        ob.h.rank = rank
                        key = T('key') if fname == 'insert_by_key' else ('R', ('h', 'k'), (), None)
                        run_ranked(ob, nd, (('O', 'cmp'), key), c, 'key %s' % ('equal to item %d' % i if pos % 2 else 'before item %d' % i), rank)


def run_ranked(ob, nd, args, check, label, rank=None, allow=('ret',)):
    h = ob.h
    if OWN:
        if rank is not None: set_cmp(h, lambda I, cx: (cx.st.gh.__setitem__('rank', rank), cmp_table(I, cx))[1])
        return ob.owned(nd, args, label, {'k': T('key')})
    st = State()
    wrap = ob.cls == 'node'
    st.mem[('h', 'n')] = h.val(nd, wrap)
    st.mem[('h', 'k')] = T('key')
    if rank is not None: st.gh['rank'] = rank
    ob.j.starts += 1
    n0 = h.I.steps
    outs = h.I.call_all([st], ob.key, [h.ref()] + list(args))
    ob.j.steps += h.I.steps - n0
    ob.j.outs(h.I, outs, lambda o: check(o, h.rd(o.st, o.st.mem[('h', 'n')], wrap)), '%s, %s' % (nd, label), allow)


def search_any(ck, panics=False):
    """with any comparison whatsoever (optionally one that panics): memory safe, no panic of its own, terminates"""
    for cls, kind in classes():
        for fname in ('get', 'get_mut', 'offset_of', 'insert_by_key'):
            @Ob(ck, cls, fname, ('is safe when the comparison panics (%s)' if panics else 'is safe with any comparison (%s)') % kind)
            def _(ob):
                h = ob.h
                set_cmp(h, cmp_free(panics))
                cap = h.cap[kind] if fname != 'insert_by_key' else h.cap[kind] - (kind == 'leaf')
                for n in range(0, cap + 1):
                    nd = mk(kind, n, 'parent')

                    def c(o, now):
                        if o.kind == 'unw' and 'panicked' not in o.st.gh: raise Problem('panics by itself (%s)' % o.val)
                        if fname != 'insert_by_key' or o.kind == 'unw':
                            same(now, nd)
                            toks = nd.items
                            if fname == 'insert_by_key':
                                ob.own(o, nd.items + ['key'])
                            elif drops(o.st): raise Problem('a search drops items')
                            return
                        v = o.val
                        extra = [(x, h.tyT) for x in tokens_in(v)]
                        ob.own(o, nd.items + ['key'], extra)
                        if kind == 'leaf' and len(now.items) not in (n, n + 1): raise Problem('the number of items changes by more than one')
                    key = T('key') if fname == 'insert_by_key' else ('R', ('h', 'k'), (), None)
                    run_ranked(ob, nd, (('O', 'cmp'), key), c, 'any comparison', None, ('ret', 'unw') if panics else ('ret',))


def clone_panics(ck):
    @Ob(ck, 'leaf', 'clone', 'a clone that panics drops nothing twice', 'std::clone::Clone')
    def _(ob):
        h = ob.h

        def ct(I, cx, v):
            c = cx.st.gh.pop('choice', None)
            if 'panicked' not in cx.st.gh:
                if c is None: raise Fork([(lambda s, k=k: s.gh.__setitem__('choice', k)) for k in (0, 1)])
                if c:
                    cx.st.gh['panicked'] = True
                    raise Panic('clone panicked')
            return T('clone(%s)' % v[1])
        h.I.handlers['clone_token'] = ct
        for n in range(h.cap['leaf'] + 1):
            nd = mk('leaf', n, 'parent')

            def c(o, now):
                same(now, nd)
                if o.kind == 'unw': ob.own(o, nd.items, leak=True)
            ob.run(nd, (), c, allow=('ret', 'unw'))


def drop_panics(ck):
    """dropping a node whose items panic while being dropped"""
    for cls, kind in classes():
        @Ob(ck, cls, 'item_count', 'dropping a node whose destructors panic drops nothing twice (%s)' % kind)
        def _(ob):
            h = ob.h
            h.I.drop_hook = fork_panic_hook
            for n in range(h.cap[kind] + 1):
                nd = mk(kind, n, 'parent')
                ob.j.starts += 1
                outs = h.I.drop_value(State(), h.val(nd, cls == 'node'), h.ty[cls])
                ob.j.outs(h.I, outs, lambda o: check_owned(o.st, nd.items, True), repr(nd), ('ret', 'unw'))
