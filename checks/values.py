"""C16 (offsets) and C17 (key-value items): value types, over all values by interval and relational abstraction."""
from absint.harness import *

MAX = USIZE_MAX
BEFORE = 'before'


def expect(got, want, what):
    if got != want: raise Problem('%s is %s where %s is expected' % (what, got, want))


class Off:
    def __init__(self, ck):
        self.ck = ck; self.p = ck.p
        self.I = ck.interp()
        t = [t for t in self.p.types if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'Offset']
        if not t: raise Missing('Offset')
        self.path = t[0]['path']
        fs = t[0]['variants'][0]['fields'] if t[0].get('kind') == 'struct' else []
        if len(fs) != 1 or self.p.types[fs[0]['ty']]['k'] != 'uint': raise Missing('representation of Offset')

    def key(self, name, trait=None, other=None):
        """other: 'self' or 'usize': type of the second operand"""
        for i in self.p.items:
            if i['name'] != name or i.get('self_ty') != self.path or (i.get('trait_path') or None) != trait: continue
            if other is not None:
                t = self.p.types[i['inputs'][1]]
                t = self.p.types[t['elem']] if t['k'] == 'ref' else t
                if (t['k'] == 'uint') != (other == 'usize'): continue
            return i['key']
        raise Missing('%s::%s' % (self.path, name))

    def has(self, *a):
        try: return self.key(*a)
        except Missing: return None

    # an abstract offset: BEFORE, or the name of a number variable
    def val(self, x): return ('A', 0, (MAX if x == BEFORE else ('L', x, 0),))

    def st(self, vars_, rel=None, hi=MAX - 1):
        s = State()
        for v in vars_: s.dom[v] = (0, hi)
        if rel is not None:
            def h(st, op, a, b):
                if a[2] != 0 or b[2] != 0: return None
                r = rel if (a[1], b[1]) == ('a', 'b') else -rel if (a[1], b[1]) == ('b', 'a') else None
                if r is None: return None
                return int({'Lt': r < 0, 'Le': r <= 0, 'Gt': r > 0, 'Ge': r >= 0, 'Eq': r == 0, 'Ne': r != 0}[op])
            s.gh['relcmp'] = h
        return s


def pairs():
    """(x, y, ghost relation): all relative positions of two offsets"""
    yield BEFORE, BEFORE, 0
    yield BEFORE, 'b', -1
    yield 'a', BEFORE, 1
    for r in (-1, 0, 1): yield 'a', 'b', r
    yield 'a', 'a', 0


ORD = {'lt': lambda r: r < 0, 'le': lambda r: r <= 0, 'gt': lambda r: r > 0, 'ge': lambda r: r >= 0, 'eq': lambda r: r == 0, 'ne': lambda r: r != 0}


def offsets(ck):
    PEQ, PORD, ORDT = 'std::cmp::PartialEq', 'std::cmp::PartialOrd', 'std::cmp::Ord'

    def run(j, h, key, st, args, check, label):
        j.starts += 1
        n0 = h.I.steps
        outs = h.I.call_all([st], key, args)
        j.steps += h.I.steps - n0
        j.outs(h.I, outs, check, label)

    def ref(s): return ('R', ('h', s), (), None)

    def cmp_ob(name, trait, other, conv, optional=False):
        if optional:
            try:
                if not Off(ck).has(name, trait, other): return
            except Missing: return

        def g(j):
            h = Off(ck)
            k = h.key(name, trait, other)
            for x, y, r in pairs():
                if other == 'usize' and y == BEFORE: continue
                s = h.st([v for v in {x, y} if v != BEFORE], r if x != y else None)
                s.mem[('h', 'x')] = h.val(x)
                s.mem[('h', 'y')] = h.val(y) if other == 'self' else ('L', y, 0)

                def c(o): expect(o.val, conv(r), 'the result')
                byval = name in ('max', 'min')
                run(j, h, k, s, [ref('x'), ref('y')], c, '%s, %s, %s' % (x, y, {-1: 'less', 0: 'equal', 1: 'greater'}[r]))
        ck.run('Offset %s::%s against %s agrees with the order' % (trait.split('::')[-1], name, 'an offset' if other == 'self' else 'a number'), 'Offset::' + name, g)
    cmp_ob('cmp', ORDT, 'self', lambda r: ordering(r))
    for other in ('self', 'usize'):
        cmp_ob('eq', PEQ, other, lambda r: int(r == 0))
        cmp_ob('partial_cmp', PORD, other, lambda r: some(ordering(r)))
        for n in ('lt', 'le', 'gt', 'ge'): cmp_ob(n, PORD, other, lambda r, n=n: int(ORD[n](r)), True)
        cmp_ob('ne', PEQ, other, lambda r: int(r != 0), True)

    def greatest(j):
        h = Off(ck)
        for x in (BEFORE, 'a'):
            got = {}
            for name, trait in (('eq', PEQ), ('partial_cmp', PORD)):
                s = h.st([x] if x != BEFORE else [])
                s.mem[('h', 'x')] = h.val(x); s.mem[('h', 'y')] = USIZE_MAX
                run(j, h, h.key(name, trait, 'usize'), s, [ref('x'), ref('y')], lambda o: got.setdefault(name, set()).add(o.val), '%s against the greatest number' % x)
            if all(len(v) == 1 for v in got.values()) and len(got) == 2:
                e, c = (list(got[n])[0] for n in ('eq', 'partial_cmp'))
                if (e == 1) != (c == some(ordering(0))): j.problems.append('%s and the greatest number: equality and order disagree' % x)
    ck.run('Offset: equality with and order against the greatest number agree', 'Offset::eq', greatest)

    def ob(name, desc, trait=None):
        def deco(f):
            def g(j):
                h = Off(ck)
                f(j, h, h.key(name, trait))
            ck.run('Offset %s: %s' % (name, desc), 'Offset::' + name, g)
        return deco

    @ob('before', 'gives the before-first offset')
    def _(j, h, k): run(j, h, k, State(), [], lambda o: expect(o.val, h.val(BEFORE), 'before()'), '')

    @ob('is_before', 'is true of the before-first offset only')
    def _(j, h, k):
        for x in (BEFORE, 'a'):
            s = h.st(['a']); s.mem[('h', 'x')] = h.val(x)
            run(j, h, k, s, [ref('x')], lambda o: expect(o.val, int(x == BEFORE), 'is_before()'), x)

    @ob('value', 'gives the number, or nothing before the first')
    def _(j, h, k):
        for x in (BEFORE, 'a'):
            s = h.st(['a']); s.mem[('h', 'x')] = h.val(x)
            run(j, h, k, s, [ref('x')], lambda o: expect(o.val, NONE if x == BEFORE else some(('L', 'a', 0)), 'value()'), x)

    @ob('unwrap', 'gives the number')
    def _(j, h, k):
        s = h.st(['a'])
        run(j, h, k, s, [h.val('a')], lambda o: expect(o.val, ('L', 'a', 0), 'unwrap()'), 'a')

    @ob('from', 'gives the offset of the number', 'std::convert::From')
    def _(j, h, k):
        s = h.st(['a'])
        run(j, h, k, s, [('L', 'a', 0)], lambda o: expect(o.val, h.val('a'), 'from()'), 'a')

    @ob('clone', 'gives the same offset', 'std::clone::Clone')
    def _(j, h, k):
        for x in (BEFORE, 'a'):
            s = h.st(['a']); s.mem[('h', 'x')] = h.val(x)
            run(j, h, k, s, [ref('x')], lambda o: expect(o.val, h.val(x), 'clone()'), x)

    def num(st, v):
        v = v[2][0]
        return norm(st, v)

    @ob('incr', 'steps to the next offset')
    def _(j, h, k):
        for x in (BEFORE, 'a'):
            s = h.st(['a'], hi=MAX - 2); s.mem[('h', 'x')] = h.val(x)
            run(j, h, k, s, [ref('x')], lambda o: expect(num(o.st, o.st.mem[('h', 'x')]), 0 if x == BEFORE else norm(o.st, ('L', 'a', 1)), 'the offset after incr()'), x)

    @ob('decr', 'steps to the previous offset')
    def _(j, h, k):
        s = h.st(['a']); s.mem[('h', 'x')] = h.val('a')

        def c(o):
            lo, hi = o.st.dom['a']
            if lo > 0: expect(num(o.st, o.st.mem[('h', 'x')]), norm(o.st, ('L', 'a', -1)), 'the offset after decr()')
            elif hi == 0: expect(num(o.st, o.st.mem[('h', 'x')]), MAX, 'the offset after decr() from 0')
            else: raise Problem('decr() does not distinguish 0 from the other offsets')
        run(j, h, k, s, [ref('x')], c, 'a')

    @ob('incr', 'undoes decr, and decr undoes incr')
    def _(j, h, k):
        kd = h.key('decr')
        for seq in ((k, kd), (kd, k)):
            for x in (BEFORE, 'a'):
                if x == BEFORE and seq[0] == kd: continue
                s = h.st(['a'], hi=MAX - 2); s.mem[('h', 'x')] = h.val(x)
                good = []
                run(j, h, seq[0], s, [ref('x')], good.append, x)
                for o in good:
                    s2 = o.st.copy(); s2.fr = []
                    run(j, h, seq[1], s2, [ref('x')], lambda o: expect(num(o.st, o.st.mem[('h', 'x')]), MAX if x == BEFORE else norm(o.st, ('L', 'a', 0)), 'the offset after both steps'), x)


def items(ck):
    class It:
        def __init__(self):
            self.p = ck.p; self.I = ck.interp()
            t = [t for t in ck.p.types if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'Item']
            if not t: raise Missing('Item')
            self.path = t[0]['path']
            self.f = {f['name']: i for i, f in enumerate(t[0]['variants'][0]['fields'])}
            if set(self.f) != {'key', 'value'}: raise Missing('representation of Item')
            self.calls = []
            H = self.I.handlers

            def rel(cx):
                a, b = (cx.st.get(r[1], r[2]) for r in cx.args)
                for v in (a, b):
                    if v[0] != 'T' or v[1][0] != 'k': raise Bad('a comparison of something else than keys')
                s = cx.st.gh['rel']
                if (a[1], b[1]) == ('k1', 'k2'): return s
                if (a[1], b[1]) == ('k2', 'k1'): return s if s is None else -s
                return 0
            H['std::cmp::PartialEq::eq'] = lambda I, cx: int(rel(cx) == 0)
            H['std::cmp::PartialEq::ne'] = lambda I, cx: int(rel(cx) != 0)
            H['std::cmp::Ord::cmp'] = lambda I, cx: ordering(rel(cx))

            def pc(I, cx):
                r = rel(cx)
                return NONE if r is None else some(ordering(r))
            H['std::cmp::PartialOrd::partial_cmp'] = pc
            for n in ('lt', 'le', 'gt', 'ge'):
                def f(I, cx, n=n):
                    r = rel(cx)
                    return int(r is not None and ORD[n](r))
                H['std::cmp::PartialOrd::' + n] = f
            H['std::borrow::Borrow::borrow'] = lambda I, cx: cx.args[0]

        def key(self, name, trait=None): return ck.method(self.path, name, trait)

        def val(self, k, v):
            f = [None, None]
            f[self.f['key']] = T(k); f[self.f['value']] = T(v)
            return ('A', 0, tuple(f))

        def st(self, rel=0):
            s = State()
            s.gh['rel'] = rel
            s.mem[('h', 'x')] = self.val('k1', 'v1'); s.mem[('h', 'y')] = self.val('k2', 'v2'); s.mem[('h', 'k')] = T('k2')
            return s

        def ref(self, s): return ('R', ('h', s), (), None)

        def same(self, o):
            for s, (k, v) in (('x', ('k1', 'v1')), ('y', ('k2', 'v2'))): expect(o.st.mem[('h', s)], self.val(k, v), 'an operand')
            if drops(o.st): raise Problem('something is dropped')

    def run(j, h, key, st, args, check, label):
        j.starts += 1
        n0 = h.I.steps
        outs = h.I.call_all([st], key, args)
        j.steps += h.I.steps - n0
        j.outs(h.I, outs, check, label)

    def cmp_ob(name, trait, conv, rels=(-1, 0, 1), optional=False, key=None):
        if optional:
            try: It().key(name, trait)
            except Missing: return

        def g(j):
            h = It()
            k = h.key(name, trait)
            for r in rels:
                def c(o):
                    expect(o.val, conv(r), 'the result'); h.same(o)
                run(j, h, k, h.st(r), [h.ref('x'), h.ref('y')], c, 'keys %s' % {-1: 'less', 0: 'equal', 1: 'greater', None: 'incomparable'}[r])
        ck.run('Item %s compares the keys only' % name, 'Item::' + name, g)
    PEQ, PORD, ORDT = 'std::cmp::PartialEq', 'std::cmp::PartialOrd', 'std::cmp::Ord'
    cmp_ob('eq', PEQ, lambda r: int(r == 0), (-1, 0, 1, None))
    cmp_ob('ne', PEQ, lambda r: int(r != 0), (-1, 0, 1, None), True)
    cmp_ob('partial_cmp', PORD, lambda r: NONE if r is None else some(ordering(r)), (-1, 0, 1, None))
    for n in ('lt', 'le', 'gt', 'ge'): cmp_ob(n, PORD, lambda r, n=n: int(r is not None and ORD[n](r)), (-1, 0, 1, None), True)
    cmp_ob('cmp', ORDT, lambda r: ordering(r))

    def ob(name, desc, trait=None):
        def deco(f):
            def g(j):
                h = It()
                f(j, h, h.key(name, trait))
            ck.run('Item %s: %s' % (name, desc), 'Item::' + name, g)
        return deco

    for name, want in (('max', 1), ('min', -1)):
        try: It().key(name, ORDT)
        except Missing: continue

        @ob(name, 'gives the item with the %s key and drops the other' % ('greater' if want > 0 else 'smaller'), ORDT)
        def _(j, h, k, want=want):
            for r in (-1, 0, 1):
                def c(o):
                    ok = [('k1', 'v1')] if r * want > 0 else [('k2', 'v2')] if r * want < 0 else [('k1', 'v1'), ('k2', 'v2')]
                    got = [x for x in ok if o.val == h.val(*x)]
                    if not got: raise Problem('another item is given')
                    other = {('k1', 'v1'): ('k2', 'v2'), ('k2', 'v2'): ('k1', 'v1')}[got[0]]
                    expect(dict(drops(o.st)), {x: 1 for x in other}, 'what is dropped')
                run(j, h, k, h.st(r), [h.val('k1', 'v1'), h.val('k2', 'v2')], c, str(r))

    @ob('key_cmp', 'compares the key with the borrowed key')
    def _(j, h, k):
        for r in (-1, 0, 1):
            def c(o):
                expect(o.val, ordering(r), 'the result'); h.same(o)
            run(j, h, k, h.st(r), [h.ref('x'), h.ref('k')], c, str(r))

    @ob('new', 'keeps the key and the value')
    def _(j, h, k):
        def c(o):
            expect(o.val, h.val('k1', 'v1'), 'the item')
            if drops(o.st): raise Problem('something is dropped')
        run(j, h, k, State(), [T('k1'), T('v1')], c, '')

    @ob('into_pair', 'gives the key and the value')
    def _(j, h, k):
        def c(o):
            expect(o.val, tup(T('k1'), T('v1')), 'the pair')
            if drops(o.st): raise Problem('something is dropped')
        run(j, h, k, State(), [h.val('k1', 'v1')], c, '')

    @ob('as_pair', 'borrows the key and the value')
    def _(j, h, k):
        def c(o):
            a, b = o.val[2]
            expect((o.st.get(a[1], a[2]), o.st.get(b[1], b[2])), (T('k1'), T('v1')), 'the pair'); h.same(o)
        run(j, h, k, h.st(), [h.ref('x')], c, '')

    @ob('as_ref', 'borrows the item', 'std::convert::AsRef')
    def _(j, h, k):
        def c(o):
            expect(o.val, h.ref('x'), 'the reference'); h.same(o)
        run(j, h, k, h.st(), [h.ref('x')], c, '')

    @ob('clone', 'clones the key and the value', 'std::clone::Clone')
    def _(j, h, k):
        def c(o):
            expect(o.val, h.val('clone(k1)', 'clone(v1)'), 'the clone'); h.same(o)
        run(j, h, k, h.st(), [h.ref('x')], c, '')
