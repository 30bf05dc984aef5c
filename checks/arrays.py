"""C01: the fixed-capacity buffers own every element exactly once (and C10 clauses: destructors or clones that panic)."""
from absint.harness import *

IT = 'std::iter::Iterator'
DE = 'std::iter::DoubleEndedIterator'


class A:
    """harness over Array<T, N> for one capacity"""

    def __init__(self, ck, n):
        self.ck = ck; self.p = ck.p; self.n = n
        self.rep = ck.rep
        self.path = ck.rep.array_path
        self.I = ck.interp({'N': n})
        self.tyA = ck.rep.find_type(self.path)    # Array<T, N>
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t['path'] == self.path and t['cargs'] == ['N']: self.tyA = i; break
        self.tyT = self.p.types[self.tyA]['args'][0]

    def m(self, name, trait=None, ref=False): return self.ck.method(self.path, name, trait, ref)

    def st(self, toks, slot='a', cap=None):
        s = State()
        s.mem[('h', slot)] = self.rep.array([T(t) for t in toks], self.n)
        return s

    def cur(self, st, slot='a'):
        return [x[1] for x in self.rep.rd_array(st, st.mem[('h', slot)])]

    def ref(self, slot='a'): return ('R', ('h', slot), (), None)

    def own(self, o, toks, extra=(), leak=False, slots=('a',)):
        """drop what the caller still owns, then every token must have been dropped once"""
        vals = [(o.st.mem[('h', s)], self.tyA) for s in slots if s in slots and ('h', s) in o.st.mem] + list(extra)
        st = drop_all(self.I, o.st, vals)
        check_owned(st, toks, leak)


def names(n, p='x'): return ['%s%d' % (p, i) for i in range(n)]


def expect(got, want, what):
    if got != want: raise Problem('%s is %s where %s is expected' % (what, got, want))


def optval(v):
    if type(v) is not tuple or v[0] != 'A': raise Problem('an Option is expected, got %r' % (v,))
    return None if v[1] == 0 else v[2][0]


def tok(v):
    v = optval(v)
    return None if v is None else v[1]


def run_fn(j, a, st, key, args, check, label, allow=('ret',)):
    j.starts += 1
    n0 = a.I.steps
    outs = a.I.call_all([st], key, args)
    j.steps += a.I.steps - n0
    j.outs(a.I, outs, check, label, allow)
    return outs


def basic(ck, cap):
    """obligations on the non-iterator operations for one capacity"""
    def ob(name, fname, trait=None, ref=False):
        def deco(f):
            def g(j):
                a = A(ck, cap)
                f(j, a, a.m(fname, trait, ref))
            ck.run('%s (capacity %d)' % (name, cap), 'Array::' + fname, g)
        return deco

    @ob('new() is empty', 'new')
    def _(j, a, k):
        def c(o): expect([x for x in a.rep.rd_array(o.st, o.val)], [], 'the new array')
        run_fn(j, a, State(), k, [], c, 'new()')

    @ob('default() is empty', 'default', 'std::default::Default')
    def _(j, a, k):
        def c(o): expect([x for x in a.rep.rd_array(o.st, o.val)], [], 'the default array')
        run_fn(j, a, State(), k, [], c, 'default()')

    @ob('len() and is_empty() report the number of live slots', 'len')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)
            run_fn(j, a, a.st(t), k, [a.ref()], lambda o: expect(o.val, n, 'len()'), 'len %d' % n)
            run_fn(j, a, a.st(t), a.m('is_empty'), [a.ref()], lambda o: expect(o.val, int(n == 0), 'is_empty()'), 'len %d' % n)

    def slices(fname, trait=None):
        @ob('%s() exposes exactly the live slots in order' % fname, fname, trait)
        def _(j, a, k):
            for n in range(cap + 1):
                t = names(n)

                def c(o):
                    r = o.val
                    if r[0] != 'R' or r[3] is None: raise Undecided('slice expected')
                    got = [o.st.get(r[1], r[2] + (r[3][0] + i,)) for i in range(r[3][1])]
                    expect(got, [T(x) for x in t], 'the slice')
                    expect(a.cur(o.st), t, 'the array afterwards')
                run_fn(j, a, a.st(t), k, [a.ref()], c, 'len %d' % n)
    slices('as_slice'); slices('as_slice_mut'); slices('deref', 'std::ops::Deref'); slices('deref_mut', 'std::ops::DerefMut')

    @ob('push() appends, or panics when full without losing anything', 'push')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                if o.kind == 'ret':
                    if n == cap: raise Problem('push on a full array returns')
                    expect(a.cur(o.st), t + ['v'], 'the array')
                else:
                    if n < cap: raise Problem('push panics on an array with free slots')
                    expect(a.cur(o.st), t, 'the array')
                a.own(o, t + ['v'])
            run_fn(j, a, a.st(t), k, [a.ref(), T('v')], c, 'push at length %d' % n, ('ret', 'unw'))

    @ob('pop() removes the last element', 'pop')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                expect(tok(o.val), t[-1] if n else None, 'the result')
                expect(a.cur(o.st), t[:-1], 'the array')
                a.own(o, t, [(optval(o.val), a.tyT)] if n else [])
            run_fn(j, a, a.st(t), k, [a.ref()], c, 'pop at length %d' % n)

    @ob('insert(i, v) shifts the tail and stores v at i', 'insert')
    def _(j, a, k):
        for n in range(cap + 1):
            for i in range(n + 2):
                t = names(n)

                def c(o):
                    ok = i <= n and n < cap
                    if o.kind == 'ret':
                        if not ok: raise Problem('an impossible insertion returns')
                        expect(a.cur(o.st), t[:i] + ['v'] + t[i:], 'the array')
                    elif ok: raise Problem('insert panics on a possible insertion')
                    elif i == n or i > n: expect(a.cur(o.st), t, 'the array')
                    a.own(o, t + ['v'])
                if i <= n or i == n + 1: run_fn(j, a, a.st(t), k, [a.ref(), i, T('v')], c, 'insert(%d) at length %d' % (i, n), ('ret', 'unw')) if (n < cap or i >= n) else None

    @ob('remove(i) takes element i and closes the gap', 'remove')
    def _(j, a, k):
        for n in range(cap + 1):
            for i in range(n + 2):
                t = names(n)

                def c(o):
                    expect(tok(o.val), t[i] if i < n else None, 'the result')
                    expect(a.cur(o.st), t[:i] + t[i + 1:], 'the array')
                    a.own(o, t, [(optval(o.val), a.tyT)] if i < n else [])
                run_fn(j, a, a.st(t), k, [a.ref(), i], c, 'remove(%d) at length %d' % (i, n))

    @ob('append() moves every element of the other array', 'append')
    def _(j, a, k):
        for n in range(cap + 1):
            for m in range(cap + 1 - n):
                t, u = names(n), names(m, 'y')
                s = a.st(t)
                s.mem[('h', 'b')] = a.rep.array([T(x) for x in u], cap)

                def c(o):
                    expect(a.cur(o.st), t + u, 'the array')
                    expect(a.cur(o.st, 'b'), [], 'the other array')
                    a.own(o, t + u, slots=('a', 'b'))
                run_fn(j, a, s, k, [a.ref(), a.ref('b')], c, 'append %d to %d' % (m, n))

    @ob('clear() drops every element once', 'clear')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                expect(a.cur(o.st), [], 'the array')
                check_owned(o.st, t)
                a.own(o, t)
            run_fn(j, a, a.st(t), k, [a.ref()], c, 'clear at length %d' % n)

    @ob('into_raw_parts() gives the elements away without dropping them', 'into_raw_parts')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                ln, buf = o.val[2]
                expect(ln, n, 'the length')
                expect(list(buf[1][:n]), [T(x) for x in t], 'the buffer')
                expect(len(buf[1]), cap, 'the capacity')
                if drops(o.st): raise Problem('into_raw_parts drops elements it gives away')
            run_fn(j, a, State(), k, [a.rep.array([T(x) for x in t], cap)], c, 'length %d' % n)

    @ob('clone() clones every element in order and leaves the original alone', 'clone', 'std::clone::Clone')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                expect([x[1] for x in a.rep.rd_array(o.st, o.val)], ['clone(%s)' % x for x in t], 'the clone')
                expect(a.cur(o.st), t, 'the original')
                a.own(o, t + ['clone(%s)' % x for x in t], [(o.val, a.tyA)])
            run_fn(j, a, a.st(t), k, [a.ref()], c, 'length %d' % n)

    @ob('dropping an array drops every live element once', 'drop', 'std::ops::Drop')
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)
            j.starts += 1
            outs = a.I.drop_value(a.st(t), a.st(t).mem[('h', 'a')], a.tyA)
            j.outs(a.I, outs, lambda o: check_owned(o.st, t), 'length %d' % n)

    # ---- collecting from any iterator
    def iter_handlers(a, u):
        def into(I, cx): return cx.args[0]

        def nxt(I, cx):
            r = cx.args[0]
            it = cx.st.get(r[1], r[2])
            if it[0] != 'O' or it[1] != 'iter': raise Stuck('iterator')
            if not it[2]: return NONE
            cx.st.set(r[1], r[2], ('O', 'iter', it[2][1:]))
            return some(T(it[2][0]))
        a.I.handlers['std::iter::IntoIterator::into_iter'] = into
        a.I.handlers['std::iter::Iterator::next'] = nxt

    @ob('extend() pushes everything the iterator yields', 'extend', 'std::iter::Extend')
    def _(j, a, k):
        for n in range(cap + 1):
            for m in range(cap + 1 - n):
                t, u = names(n), names(m, 'y')
                iter_handlers(a, u)

                def c(o):
                    expect(a.cur(o.st), t + u, 'the array')
                    a.own(o, t + u)
                run_fn(j, a, a.st(t), k, [a.ref(), ('O', 'iter', tuple(u))], c, 'extend %d by %d' % (n, m))

    @ob('collecting an iterator stores everything it yields', 'from_iter', 'std::iter::FromIterator')
    def _(j, a, k):
        for m in range(cap + 1):
            u = names(m, 'y')
            iter_handlers(a, u)

            def c(o):
                expect([x[1] for x in a.rep.rd_array(o.st, o.val)], u, 'the array')
                a.own(o, u, [(o.val, a.tyA)])
            run_fn(j, a, State(), k, [('O', 'iter', tuple(u))], c, 'collect %d' % m)

    # ---- by-value iteration
    def into_iter_states(j, a, n):
        k = a.m('into_iter', 'std::iter::IntoIterator')
        t = names(n)
        s = State()
        outs = a.I.call_all([s], k, [a.rep.array([T(x) for x in t], cap)])
        j.starts += 1
        good = []

        def c(o): good.append(o)
        j.outs(a.I, outs, c, 'into_iter at length %d' % n)
        return t, good

    def iter_walk(j, a, o, t, ity, keys, f, b, label, after, size=True):
        """f calls to next, b to next_back, with size_hint before each; then drop the iterator"""
        st = o.st.copy(); st.fr = []
        st.mem[('h', 'it')] = o.val
        ref = ('R', ('h', 'it'), (), None)
        rest = list(t); taken = []
        for step in ['n'] * f + ['b'] * b:
            if size:
                outs = a.I.call_all([st], keys['size_hint'], [ref])
                ok = []

                def c(o2):
                    lo, hi = o2.val[2]
                    expect((lo, optval(hi)), (len(rest), len(rest)), 'size_hint')
                    ok.append(o2)
                j.outs(a.I, outs, c, label)
                if not ok: return None
                st = ok[0].st
            outs = a.I.call_all([st], keys['next' if step == 'n' else 'next_back'], [ref])
            want = None
            if rest: want = rest.pop(0) if step == 'n' else rest.pop()
            ok = []

            def c(o2):
                expect(tok(o2.val), want, 'the yielded element')
                ok.append(o2)
            j.outs(a.I, outs, c, label)
            if not ok: return None
            st = ok[0].st
            if want is not None: taken.append(want)
        # drop the iterator, then what was handed out, then the rest of the owner's state
        outs = a.I.drop_value(st, st.mem[('h', 'it')], ity)

        def c(o2): after(o2, rest, taken)
        j.starts += 1
        j.outs(a.I, outs, c, label)

    def splits(n):
        if cap <= 4: return [(f, b) for f in range(n + 2) for b in range(n + 2 - f)]
        return sorted({(0, 0), (1, 0), (0, 1), (1, 1), (n, 0), (0, n), (n + 1, 0), (0, n + 1), (n // 2, n - n // 2), (2, 1)})

    @ob('by-value iteration hands out or drops every element once', 'into_iter', 'std::iter::IntoIterator')
    def _(j, a, k):
        ipath = [i for i in ck.p.items if i['key'] == k][0]
        ity = ipath['output']
        ip = ck.p.types[ity]['path']
        keys = {n: ck.method(ip, n, DE if n == 'next_back' else IT) for n in ('next', 'next_back', 'size_hint')}
        for n in range(cap + 1):
            t, good = into_iter_states(j, a, n)
            for o in good:
                for f, b in splits(n):
                    def after(o2, rest, taken):
                        st = drop_all(a.I, o2.st, [(T(x), a.tyT) for x in taken])
                        check_owned(st, t)
                    iter_walk(j, a, o, t, ity, keys, f, b, 'length %d, %d from the front, %d from the back' % (n, f, b), after)

    @ob('by-reference iteration visits the live slots in order', 'into_iter', 'std::iter::IntoIterator', True)
    def _(j, a, k):
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                it = o.val
                if it[0] != 'SI': raise Undecided('iterator kind')
                expect([o.st.get(it[1], it[2] + (i,)) for i in range(it[3], it[4])], [T(x) for x in t], 'the iterator')
            run_fn(j, a, a.st(t), k, [a.ref()], c, 'length %d' % n)

    # ---- drain
    def bounds(n, s, e):
        """the ways to write the range s..e over usize"""
        lo = [('A', 0, (('R', ('K', s), (), None),))]
        if s == 0: lo.append(('A', 2, ()))
        if s > 0: lo.append(('A', 1, (('R', ('K', s - 1), (), None),)))
        hi = [('A', 1, (('R', ('K', e), (), None),))]
        if e == n: hi.append(('A', 2, ()))
        if e > 0: hi.append(('A', 0, (('R', ('K', e - 1), (), None),)))
        return lo, hi

    @ob('drain(range) yields the range once and closes the gap', 'drain')
    def _(j, a, k):
        ity = [i for i in ck.p.items if i['key'] == k][0]['output']
        dp = ck.p.types[ity]['path']
        keys = {n: ck.method(dp, n, DE if n == 'next_back' else IT) for n in ('next', 'next_back', 'size_hint')}
        for n in range(cap + 1):
            for s in range(n + 1):
                for e in range(s, n + 1):
                    t = names(n)
                    lo, hi = bounds(n, s, e)
                    for li, l in enumerate(lo):
                        for hi_, h in enumerate(hi):
                            first = li == 0 and hi_ == 0
                            good = []
                            outs = a.I.call_all([a.st(t)], k, [a.ref(), ('O', 'range', l, h)])
                            j.starts += 1
                            lab = 'drain(%d..%d) at length %d' % (s, e, n)
                            j.outs(a.I, outs, good.append, lab)
                            for o in good:
                                for f, b in (splits(e - s) if first else [(e - s, 0)]):
                                    def after(o2, rest, taken):
                                        expect(a.cur(o2.st), t[:s] + t[e:], 'the array after the drain')
                                        a.own(o2, t, [(T(x), a.tyT) for x in taken])
                                    iter_walk(j, a, o, t[s:e], ity, keys, f, b, '%s, %d from the front, %d from the back' % (lab, f, b), after, size=first)


def panics(ck, cap):
    """C10 on the buffers: one destructor, clone call or comparison panics anywhere"""
    def ob(name, fname, trait=None):
        def deco(f):
            def g(j):
                a = A(ck, cap)
                f(j, a, a.m(fname, trait))
            ck.run('%s (capacity %d)' % (name, cap), 'Array::' + fname, g)
        return deco

    def safe(a, o, toks, slots=('a',), extra=()):
        """after unwinding: nothing dropped twice, and dropping what is still owned is fine"""
        for s in slots:
            if ('h', s) in o.st.mem: a.rep.rd_array(o.st, o.st.mem[('h', s)])
        a.own(o, toks, extra, leak=True, slots=slots)

    @ob('clear() with a panicking destructor drops nothing twice', 'clear')
    def _(j, a, k):
        a.I.drop_hook = fork_panic_hook
        for n in range(cap + 1):
            t = names(n)
            run_fn(j, a, a.st(t), k, [a.ref()], lambda o: safe(a, o, t), 'length %d' % n, ('ret', 'unw'))

    @ob('drop with a panicking destructor drops nothing twice', 'drop', 'std::ops::Drop')
    def _(j, a, k):
        a.I.drop_hook = fork_panic_hook
        for n in range(cap + 1):
            t = names(n)
            j.starts += 1
            outs = a.I.drop_value(State(), a.st(t).mem[('h', 'a')], a.tyA)
            j.outs(a.I, outs, lambda o: check_owned(o.st, t, True), 'length %d' % n, ('ret', 'unw'))

    @ob('clone() with a panicking clone drops nothing twice', 'clone', 'std::clone::Clone')
    def _(j, a, k):
        def ct(I, cx, v):
            c = cx.st.gh.pop('choice', None)
            if cx.st.gh.get('panicked') is None:
                if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'no'), lambda s: s.gh.__setitem__('choice', 'yes')])
                if c == 'yes':
                    cx.st.gh['panicked'] = True
                    raise Panic('clone panicked')
            return ('T', 'clone(%s)' % v[1])
        a.I.handlers['clone_token'] = ct
        for n in range(cap + 1):
            t = names(n)

            def c(o):
                if o.kind == 'unw': a.own(o, t, leak=True)
                else: a.own(o, t + ['clone(%s)' % x for x in t], [(o.val, a.tyA)])
                if o.kind == 'unw' and a.cur(o.st) != t: raise Problem('the original changed')
            run_fn(j, a, a.st(t), k, [a.ref()], c, 'length %d' % n, ('ret', 'unw'))

    @ob('dropping a by-value iterator with a panicking destructor drops nothing twice', 'into_iter', 'std::iter::IntoIterator')
    def _(j, a, k):
        ity = [i for i in ck.p.items if i['key'] == k][0]['output']
        for n in range(cap + 1):
            t = names(n)
            a.I.drop_hook = None
            outs = a.I.call_all([State()], k, [a.rep.array([T(x) for x in t], cap)])
            good = []
            j.outs(a.I, outs, good.append, 'length %d' % n)
            a.I.drop_hook = fork_panic_hook
            for o in good:
                j.starts += 1
                o2 = a.I.drop_value(o.st, o.val, ity)
                j.outs(a.I, o2, lambda o: check_owned(o.st, t, True), 'length %d' % n, ('ret', 'unw'))

    @ob('dropping a drain with a panicking destructor drops nothing twice', 'drain')
    def _(j, a, k):
        ity = [i for i in ck.p.items if i['key'] == k][0]['output']
        for n in range(cap + 1):
            for s in range(n + 1):
                for e in range(s, n + 1):
                    t = names(n)
                    a.I.drop_hook = None
                    outs = a.I.call_all([a.st(t)], k, [a.ref(), ('O', 'range', ('A', 0, (('R', ('K', s), (), None),)), ('A', 1, (('R', ('K', e), (), None),)))])
                    good = []
                    j.outs(a.I, outs, good.append, 'drain')
                    a.I.drop_hook = fork_panic_hook
                    for o in good:
                        j.starts += 1
                        o2 = a.I.drop_value(o.st, o.val, ity)
                        j.outs(a.I, o2, lambda o: safe(a, o, t), 'drain(%d..%d) at length %d' % (s, e, n), ('ret', 'unw'))
