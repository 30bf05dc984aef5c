"""Iteration: one step of each iterator from any consistent state over any tree (the shape domain of absint/tree.py).

A state of an iterator is consistent when its front address is the address of the first remaining item (none if nothing
follows), its back address is the address of the item that follows the last remaining one (none at the end), and its
count is the number of items between; when nothing remains either address may also be none.  The initial states and
every step are shown to be consistent, which covers every interleaving of steps from both ends on every tree.
"""
from absint.harness import *
from absint.core import NeedForce
from absint.tree import FN, INF
from .tree import TH, judge_outs, final, marks_at, stats, ROOT, place_problem
from .nav import span, same_gap, starts, mark

KINDS = ('Iter', 'IterMut', 'IntoIter')
ITER = 'std::iter::Iterator'
DEI = 'std::iter::DoubleEndedIterator'


class IH(TH):
    def __init__(self, ck, kind):
        TH.__init__(self, ck)
        self.kind = kind
        self.tree_type()
        ts = [t for t in self.p.types if t['k'] == 'adt' and t.get('local') and t.get('kind') == 'struct' and t['path'] == kind]
        if not ts: raise Missing(kind)
        self.f = {}; self.addrs = []
        fs = ts[0]['variants'][0]['fields']
        for i, f in enumerate(fs):
            ty = self.p.types[f['ty']]
            if ty['k'] == 'uint': k = 'len'
            elif ty['k'] == 'ref' or ty['k'] == 'adt' and ty['path'].split('::')[-1] == 'RawBTree': k = 'btree'
            elif ty['k'] == 'adt' and ty['path'] == 'std::option::Option': self.addrs.append(i); continue
            else: raise Missing('representation of %s' % kind)
            if k in self.f: raise Missing('representation of %s' % kind)
            self.f[k] = i
        if len(self.addrs) != 2 or len(self.f) != 2: raise Missing('representation of %s' % kind)
        self.n = len(fs)
        self.by_value = self.p.types[fs[self.f['btree']]['ty']]['k'] == 'adt'

    def roles(self):
        """which address is the front one: the one that is set on a tree that is not empty"""
        st = self.state(); self.t.state_root(st)
        B = self.with_tree(st, ROOT)
        outs = self.I.call_all([st], self.maker(), [self.arg(st, B)])
        r = set()
        for o in outs:
            if o.kind != 'ret': raise Stuck('construction of %s: %s' % (self.kind, o.val))
            a = [i for i in self.addrs if o.val[2][i][1] == 1]
            if len(a) != 1: raise Stuck('roles of the addresses of %s' % self.kind)
            r.add(a[0])
        if len(r) != 1: raise Stuck('roles of the addresses of %s' % self.kind)
        self.f['addr'] = r.pop()
        self.f['end'] = [i for i in self.addrs if i != self.f['addr']][0]

    def arg(self, st, B): return st.mem[B[1]] if self.by_value else B

    def maker(self):
        if self.kind == 'Iter': return self.method('iter')
        if self.kind == 'IterMut': return self.method('iter_mut')
        return self.ck.method('RawBTree', 'into_iter', 'std::iter::IntoIterator')

    def iter(self, st, root, addr, end, rem):
        B = self.with_tree(st, root)
        f = [None] * self.n
        f[self.f['btree']] = st.mem[B[1]] if self.by_value else B
        f[self.f['addr']] = addr; f[self.f['end']] = end; f[self.f['len']] = rem
        st.mem[('h', 'I')] = ('A', 0, tuple(f))
        if self.by_value: st.mem[('h', 'B')] = U
        return ('R', ('h', 'I'), (), None)

    def rd(self, st, k): return st.mem[('h', 'I')][2][self.f[k]]

    def root_of(self, st):
        if self.by_value: st.mem[('h', 'B')] = self.rd(st, 'btree')
        return self.rd_tree(st)[0]


def token(f, n, i):
    g = span(f, n)[0]
    return [p for p in g.parts if type(p) is not FN][i]


def two(h, level, single=None):
    """states with a front and a back place: (state, front address, back address, item at each place, relation)
    relation: 'eq' the places coincide, 'lt' there is at least one item between.
    single: only one place ('addr' or 'end'), the other one is opaque"""
    t = h.t
    for s0, kind, count in starts(h, level):
        f, _, _ = t.flat_tree(s0, s0.gh['root'])
        tok = lambda i: token(f, 'n', i)[1]
        adr = lambda i: some(h.addr('n', i))
        O = ('O', 'other')

        def case(F, B):
            s = s0.copy(); s.gh['x_case'] = (count, kind, F, B); return s
        if single == 'addr':
            for i in range(count): yield case(i, 'other'), adr(i), O, tok(i), None, 'lt'
        elif single == 'end':
            for i in range(count): yield case('other', i), O, adr(i), None, tok(i), 'lt'
        else:
            for i in range(count):
                for j in range(i, count): yield case(i, j), adr(i), adr(j), tok(i), tok(j), 'eq' if i == j else 'lt'
                yield case(i, 'end'), adr(i), NONE, tok(i), None, 'lt'
            if kind == 'int' and count == 3: yield from leaves(h, s0)
    if single == 'end':
        s = h.state(); t.state_root(s)
        yield s, O, NONE, None, None, 'lt'


def leaves(h, s0):
    """pairs of places in an internal node above leaves and in these leaves"""
    t = h.t
    s = s0.copy()
    try: t.level_eq(s, t.rec(s, 'n').level, 1)
    except Infeasible: return
    f, _, _ = t.flat_tree(s, s.gh['root'])
    ch = [p.name for p in span(f, 'n')[0].parts if type(p) is FN]

    def force(s, todo):
        if not todo: yield s; return
        for s2, _ in h.expand(s, lambda s: t.force(s, todo[0])):
            g, _, _ = t.flat_tree(s2, s2.gh['root'])
            if len(span(g, todo[0])[0].parts) == 3: yield from force(s2, todo[1:])
    for s in force(s, ch[:3]):
        f, _, _ = t.flat_tree(s, s.gh['root'])
        pl = []
        for i, c in enumerate(ch):
            if i < 3: pl += [(c, o) for o in range(3)] + [('n', i)]
        for i, F in enumerate(pl):
            for B in pl[i + 1:] + [None]:
                if F[0] == B: continue
                s2 = s.copy(); s2.gh['x_case'] = (F, B)
                tk = lambda p: token(f, p[0], p[1])[1]
                yield s2, some(h.addr(*F)), NONE if B is None else some(h.addr(*B)), tk(F), None if B is None else tk(B), 'lt'


def between(s, cur, x, y):
    """(least number of items from x up to y, exactly known)"""
    i = cur.index(('i', x)) if x else 0; j = len(cur) if y is None else cur.index(('i', y))
    seg = cur[i:j]
    k = sum(1 for e in seg if e[0] == 'i')
    return k, all(e[0] == 'i' for e in seg)


def got_item(h, s, v):
    """the item that has been handed out"""
    v = h.rdopt(v)
    if v is None: return None
    if h.kind == 'IntoIter':
        if v[0] != 'T': raise Problem('something is handed out that is not an item')
        return v[1]
    x = s.get(v[1], v[2]) if v[0] == 'R' else None
    if type(x) is not tuple or x[0] != 'T': raise Problem('something is handed out that is not an item of the tree')
    if v[1][0] != 'node': raise Problem('the item handed out is not in the tree')
    return x[1]


def is_zero(s, n): return norm(s, n) == 0


def step(ck, kind, back, level, classes=('iter', 'seq', 'link', 'len')):
    """next / next_back from any consistent state in which something remains.  The step is first interpreted with the
    other end opaque: when it never looks at it, one place in an arbitrary tree covers all pairs of places."""
    name = 'next_back' if back else 'next'

    def attempt(j, single):
        h = IH(ck, kind)
        h.roles()
        key = ck.method(kind, name, DEI if back else ITER)
        h.t.I.maxvisits = 400
        for s, a, b, x, y, rel in two(h, level, single):
            if rel == 'eq': continue
            f, _, _ = h.t.flat_tree(s, s.gh['root'])
            cur = f.syms([])
            k, exact = (1, False) if single else between(s, cur, x, y)
            if exact: rem = k
            else:
                v = s.fresh('v'); s.dom[v] = (max(k, 1), INF); rem = ('L', v, 0)
            i = cur.index(('i', x)) + 1 if not back else len(cur) if y is None else cur.index(('i', y))
            s.gh['Y'] = tuple(cur)
            mark(s, i, 'at')
            pair = bool(single is None)
            lo = None if single == 'end' else x
            hi = ('end',) if single == 'addr' or y is None else y
            it = h.iter(s, s.gh['root'], a, b, rem)
            s.mem[('h', 'I0')] = ('A', 0, (a, b))
            j.starts += 1
            outs = h.I.call_all([s], key, [it])

            def check(s, v, x=x, y=y, rem=rem, lo=lo, hi=hi, pair=pair):
                a, b = s.mem[('h', 'I0')][2]
                f, cur, P = final(h, s, h.root_of(s))
                constrain(h, s, cur, rem, lo, hi, pair)
                mk = marks_at(h, s, cur)['at']
                got = got_item(h, s, v)
                if got is None: P.append(('iter', 'nothing is returned although an item remains')); return P
                if norm(s, h.rd(s, 'len')) != norm(s, nadd(s, rem, -1)):
                    P.append(('iter', 'the remaining count is not one less'))
                    if nadd(s, h.rd(s, 'len'), rem, -1) in (0, 1): P.append(('twice', 'the remaining count is not decreased: the ends can cross'))
                left = norm(s, nadd(s, rem, -1))
                moved, same = ('end', 'addr') if back else ('addr', 'end')
                if not same_addr(h, s, h.rd(s, same), a if back else b) and not is_zero(s, left): P.append(('iter', 'the other end has moved'))
                at = cur.index(('i', got)) if ('i', got) in cur else None
                if at is None: P.append(('iter', 'another item is returned')); return P
                n = h.rdopt(h.rd(s, moved))
                if back and at >= mk or not back and at < mk - 1: P.append(('twice', 'an item is handed out that is not among the remaining ones'))
                if n is not None:
                    m, o = h.rdaddr(n)
                    if ('node', m) in s.mem and not has_lazy(s.mem[('node', m)]):
                        p = h.t.place_of(s, f, m, o)
                        if type(p) is int and (p > at if back else p <= at) and not is_zero(s, left): P.append(('twice', 'the item handed out is still among the remaining ones'))
                if back:
                    if not same_gap(h, s, cur, at + 1, mk): P.append(('iter', 'another item is returned than the last remaining one')); return P
                    want = at
                else:
                    if got != x: P.append(('iter', 'another item is returned than the first remaining one')); return P
                    want = mk
                if n is None:
                    if not is_zero(s, left) and (back or not same_gap(h, s, cur, want, len(cur))): P.append(('iter', 'the position of the iterator is lost'))
                    return P
                m, o = h.rdaddr(n)
                if ('node', m) not in s.mem or has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
                p = h.t.place_of(s, f, m, o)
                if p in ('gone', 'out', None) or p >= len(cur) or cur[p][0] != 'i' or not same_gap(h, s, cur, want, p):
                    P.append(('iter', 'the iterator does not move to the adjacent item'))
                return P
            judge_outs(h, j, prune(h, outs, rem, lo, hi, pair), check, classes, '%s::%s' % (kind, name))
            if len(j.problems) > 10 or j.undecided: break
        stats(h, j, name)

    def g(j):
        attempt(j, 'end' if back else 'addr')
        if j.undecided and not j.problems:
            k = Judge(); attempt(k, None)
            j.problems += k.problems; j.steps += k.steps
    ck.run('%s::%s: something remains, places %s' % (kind, name, ('in a leaf', 'in an internal node')[level]), '%s::%s' % (kind, name), g)


def same_addr(h, s, v, w):
    if v == w: return True

    def r(x):
        x = h.rdopt(x)
        if x is None: return None
        m, o = h.rdaddr(x)
        return m, norm(s, o)
    return r(v) == r(w)


def constrain(h, s, cur, rem, lo, hi, pair):
    """restrict the remaining count to what the explored part of the tree allows; Infeasible if it allows nothing.
    Between the places (pair), or up to the end of the tree on the side that is not known."""
    i = cur.index(('i', lo)) if lo else 0
    j = len(cur) if hi == ('end',) else cur.index(('i', hi))
    seg = cur[i:j]
    for e in seg:
        if e[0] in ('h<', 'h>') and h.t.rec(s, e[1]).pin: raise NeedForce(('node', e[1]))
    k = sum(1 for e in seg if e[0] == 'i')
    exact = k == len(seg)
    rem = norm(s, rem)
    if type(rem) is int:
        if exact and rem > k or pair and rem < k: raise Infeasible()
        return
    a, b = s.dom[rem[1]]
    a = max(a, k - rem[2]) if pair else a
    b = min(b, k - rem[2]) if exact else b
    if a > b: raise Infeasible()
    s.dom[rem[1]] = (a, b)


def prune(h, outs, rem, lo, hi, pair):
    """panics on paths that contradict the remaining count"""
    for o in outs:
        if o.kind == 'unw':
            def f(s):
                _, cur, P = final(h, s, h.root_of(s))
                if not any(p[0] == 'seq' for p in P): constrain(h, s, cur, rem, lo, hi, pair)
            try:
                if not h.expand(o.st, f): continue
            except (Stuck, Undecided, KeyError, ValueError, Bad): pass
        yield o


def exhausted(ck, kind, level):
    """next / next_back / size_hint when nothing remains"""
    def g(j):
        h = IH(ck, kind)
        h.roles()
        keys = [ck.method(kind, 'next', ITER), ck.method(kind, 'next_back', DEI)]

        def cases():
            for s, a, b, x, y, rel in two(h, level):
                if rel != 'eq': continue
                for aa in (a, NONE):
                    for bb in (b, NONE): yield s.copy(), aa, bb
            for s0, kind_, count in starts(h, level): yield s0, NONE, NONE
            s = h.state(); h.t.init(s, [], None)
            yield s, NONE, NONE
        for s, a, b in cases():
            for key in keys:
                s1 = s.copy()
                it = h.iter(s1, s1.gh['root'], a, b, 0)
                j.starts += 1
                outs = h.I.call_all([s1], key, [it])

                def check(s, v, a=a, b=b):
                    f, cur, P = final(h, s, h.root_of(s))
                    if h.rdopt(v) is not None: P.append(('iter', 'an item is returned although nothing remains'))
                    if not is_zero(s, h.rd(s, 'len')): P.append(('iter', 'the remaining count changes although nothing remains'))
                    for k, w in (('addr', a), ('end', b)):
                        u = h.rd(s, k)
                        if not same_addr(h, s, u, w) and h.rdopt(u) is not None: P.append(('?', 'an exhausted iterator moves'))
                    return P
                judge_outs(h, j, outs, check, ('iter', 'seq', 'link', 'len'), kind)
        stats(h, j, kind)
    ck.run('%s: nothing remains, places %s' % (kind, ('in a leaf', 'in an internal node')[level]), kind + '::next', g)


def makers(h):
    r = [('inherent', h.maker())]
    if h.kind != 'IntoIter':
        for i in h.p.items:
            st = i.get('self_ty') or ''
            if i['name'] == 'into_iter' and i.get('trait_path') == 'std::iter::IntoIterator' and st.startswith('&') and 'RawBTree' in st and ('mut ' in st) == (h.kind == 'IterMut'):
                r.append(('IntoIterator', i['key']))
        if len(r) != 2: raise Missing('IntoIterator of a reference to the tree')
    return r


def construct(ck, kind, classes=('iter', 'seq', 'link')):
    def g(j):
        h = IH(ck, kind)
        h.roles()
        for w, key in makers(h):
            for empty in (True, False):
                s = h.state()
                if empty: h.t.init(s, [], None)
                else: h.t.state_root(s)
                B = h.with_tree(s, None if empty else ROOT)
                j.starts += 1
                outs = h.I.call_all([s], key, [h.arg(s, B)])

                def check(s, v):
                    s.mem[('h', 'I')] = v
                    bt = h.rd(s, 'btree')
                    if not h.by_value and bt != B: raise Problem('the iterator refers to another tree')
                    f, cur, P = final(h, s, h.root_of(s))
                    if norm(s, h.rd_tree(s)[1]) != norm(s, s.gh['len0']): P.append(('iter', 'the length of the tree changes'))
                    if norm(s, h.rd(s, 'len')) != norm(s, s.gh['len0']):
                        P.append(('iter', 'the remaining count is not the length of the tree'))
                        if type(nadd(s, h.rd(s, 'len'), s.gh['len0'], -1)) is int and nadd(s, h.rd(s, 'len'), s.gh['len0'], -1) > 0: P.append(('twice', 'the remaining count is greater than the length of the tree: the ends can cross'))
                    if h.rdopt(h.rd(s, 'end')) is not None: P.append(('iter', 'the back end does not start at the end'))
                    a = h.rdopt(h.rd(s, 'addr'))
                    if f is None:
                        if a is not None: P.append(('iter', 'an address in an empty tree'))
                        return P
                    if a is None: P.append(('iter', 'the front end does not start at the first item')); return P
                    m, o = h.rdaddr(a)
                    if ('node', m) not in s.mem or has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
                    at = h.t.place_of(s, f, m, o)
                    if at in ('gone', 'out', None) or cur[at][0] != 'i' or not same_gap(h, s, cur, 0, at): P.append(('iter', 'the front end does not start at the first item'))
                    return P
                judge_outs(h, j, outs, check, classes, '%s (%s)' % (kind, w))
        stats(h, j, kind)
    ck.run('%s: construction' % kind, kind + '::new', g)


def hints(ck, kind):
    """size_hint announces exactly the remaining count; a copy of a shared iterator is in the same state"""
    def g(j):
        h = IH(ck, kind)
        h.roles()
        for zero in (True, False):
            s = h.state(); h.t.state_root(s)
            v = s.fresh('v'); s.dom[v] = (1, INF)
            rem = 0 if zero else ('L', v, 0)
            it = h.iter(s, ROOT, NONE, NONE, rem)
            j.starts += 1

            def check(s, v, rem=rem):
                lo, hi = v[2]
                if norm(s, lo) != norm(s, rem) or h.rdopt(hi) is None or norm(s, h.rdopt(hi)) != norm(s, rem): raise Problem('the announced size is not the remaining count')
                return []
            judge_outs(h, j, h.I.call_all([s], ck.method(kind, 'size_hint', ITER), [it]), check, (), kind)
        stats(h, j, kind)
    ck.run('%s: announced size' % kind, kind + '::size_hint', g)


def copies(ck):
    def g(j):
        h = IH(ck, 'Iter')
        h.roles()
        key = ck.method('Iter', 'clone', 'std::clone::Clone')
        for s, a, b, x, y, rel in two(h, 0):
            v = s.fresh('v'); s.dom[v] = (1, INF)
            it = h.iter(s, s.gh['root'], a, b, ('L', v, 0))
            j.starts += 1

            def check(s, v):
                if v != s.mem[('h', 'I')]: raise Problem('the copy of an iterator is in another state')
                return []
            judge_outs(h, j, h.I.call_all([s], key, [it]), check, (), 'clone')
        stats(h, j, 'clone')
    ck.run('Iter::clone', 'Iter::clone', g)


def consumed(h, s, kind, back):
    """what the iterator still gives, one call after the other: [(state, items, fault)]"""
    key = h.ck.method(kind, 'next_back' if back else 'next', DEI if back else ITER)
    done = []; work = [(s, ())]
    while work:
        s, got = work.pop()
        if len(got) > 12: raise Stuck('the iterator does not end')
        for o in h.I.call_all([s], key, [('R', ('h', 'I'), (), None)]):
            if o.kind == 'stuck': raise Stuck(o.val)
            if o.kind != 'ret': done.append((o.st, got, 'the iterator is broken afterwards (%s)' % (o.val.msg if o.kind == 'bad' else o.val))); continue
            x = got_item(h, o.st, o.val)
            if x is None: done.append((o.st, got, None))
            else: work.append((o.st, got + (x,)))
    return done


def overrides(ck, kind, twice=False):
    """provided methods that are overridden have to do what the provided ones do by means of next and next_back; compared on
    the states whose remaining items are all known (so this only ever refutes)"""
    def g(j):
        own = {'next', 'size_hint', 'next_back'}
        over = [i for i in ck.p.items if i.get('trait_path') in (ITER, DEI, 'std::iter::ExactSizeIterator') and (i.get('self_ty') or '').split('<')[0] == kind
                and i['name'] not in own]
        for i in over:
            name = i['name']
            j.undecided.append('%s overrides %s: compared with the provided method on some states only' % (kind, name))
            if name not in ('last', 'count', 'len', 'is_empty', 'nth', 'nth_back', 'fold', 'rfold', 'for_each'): continue
            override(ck, kind, j, i['key'], name, 0, twice)
            if len(j.problems) > 10: break
        if not over: j.starts += 1; j.exits += 1
    ck.run('%s: no provided method is overridden by another behaviour' % kind, kind, g)


def override(ck, kind, j, key, name, level, twice=False):
    h = IH(ck, kind)
    h.roles()
    h.I.skip_dtors = ('IntoIter', 'RawBTree')
    h.I.deadline = min(h.I.deadline or INF, time.time() + 30)

    def call(I, cx, f, args):
        x = args[-1]
        if kind != 'IntoIter':
            if x[0] != 'R': raise Stuck('what the closure is given')
            x = cx.st.get(x[1], x[2])
        if x[0] != 'T': raise Bad('the closure is given something that is not a live item')
        cx.st.gh['x_calls'] = cx.st.gh.get('x_calls', ()) + (x[1],)
        return UNIT if name == 'for_each' else ('O', 'acc')
    h.I.handlers['callable'] = call
    for n in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'): h.I.handlers['std::ops::' + n] = lambda I, cx: call(I, cx, None, list(cx.args[1][2]))
    n = 0
    for s, a, b, x, y, rel in two(h, level):
        f, _, _ = h.t.flat_tree(s, s.gh['root'])
        cur = f.syms([])
        k, exact = (0, True) if rel == 'eq' else between(s, cur, x, y)
        if not exact: continue
        n += 1
        if n % 7 > 1 and n > 40: continue
        i = cur.index(('i', x)) if rel != 'eq' else 0
        items = tuple(e[1] for e in cur[i:i + k])
        s.gh['Y'] = tuple(cur)
        for arg in range(k + 2) if name in ('nth', 'nth_back') else (None,):
            s1 = s.copy()
            it = h.iter(s1, s1.gh['root'], a, b, k)
            if name in ('last', 'count', 'fold', 'rfold', 'for_each'):
                it = s1.mem[('h', 'I')]
                if kind == 'IntoIter': s1.mem[('h', 'I')] = U
            args = [it] + ([arg] if arg is not None else []) + ([('O', 'acc')] if name in ('fold', 'rfold') else []) + ([('O', 'f')] if name in ('fold', 'rfold', 'for_each') else [])
            j.starts += 1
            for o in h.I.call_all([s1], key, args):
                j.exits += 1
                w = '%s::%s with %d remaining items' % (kind, name, k)
                if o.kind == 'stuck': j.undecided.append(o.val); continue
                if o.kind != 'ret': j.problems.append('%s: %s' % (w, o.val.msg if o.kind == 'bad' else 'panics (%s)' % o.val)); continue
                try:
                    if twice:           # C23: is an item handed out that is not, or no more, among the remaining ones?
                        got = o.st.gh.get('x_calls', ()) if name in ('fold', 'rfold', 'for_each') else () if name in ('count', 'len', 'is_empty') else (got_item(h, o.st, o.val),)
                        runs = [tuple(x for x in got if x is not None)]
                        if name in ('nth', 'nth_back'):
                            runs = [runs[0] + more for bk in (False, True) for _, more, _ in consumed(h, o.st.copy(), kind, bk)]
                        if any(len(set(r)) < len(r) or set(r) - set(items) for r in runs): j.problems.append('%s%s: an item is handed out that is not among the remaining ones' % (w, '' if arg is None else '(%d)' % arg))
                    elif name in ('count', 'len', 'is_empty'):
                        v = norm(o.st, o.val)
                        if v != (int(k == 0) if name == 'is_empty' else k): j.problems.append('%s: the result is not the number of remaining items' % w)
                    elif name == 'last':
                        if got_item(h, o.st, o.val) != (items[-1] if items else None): j.problems.append('%s: another item is returned than the last remaining one' % w)
                    elif name in ('nth', 'nth_back'):
                        back = name == 'nth_back'
                        seq = items[::-1] if back else items
                        if got_item(h, o.st, o.val) != (seq[arg] if arg < k else None): j.problems.append('%s(%d): another item is returned' % (w, arg))
                        rest = seq[arg + 1:]
                        for bk in (back, not back):
                            for s2, got, p in consumed(h, o.st.copy(), kind, bk):
                                if p or got != (rest if bk == back else rest[::-1]): j.problems.append('%s(%d): %s' % (w, arg, p or 'other items remain than those that follow'))
                    elif o.st.gh.get('x_calls', ()) != (items[::-1] if name == 'rfold' else items): j.problems.append('%s: the closure is not given the remaining items in order' % w)
                except Problem as p: j.problems.append('%s: %s' % (w, p))
                except (Undecided, Stuck) as u: j.undecided.append(str(u))
        if len(j.problems) > 10: break
    stats(h, j, kind)
