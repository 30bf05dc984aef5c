"""Operations by key on an arbitrary tree, with a comparison consistent with the order (or with any comparison).

What is known about the key is kept as two marks in the in-order sequence: every item left of `lo` is less than the key
and every item right of `hi` is greater.  An answer of the comparison moves a mark; an equal item ends up between both.
A result is accepted only if the answers given on the way imply it for every key.
"""
from absint.harness import *
from absint.core import NeedForce
from .tree import TH, judge_outs, final, marks_at, stats, ROOT, len_problem, show
from .nav import same_gap, span

LO, HI = ('m', 'lo'), ('m', 'hi')


def where(st, x):
    """(node, slot, items in the node) of item x"""
    for k, v in st.mem.items():
        if k[0] == 'node':
            r = []

            def walk(u):
                if type(u) is not tuple: return
                if u[0] == 'T': r.append(u[1])
                elif u[0] == 'A':
                    for e in u[2]: walk(e)
                elif u[0] == 'V':
                    for e in u[1]: walk(e)
            walk(v)
            if x in r: return k[1], r.index(x), len(r)
    return None


def retoken(v, a, b):
    if type(v) is not tuple: return v
    if v[0] == 'T': return ('T', b) if v[1] == a else v
    if v[0] == 'A':
        y = tuple([retoken(e, a, b) for e in v[2]])
        return v if y == v[2] else ('A', v[1], y)
    if v[0] == 'V':
        y = tuple([retoken(e, a, b) for e in v[1]])
        return v if y == v[1] else ('V', y)
    return v


class Cmp:
    """the comparison; `mode`: what becomes of the place that is found; `part` (i, n): only the i-th of n parts of the paths"""

    def __init__(self, h, key, mode, part=None, free=False, panics=False):
        self.h = h; self.key = key; self.mode = mode; self.part = part; self.free = free; self.panics = panics

    def __call__(self, I, cx):
        st = cx.st
        a, b = (st.get(r[1], r[2]) for r in cx.args[1][2])
        if type(a) is not tuple or type(b) is not tuple or a[0] != 'T' or b[0] != 'T': raise Bad('the comparison is called on something that is not a live item')
        if self.panics and 'panicked' not in st.gh:
            c = st.gh.pop('choice', None)
            if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'go'), lambda s: s.gh.__setitem__('choice', 'p')])
            if c == 'p':
                st.gh['panicked'] = True
                raise Panic('comparison panicked')
        a, b = a[1], b[1]
        if a == b == self.key: return ordering(0)
        if b == self.key: return ordering(self.answer(st, a))
        if a == self.key: return ordering(-self.answer(st, b))
        raise Stuck('comparison of two items of the tree')

    def answer(self, st, x):
        c = st.gh.pop('answer', None)
        if c is not None: return c
        if self.free: raise Fork([(lambda s, k=k: s.gh.__setitem__('answer', k)) for k in (-1, 0, 1)])
        if x == 'REM': return 0
        Y = st.gh['Y']
        s = ('i', x)
        if s not in Y: raise Stuck('comparison with an unknown item')
        p = Y.index(s)
        if LO in Y:
            lo, hi = Y.index(LO), Y.index(HI)
            if p < lo: return -1
            if p > hi: return 1
            if st.gh.get('x_eq'): return 0
        else:
            g = [i for i, e in enumerate(Y) if e in (('m', 'gap'), ('m', 'rem'))][0]
            return -1 if p < g else 1

        def less(s): self.move(s, x, -1)
        def equal(s): self.move(s, x, 0)
        def greater(s): self.move(s, x, 1)
        raise Fork([less, equal, greater])

    def move(self, st, x, c):
        st.gh['answer'] = c
        Y = [e for e in st.gh['Y']]
        p = Y.index(('i', x))
        if c == -1:
            Y.insert(p + 1, LO); Y.remove(LO) if Y.index(LO) <= p else Y.pop(len(Y) - 1 - Y[::-1].index(LO))
        elif c == 1:
            i = Y.index(HI); Y.pop(i); Y.insert(p, HI)
        else:
            Y.remove(LO); Y.remove(HI)
            p = Y.index(('i', x))
            Y[p:p + 1] = [LO, ('i', x), HI]
            st.gh['x_eq'] = True
        st.gh['Y'] = tuple(Y)
        lo, hi = Y.index(LO), Y.index(HI)
        if lo > hi: raise Infeasible()
        done = c == 0 or hi == lo + 1
        if done and self.part:
            w = where(st, x)
            if w and (w[1] * 3 + w[2]) % self.part[1] != self.part[0]: raise Infeasible()
        if not done: return
        if self.mode == 'insert' and c != 0:
            Y[lo:hi + 1] = [('m', 'gap'), ('i', 'X')]
            st.gh['Y'] = tuple(Y)
        if self.mode == 'remove' and c == 0:
            Y[lo:hi + 1] = [('m', 'rem')]
            st.gh['Y'] = tuple(Y)
            st.gh.pop('x_eq')
            st.gh['x_found'] = True
            for k, v in list(st.mem.items()):
                if type(v) is tuple:
                    w = retoken(v, x, 'REM')
                    if w is not v: st.mem[k] = w


def comparator(h, f):
    for n in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'): h.I.handlers[n] = f


def start(h, mode, root='any', level=None):
    st = h.state()
    if root is None:
        h.t.init(st, [('m', 'gap'), ('i', 'X')] if mode == 'insert' else [LO, HI], None)
        return st, h.with_tree(st, None)
    h.t.state_root(st, [LO], [HI])
    if level is not None: st.dom[h.t.rec(st, ROOT).level[1]] = level
    return st, h.with_tree(st, ROOT)


def unjustified(h, s, cur):
    """the items that may still be equal to the key, given the answers so far"""
    Y = s.gh['Y']
    mk = marks_at(h, s, cur)
    lo, hi = mk['lo'], mk['hi']
    return not same_gap(h, s, cur, lo, hi)


def eqname(s):
    Y = s.gh['Y']
    return Y[Y.index(LO) + 1][1]


def drops_of(s, tok): return sum(1 for e in s.ev if e[0] == 'drop' and e[1] == tok)


def addr_of_ref(v):
    """(node, path) of a reference into a node"""
    if type(v) is not tuple or v[0] != 'R' or v[1][0] != 'node': return None
    return v[1][1]


def by_key(ck, classes, op, empty=False, part=None, level=None):
    """RawBTree::{insert, remove, get, get_mut, address_of} with a consistent comparison"""
    def g(j):
        h = TH(ck, fold=level is None)
        if level is not None: h.t.I.maxvisits = 400
        key = h.method(op)
        mode = op if op in ('insert', 'remove') else 'get'
        st, B = start(h, mode, None if empty else 'any', None if level is None else (level, level))
        tok = 'X' if op == 'insert' else 'KEY'
        cmp = Cmp(h, tok, mode, part)
        comparator(h, cmp)
        j.starts += 1
        fn = ('O', 'cmp')
        if op == 'insert': args = [B, fn, T('X')]
        else:
            st.mem[('h', 'key')] = T('KEY')
            args = [B, fn, ('R', ('h', 'key'), (), None)]
        outs = h.I.call_all([st], key, args)

        def check(s, v):
            found = s.gh.get('x_eq')
            if op == 'insert' and found:
                e = eqname(s)
                Y = list(s.gh['Y'])
                Y[Y.index(('i', e))] = ('i', 'X')
                s.gh['Y'] = tuple(Y)
                f, cur, P = final(h, s, h.rd_tree(s)[0])
                len_problem(h, s, f, cur, 0, P)
                old = h.rdopt(v)
                if old != T(e): P.append(('map', 'the replaced item is not returned'))
                return P
            if op == 'insert':
                if LO in s.gh['Y']:
                    f, cur, P = final(h, s, h.rd_tree(s)[0])
                    return P + [('map', 'an item is inserted without knowing its place')]
                f, cur, P = final(h, s, h.rd_tree(s)[0])
                len_problem(h, s, f, cur, 1, P)
                if h.rdopt(v) is not None: P.append(('map', 'an item is returned although none was replaced'))
                if drops_of(s, 'X'): P.append(('map', 'the inserted item is dropped'))
                return P
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            if op == 'remove' and s.gh.get('x_found'):
                len_problem(h, s, f, cur, -1, P)
                if h.rdopt(v) != T('REM'): P.append(('map', 'the removed item is not returned'))
                if drops_of(s, 'REM'): P.append(('map', 'the removed item is dropped'))
                return P
            len_problem(h, s, f, cur, 0, P)
            if op == 'address_of':
                return P + address_result(h, s, f, cur, v, found)
            got = h.rdopt(v)
            if not found:
                if got is not None: P.append(('map', 'an item is returned although none is known to be equal'))
                elif unjustified(h, s, cur): P.append(('map', 'nothing is returned although there may be an equal item'))
                return P
            if op == 'remove': P.append(('map', 'nothing is removed although there is an equal item')); return P
            if got is None: P.append(('map', 'nothing is returned although there is an equal item')); return P
            if got[0] != 'R' or s.get(got[1], got[2]) != T(eqname(s)): P.append(('map', 'another item is returned than the equal one'))
            return P
        judge_outs(h, j, outs, check, classes, op)
        stats(h, j, op)
    w = 'on an empty tree' if empty else 'on any tree' if level is None else 'on a tree of height %d' % (level + 1)
    if part is not None: w += ' (part %d of %d)' % (part[0] + 1, part[1])
    ck.run('%s with a consistent comparison, %s' % (op, w), 'RawBTree::' + op, g)


def address_result(h, s, f, cur, v, found):
    """Result<Address, Option<Address>>"""
    P = []
    ok = v[1] == 0
    a = v[2][0]
    if ok:
        if not found: return [('map', 'an address is reported although no item is known to be equal')]
        m, o = h.rdaddr(a)
        at = h.t.place_of(s, f, m, o)
        if at is None or at in ('gone', 'out') or cur[at] != ('i', eqname(s)): P.append(('map', 'the reported address is not the one of the equal item'))
        return P
    if found: return [('map', 'no item is reported although there is an equal one')]
    a = h.rdopt(a)
    if f is None:
        if a is not None: P.append(('map', 'an address is reported in an empty tree'))
        return P
    if a is None: return [('map', 'no insertion point is reported in a tree that is not empty')]
    m, o = h.rdaddr(a)
    if ('node', m) not in s.mem or has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
    at = h.t.place_of(s, f, m, o)
    if at in ('gone', 'out'): return [('map', 'the reported insertion point is not a valid address')]
    if at is None: return [('?', 'position of the insertion point')]
    if span(f, m)[0].kind != 'leaf': P.append(('map', 'the reported insertion point is not in a leaf'))
    mk = marks_at(h, s, cur)
    if not same_gap(h, s, cur, mk['lo'], mk['hi']): P.append(('map', 'the reported insertion point is not justified by the comparisons'))
    elif not same_gap(h, s, cur, at, mk['lo']): P.append(('map', 'the reported insertion point is not between the neighbours of the key'))
    return P


def any_cmp(ck, classes, op, empty=False, panics=False, bound=None, part=None):
    """address_of / get / get_mut / remove / insert with a comparison that answers anything (or panics)"""
    def g(j):
        h = TH(ck, fold=bound is None)
        h.t.I.maxvisits = 400
        key = h.method(op)
        mode = op if panics and op in ('insert', 'remove') else 'get'
        st, B = start(h, mode, None if empty else 'any', None if bound is None else (0, bound))
        tok = 'X' if op == 'insert' else 'KEY'
        comparator(h, Cmp(h, tok, mode, part, free=not panics, panics=panics))
        j.starts += 1
        fn = ('O', 'cmp')
        if op == 'insert': args = [B, fn, T('X')]
        else:
            st.mem[('h', 'key')] = T('KEY')
            args = [B, fn, ('R', ('h', 'key'), (), None)]
        outs = h.I.call_all([st], key, args)

        def check(s, v):
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            if op == 'address_of':
                a = v[2][0]
                if v[1] != 0:
                    a = h.rdopt(a)
                    if f is None: return P + ([('map', 'an address is reported in an empty tree')] if a is not None else [])
                    if a is None: return P + [('map', 'no insertion point is reported in a tree that is not empty')]
                m, o = h.rdaddr(a)
                if ('node', m) not in s.mem or has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
                gg = span(f, m)
                n = sum(1 for p in gg[0].parts if type(p) is not FN_) if gg else -1
                o = norm(s, o)
                if gg is None or type(o) is not int or not 0 <= o <= n: P.append(('map', 'the reported address is not valid'))
                elif v[1] == 0 and o == n: P.append(('map', 'the reported address is not the address of an item'))
                elif v[1] == 1 and gg[0].kind != 'leaf': P.append(('map', 'the reported insertion point is not in a leaf'))
                return P
            got = h.rdopt(v)
            if got is not None and (got[0] != 'R' or type(s.get(got[1], got[2])) is not tuple or s.get(got[1], got[2])[0] != 'T'): P.append(('map', 'something is returned that is not an item'))
            return P

        def unwound(s, v):
            Y = s.gh['Y']
            if ('m', 'gap') in Y: s.gh['Y'] = tuple(e for e in Y if e != ('i', 'X'))
            if ('m', 'rem') in Y: s.gh['Y'] = tuple(('i', 'REM') if e == ('m', 'rem') else e for e in Y)
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            len_problem(h, s, f, cur, 0, P)
            d = [e[1] for e in s.ev if e[0] == 'drop']
            if op == 'insert':
                if d.count('X') > 1: P.append(('own', 'the item is dropped twice'))
                d = [x for x in d if x != 'X']
            if d: P.append(('own', 'an item of the tree is dropped'))
            return P
        if panics:
            o2 = []
            for o in outs:
                if o.kind == 'unw' and o.st.gh.get('panicked'): o.kind = 'ret'; o2.append(o)
                elif o.kind != 'ret': o2.append(o)
            judge_outs(h, j, o2, unwound, classes, op)
        else: judge_outs(h, j, outs, check, classes, op)
        stats(h, j, op)
    w = 'on an empty tree' if empty else 'on any tree' if bound is None else 'on any tree of height up to %d (unfolded)' % bound
    if part: w += ' (part %d of %d)' % (part[0] + 1, part[1])
    ck.run('%s with %s, %s' % (op, 'a comparison that panics' if panics else 'any comparison', w), 'RawBTree::' + op, g)


from absint.tree import FN as FN_


def ends(ck, classes, name, empty=False, level=None):
    """first / last accessors"""
    def g(j):
        h = TH(ck, fold=level is None)
        if level is not None: h.t.I.maxvisits = 400
        key = h.method(name)
        st = h.state()
        if empty:
            h.t.init(st, [], None); B = h.with_tree(st, None)
        else:
            h.t.state_root(st)
            if level is not None: st.dom[h.t.rec(st, ROOT).level[1]] = (level, level)
            B = h.with_tree(st, ROOT)
        j.starts += 1
        outs = h.I.call_all([st], key, [B])

        def check(s, v):
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            len_problem(h, s, f, cur, 0, P)
            v = h.rdopt(v)
            if f is None:
                if v is not None: P.append(('ends', 'something is returned from an empty tree'))
                return P
            if v is None: P.append(('ends', 'nothing is returned although the tree is not empty')); return P
            if name.endswith('address'):
                m, o = h.rdaddr(v)
                if ('node', m) not in s.mem or has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
                at = h.t.place_of(s, f, m, o)
                if at in ('gone', 'out') or at is None or cur[at][0] != 'i': P.append(('ends', 'the returned address is not the address of an item')); return P
            else:
                x = s.get(v[1], v[2]) if v[0] == 'R' else None
                if type(x) is not tuple or x[0] != 'T' or ('i', x[1]) not in cur: P.append(('ends', 'something is returned that is not an item of the tree')); return P
                at = cur.index(('i', x[1]))
            if name.startswith('first'): ok = same_gap(h, s, cur, 0, at)
            else: ok = same_gap(h, s, cur, at + 1, len(cur))
            if not ok: P.append(('ends', 'another item is returned than the %s one' % name[:5].rstrip('_')))
            return P
        judge_outs(h, j, outs, check, classes, name)
        stats(h, j, name)
    ck.run('%s of %s' % (name, 'an empty tree' if empty else 'any tree' if level is None else 'a tree of height %d' % (level + 1)), 'RawBTree::' + name, g)


def nowhere(ck, classes, level):
    """removing at an address that is not the address of an item; get_at and get_mut_at at any address"""
    from .nav import starts, before_value, BEFORE
    for name in ('remove_at', 'get_at', 'get_mut_at'):
        def g(j):
            h = TH(ck)
            key = h.method(name)
            bv = before_value(h)
            for s0, kind, count in starts(h, level):
                offs = [BEFORE, count, count + 1, count + 9] + (list(range(count)) if name != 'remove_at' else [])
                for off in offs:
                    st = s0.copy()
                    st.gh['x_case'] = (off, count, kind)
                    B = h.with_tree(st, ROOT)
                    r = st.gh['root']
                    if r != ROOT: st.mem[('h', 'B')] = h.tree_value(r, st.gh['len0'])
                    v0 = st.mem[('node', 'n')] if ('node', 'n') in st.mem else None
                    j.starts += 1
                    outs = h.I.call_all([st], key, [B, h.addr('n', bv if off == BEFORE else off)])

                    def check(s, v, off=off, count=count):
                        f, cur, P = final(h, s, h.rd_tree(s)[0])
                        len_problem(h, s, f, cur, 0, P)
                        v = h.rdopt(v)
                        if off == BEFORE or off >= count:
                            if v is not None: P.append(('map', 'something is returned for an address that denotes no item'))
                            return P
                        if v is None: P.append(('map', 'nothing is returned for the address of an item')); return P
                        at = h.t.place_of(s, f, 'n', off)
                        x = s.get(v[1], v[2]) if v[0] == 'R' else None
                        if type(x) is not tuple or x[0] != 'T' or cur[at] != ('i', x[1]): P.append(('map', 'another item is returned than the one at the address'))
                        return P
                    judge_outs(h, j, outs, check, classes, '%s at %s of %d' % (name, off, count))
            stats(h, j, name)
        ck.run('%s: %s of %s' % (name, 'an address without item' if name == 'remove_at' else 'any address', ('a leaf', 'an internal node')[level]), 'RawBTree::' + name, g)


def replace(ck, classes, level):
    """replace_at at the address of any item"""
    def g(j):
        h = TH(ck)
        key = h.method('replace_at')
        for off in range(8 - level):
            st = h.state()
            h.t.state_at(st, [('i', 'X')], 'item', off, level=level if level == 0 else None)
            if level: st.dom[st.gh['tk']['n'].level[1]] = (1, 1 << 40)
            st.gh['x_case'] = off
            j.starts += 1
            B = h.with_tree(st, ROOT)
            outs = h.I.call_all([st], key, [B, h.addr('n', off), T('NEW')])

            def check(s, v):
                s.gh['Y'] = tuple(('i', 'NEW') if e == ('i', 'X') else e for e in s.gh['Y'])
                f, cur, P = final(h, s, h.rd_tree(s)[0])
                len_problem(h, s, f, cur, 0, P)
                if v != T('X'): P.append(('map', 'another item is returned than the replaced one'))
                if drops_of(s, 'X') or drops_of(s, 'NEW'): P.append(('own', 'an item is dropped'))
                return P
            judge_outs(h, j, outs, check, classes, 'replace_at %d' % off)
        stats(h, j, 'replace_at')
    ck.run('replace_at: any item of %s' % ('a leaf', 'an internal node')[level], 'RawBTree::replace_at', g)


def empties(ck, classes):
    """new, default, len, is_empty"""
    for name in ('new', 'default', 'len', 'is_empty', 'root'):
        def g(j):
            h = TH(ck)
            h.I.handlers['std::default::Default::default'] = lambda I, cx: ('O', 'storage')
            key = ck.method('RawBTree', name, 'std::default::Default' if name == 'default' else None)
            if name in ('new', 'default'):
                st = h.state(); h.t.init(st, [], None); h.tree_type()
                j.starts += 1

                def check(s, v):
                    s.mem[('h', 'B')] = v
                    return [] if h.rd_tree(s) == (None, 0) else [('len', 'a new tree is not empty')]
                judge_outs(h, j, h.I.call_all([st], key, []), check, classes, name)
                return
            for empty in (True, False):
                st = h.state()
                if empty: h.t.init(st, [], None)
                else: h.t.state_root(st)
                B = h.with_tree(st, None if empty else ROOT)
                j.starts += 1

                def check(s, v, empty=empty):
                    f, cur, P = final(h, s, h.rd_tree(s)[0])
                    len_problem(h, s, f, cur, 0, P)
                    if name == 'len': ok = norm(s, v) == norm(s, s.gh['len0'])
                    elif name == 'is_empty': ok = v == int(empty)
                    else: ok = h.rdopt(v) == (None if empty else N(s.gh['root']))
                    if not ok: P.append(('len', '%s of %s tree is wrong' % (name, 'an empty' if empty else 'a non-empty')))
                    return P
                judge_outs(h, j, h.I.call_all([st], key, [B]), check, classes, name)
            stats(h, j, name)
        ck.run('%s' % name, 'RawBTree::' + name, g)
