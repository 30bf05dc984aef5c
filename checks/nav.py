"""Navigation between addresses, from any address of any tree (the shape domain of absint/tree.py)."""
from absint.harness import *
from absint.core import NeedForce
from absint.tree import Tree, FN, INF, subst
from .tree import TH, judge_outs, final, marks_at, stats, ROOT

BEFORE = 'before'


def before_value(h):
    """the representation of the offset that precedes every position"""
    I = h.ck.interp()
    ks = [i['key'] for i in h.p.items if i['name'] == 'before' and (i.get('self_ty') or '').split('::')[-1] == 'Offset']
    if not ks: raise Missing('Offset::before')
    k = ks[0]
    outs = I.call_all([State()], k, [])
    if len(outs) != 1 or outs[0].kind != 'ret': raise Stuck('Offset::before')
    v = outs[0].val
    while type(v) is tuple and v[0] == 'A' and len(v[2]) == 1: v = v[2][0]
    return v


def span(f, name):
    """the FN called name and its (start, end) in the symbol sequence"""
    def walk(g, i):
        if g.name == name: return g, i, i + len(g.syms([]))
        for p in g.parts:
            if type(p) is FN:
                r = walk(p, i)
                if r: return r
                i += len(p.syms([]))
            else: i += 1
        return None
    return walk(f, 0)


def parent_of(f, name):
    """(FN of the parent, index among its children)"""
    for i, c in enumerate([p for p in f.parts if type(p) is FN]):
        if c.name == name: return f, i
        r = parent_of(c, name)
        if r: return r
    return None


def starts(h, level, bound=None):
    """an arbitrary materialised node n of an arbitrary tree: (state, kind, number of items)"""
    st = h.state()
    t = h.t
    t.init(st)
    t.setrec(st, ROOT, level=t.levelvar(st), par=None)
    if bound is not None: st.dom[t.rec(st, ROOT).level[1]] = (level, bound)
    lv = t.levelvar(st, 1) if level else 0
    if level and bound is not None: lv = level
    t.setrec(st, 'n', level=lv, par='?', up=(ROOT, 'any'))
    st.gh['Y'] = (('c<', ROOT, 'n'), ('s', 'n'), ('c>', ROOT, 'n'))
    out = []
    for s, _ in h.expand(st, lambda s: t.force(s, 'n')):
        f, P, seen = t.flat_tree(s, s.gh['root'])
        if P: raise Stuck('initial state: %s' % P[0][1])
        g = span(f, 'n')[0]
        out.append((s, g.kind, sum(1 for p in g.parts if type(p) is not FN)))
    return out


def mark(st, i, m):
    """put a mark before the i-th symbol"""
    Y = list(st.gh['Y'])
    Y.insert(i, ('m', m)); st.gh['Y'] = tuple(Y)


def same_gap(h, s, cur, i, j):
    """are the gaps i and j of the sequence the same?  Materialises what may be empty."""
    if i > j: i, j = j, i
    for x in cur[i:j]:
        if x[0] in ('i', 's'): return False
    for x in cur[i:j]:
        if x[0] in ('c<', 'c>'): h.t.resolve_up(s, x[2])
        raise NeedForce(('node', x[1]))
    return True


def setup(h, s, off, count, after):
    """mark the place of the given address of node n (the place after the item, for the functions that move forward)"""
    s = s.copy()
    f, _, _ = h.t.flat_tree(s, s.gh['root'])
    g, a, b = span(f, 'n')
    if off == BEFORE: mark(s, a, 'at'); return s
    if off > count: mark(s, b, 'at'); return s
    at = h.t.place_of(s, f, 'n', off)
    mark(s, at + 1 if after and off < count else at, 'at')
    return s


def locate(h, s, f, m, o, P, want):
    """index of the place (m, o); reports addresses that are not valid"""
    if ('node', m) in s.mem and has_lazy(s.mem[('node', m)]) or ('node', m) not in s.mem: raise NeedForce(('node', m))
    g = span(f, m)
    if g is None: P.append(('addr', 'the returned address is in a node outside the tree')); return None
    g = g[0]
    n = sum(1 for p in g.parts if type(p) is not FN)
    if type(norm(s, o)) is not int: conc(s, o)
    o = norm(s, o)
    if want == 'item' and not 0 <= o < n: P.append(('addr', 'the returned address is not the address of an item')); return None
    if not 0 <= o <= n: P.append(('addr', 'the returned address is out of the bounds of its node')); return None
    return h.t.place_of(s, f, m, o)


SPECS = {}


def nav(ck, name, level, bound=None):
    def g(j):
        h = TH(ck, fold=bound is None)
        h.t.I.maxvisits = 400
        key = h.method(name)
        bv = before_value(h)
        for s0, kind, count in starts(h, level, bound):
            offs = [BEFORE] + list(range(count + 1))
            if name in ('normalize', 'next_item_address', 'next_item_or_back_address', 'next_back_address') and bound is None: offs += [count + 1, count + 7]
            if name == 'leaf_address': offs.remove(BEFORE)
            for off in offs:
                st = setup(h, s0, off, count, name.startswith('next'))
                st.gh['x_case'] = (off, count, kind)
                j.starts += 1
                B = h.with_tree(st, st.gh['root'])
                outs = h.I.call_all([st], key, [B, h.addr('n', bv if off == BEFORE else off)])
                leaf = kind == 'leaf'

                def check(s, v, off=off, count=count, leaf=leaf):
                    f, cur, P = final(h, s, s.gh['root'])
                    P = [p for p in P if p[0] != 'occ']
                    if P: return P
                    spec(h, s, f, cur, name, off, count, leaf, bv, v if name == 'leaf_address' else h.rdopt(v), P, bound)
                    return P
                judge_outs(h, j, outs, check, ('seq', 'link', 'addr', 'occ'), '%s of a %s with %d items' % (off, kind, count))
                if len(j.problems) > 20: break
        stats(h, j, name)
    b = '' if bound is None else ' (unfolded, height up to %d)' % bound
    ck.run('%s: from any address of %s%s' % (name, 'an internal node' if level else 'a leaf', b), 'RawBTree::' + name, g)


def spec(h, s, f, cur, name, off, count, leaf, bv, a, P, bound):
    bad = lambda m: P.append(('addr', m))
    mk = marks_at(h, s, cur)
    inside = off != BEFORE and off < count
    here = mk['at']
    if off != BEFORE and off > count and name == 'next_back_address': return      # not a valid address
    if a is not None: m, o = h.rdaddr(a)

    def item_at(want, what):
        """the result is the item right after gap `want`, or nothing if there is none"""
        if a is None:
            if not same_gap(h, s, cur, want, len(cur)): bad('nothing is returned although there is %s' % what)
            return
        at = locate(h, s, f, m, o, P, 'item')
        if at is not None and not same_gap(h, s, cur, want, at): bad('the returned address is not %s' % what)

    def item_before(want, what):
        if a is None:
            if not same_gap(h, s, cur, 0, want): bad('nothing is returned although there is %s' % what)
            return
        at = locate(h, s, f, m, o, P, 'item')
        if at is not None and not same_gap(h, s, cur, at + 1, want): bad('the returned address is not %s' % what)

    if name == 'next_item_address':
        if off != BEFORE and off > count:
            if a is not None: bad('an item follows an address out of the bounds')
            return
        return item_at(here, 'the next item')
    if name == 'normalize':
        if inside:
            if a is None or (m, norm(s, o)) != ('n', off): bad('the address of an item is not its own normal form')
            return
        return item_at(here, 'the next item')
    if name == 'next_item_or_back_address':
        if off != BEFORE and off > count: return
        want = here
        if a is None:
            if inside or off == BEFORE: bad('nothing is returned although there is a following back address')
            elif not same_gap(h, s, cur, want, len(cur)): bad('nothing is returned although there is a next item')
            return
        at = locate(h, s, f, m, o, P, 'any')
        if at is None: return
        g = span(f, m)[0]
        n = sum(1 for p in g.parts if type(p) is not FN)
        if not same_gap(h, s, cur, want, at): bad('the returned address does not directly follow')
        elif norm(s, o) == n:
            if g.kind != 'leaf': bad('an address past the items of an internal node is returned')
            elif not same_gap(h, s, cur, want, len(cur)): bad('a past-the-end address is returned although there is a next item')
        return
    if name == 'previous_item_address': return item_before(here, 'the previous item')
    if name == 'leaf_address':
        at = locate(h, s, f, m, o, P, 'any')
        if at is None: return
        if span(f, m)[0].kind != 'leaf': bad('the returned address is not in a leaf')
        if not same_gap(h, s, cur, here, at): bad('the returned leaf address is another position')
        if leaf and (m, norm(s, o)) != ('n', off): bad('a leaf address is changed')
        return
    if name == 'next_back_address':
        if off != BEFORE and off == count:
            # one step up
            p = parent_of(f, 'n')
            if a is None:
                if s.gh['root'] != 'n': bad('nothing follows a back address that is not the last one')
                return
            if s.gh['root'] == 'n': bad('a back address follows the last one'); return
            locate(h, s, f, m, o, P, 'any')
            if p is None or (m, norm(s, o)) != (p[0].name, p[1]): bad('the returned address is not the back address after the last one of the node')
            return
        if a is None: bad('nothing follows a back address that is not the last one'); return
        want = here
        if leaf:
            if (m, norm(s, o)) != ('n', 0 if off == BEFORE else off + 1): bad('the returned address is not the next back address')
            return
        at = locate(h, s, f, m, o, P, 'any')
        if at is None: return
        if span(f, m)[0].kind != 'leaf' or norm(s, o) != 0: bad('the returned address is not the first back address of a leaf')
        elif not same_gap(h, s, cur, want, at): bad('the returned address does not directly follow')
        return
    if name == 'previous_front_address':
        if off == BEFORE:
            p = parent_of(f, 'n')
            if a is None:
                if s.gh['root'] != 'n': bad('nothing precedes a front address that is not the first one')
                return
            if s.gh['root'] == 'n': bad('a front address precedes the first one'); return
            if ('node', m) in s.mem and has_lazy(s.mem[('node', m)]) or ('node', m) not in s.mem: raise NeedForce(('node', m))
            p = parent_of(f, 'n')
            if p is None or (m, norm(s, o)) != (p[0].name, p[1] - 1 if p[1] else bv): bad('the returned address is not the front address before the first one of the node')
            return
        if a is None: bad('nothing precedes a front address that is not the first one'); return
        if leaf:
            if (m, norm(s, o)) != ('n', off - 1 if off else bv): bad('the returned address is not the previous front address')
            return
        at = locate(h, s, f, m, o, P, 'item')
        if at is None: return
        g = span(f, m)[0]
        if g.kind != 'leaf' or not same_gap(h, s, cur, at + 1, here): bad('the returned address does not directly precede')
        return
    raise Stuck('no specification')
