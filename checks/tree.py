"""Tree-level obligations over trees of any height and content (the shape domain of absint/tree.py)."""
from absint.harness import *
from absint.tree import Tree, FN, INF
from .rank import Ranker

ROOT = 'ROOT'


class TH:
    def __init__(self, ck, fold=True):
        self.ck = ck; self.p = ck.p; self.rep = ck.rep
        self.I = ck.interp()
        self.t = Tree(self.I, ck.rep, fold)
        if ck.prop == 'C22': Ranker(self.t)
        self.tyT = [i for i, x in enumerate(self.p.types) if x['k'] == 'param' and x['name'] == 'T'][0]
        ad = [t for t in self.p.types if t['k'] == 'adt' and t.get('local') and t.get('kind') == 'struct' and t['path'].split('::')[-1] == 'Address']
        if not ad: raise Missing('Address')
        fs = ad[0]['variants'][0]['fields']
        if len(fs) != 2: raise Missing('representation of Address')
        self.a_node = [i for i, f in enumerate(fs) if self.p.types[f['ty']]['k'] != 'adt'][0]

    def storage(self, name, self_ty='S'):
        """a provided method of the storage trait, for an arbitrary storage"""
        for k, i in self.p.insts.items():
            if i['path'] == 'storage::Storage::' + name and 'blocks' in i and k.startswith('<Self as'): return k
        ks = [k for k, i in self.p.insts.items() if i['path'] == 'storage::Storage::' + name and 'blocks' in i]
        if not ks: raise Missing('Storage::' + name)
        return ks[0]

    def addr(self, n, off):
        o = ('A', 0, (off,))
        return ('A', 0, (('N', n), o) if self.a_node == 0 else (o, ('N', n)))

    def rdaddr(self, v):
        n, o = v[2][self.a_node], v[2][1 - self.a_node]
        while type(o) is tuple and o[0] == 'A': o = o[2][0]
        return n[1], o

    def rdopt(self, v):
        if type(v) is not tuple or v[0] != 'A': raise Problem('an Option is expected')
        return None if v[1] == 0 else v[2][0]

    def state(self):
        st = State()
        st.mem[('h', 'S')] = ('O', 'storage')
        return st

    def S(self): return ('R', ('h', 'S'), (), None)

    # -- the tree object
    def tree_type(self):
        ts = [t for t in self.p.types if t['k'] == 'adt' and t.get('local') and t.get('kind') == 'struct' and t['path'].split('::')[-1] == 'RawBTree']
        if not ts: raise Missing('RawBTree')
        r = {}
        for i, f in enumerate(ts[0]['variants'][0]['fields']):
            ty = self.p.types[f['ty']]
            k = 'nodes' if ty['k'] == 'param' else 'len' if ty['k'] == 'uint' else 'root' if ty.get('path') == 'std::option::Option' else 'none' if ty.get('path') == 'std::marker::PhantomData' else None
            if k is None or k in r: raise Missing('representation of RawBTree')
            r[k] = i
        if not {'nodes', 'len', 'root'} <= set(r): raise Missing('representation of RawBTree')
        self.bt = r
        return len(ts[0]['variants'][0]['fields'])

    def tree_value(self, root, n, storage='storage'):
        k = self.tree_type()
        f = [('A', 0, ())] * k
        f[self.bt['nodes']] = ('O', storage); f[self.bt['root']] = NONE if root is None else some(N(root)); f[self.bt['len']] = n
        return ('A', 0, tuple(f))

    def with_tree(self, st, root, lo=1, slot='B'):
        """put an arbitrary tree object with the given root into memory; its length is the number of its items"""
        if root is None: n = 0
        else:
            v = st.fresh('v'); st.dom[v] = (lo, INF); n = ('L', v, 0)
        st.mem[('h', slot)] = self.tree_value(root, n)
        st.gh['len0'] = n
        return ('R', ('h', slot), (), None)

    def rd_tree(self, st, slot='B'):
        """(root name or None, length)"""
        v = st.mem[('h', slot)]
        r = v[2][self.bt['root']]
        return None if r[1] == 0 else r[2][0][1], norm(st, v[2][self.bt['len']])

    def method(self, name, ty='RawBTree'): return self.ck.method(ty, name)

    # -- judging of the final heap
    def expand(self, st, f):
        """run f (which may need materialisation) on all refinements of st; yields (state, result)"""
        out = []; stack = [st]
        n = 0
        while stack:
            s = stack.pop(); n += 1
            if n > 3000: raise Undecided('too many refinements')
            s2 = s.copy()
            try:
                try: out.append((s2, f(s2)))
                except NeedForce as z:
                    self.t.force(s2, z.alloc[1])
                    stack.append(s2)
            except Fork as fk:
                for g in fk.branches:
                    s3 = s2.copy()
                    try: g(s3)
                    except Infeasible: continue
                    stack.append(s3)
            except Infeasible: pass
        return out

    def tree(self, st, rootname):
        """final state: the flattened tree; raises Problem on any violation, by class"""
        f, P, seen = self.t.flat_tree(st, rootname)
        for k in st.mem:
            if k[0] == 'node' and k[1] not in seen: P.append(('leak', 'a node that is not part of the tree any more is never released'))
        return f, P


from absint.core import NeedForce


class TJ:
    """judge: collects problems of the requested classes"""

    def __init__(self, j, classes): self.j = j; self.classes = classes

    def rep(self, label, cls, msg):
        if cls == '?': self.j.undecided.append(msg)
        elif cls in self.classes: self.j.problems.append('%s: %s' % (label, msg))


def judge_outs(h, j, outs, check, classes, label=''):
    if h.t.ranker and h.t.ranker not in j.rankers: j.rankers.append(h.t.ranker)
    late = h.I.deadline + 15 if h.I.deadline else INF
    for o in outs:
        j.exits += 1
        if len(j.problems) > 30: break      # decided
        if time.time() > late: j.undecided.append('time limit'); break
        where = (' at ' + ' < '.join(o.where[:4])) if o.where else ''
        if o.kind == 'bad':
            j.problems.append('%s: %s%s' % (label, o.val.msg, where)); continue
        if o.kind == 'stuck':
            j.undecided.append('%s%s' % (o.val, where)); continue
        if o.kind != 'ret':
            j.problems.append('%s: unexpected panic (%s) in %s' % (label, o.val, o.st.gh.get('pwhere'))); continue
        try:
            for st, res in h.expand(o.st, lambda s: check(s, o.val)):
                for p in res:
                    if p[0] == '?': j.undecided.append(p[1])
                    elif p[0] in classes: j.problems.append('%s: %s' % (label, p[1]))
        except Problem as p: j.problems.append('%s: %s' % (label, p))
        except Bad as b: j.problems.append('%s: %s' % (label, b.msg))
        except (Undecided, Stuck) as u: j.undecided.append(str(u))
        except (IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get('ABSINT_DEBUG'): raise
            j.undecided.append('result of unexpected form (%s %s)' % (type(e).__name__, e))


def show(syms): return ' '.join(s[1] if s[0] == 'i' else '%s%s' % (s[0], ','.join(str(x) for x in s[1:])) for s in syms)


def final(h, st, rootname):
    """problems of the final tree, its symbols"""
    f, P = h.tree(st, rootname)
    cur = f.syms([]) if f is not None else []
    ok, Y = h.t.seq_ok(st, cur, True)
    P = [p[:2] for p in P]
    if not ok: P.append(('seq', 'the items are [%s] where [%s] is expected' % (show(cur), show(Y))))
    return f, cur, P


def marks_at(h, st, cur):
    """index in cur of every mark of Y (valid when the sequences agree)"""
    r = {}; i = 0
    for s in st.gh['Y']:
        if s[0] == 'm': r[s[1]] = i
        else: i += 1
    return r


def rootof(h, v):
    x = h.rdopt(v)
    return None if x is None else x[1]


def place_problem(h, s, f, cur, v, want, what, P):
    """the address v must be at position `want` of the sequence"""
    m, o = h.rdaddr(v)
    if ('node', m) in s.mem and has_lazy(s.mem[('node', m)]): raise NeedForce(('node', m))
    if m in s.gh['rel']: P.append(('addr', '%s is in a released node' % what)); return
    at = h.t.place_of(s, f, m, o)
    if at == 'gone': P.append(('addr', '%s is in a node outside the tree' % what))
    elif at is None: P.append(('?', 'position of %s' % what))
    elif at != 'out' and at != want and any(x[0] in ('h<', 'h>') and h.t.rec(s, x[1]).pin for x in cur[min(at, want):max(at, want)]):
        raise NeedForce(('node', [x[1] for x in cur[min(at, want):max(at, want)] if x[0] in ('h<', 'h>') and h.t.rec(s, x[1]).pin][0]))
    elif at == 'out' or at != want: P.append(('addr', '%s is not where it should be' % what))


def len_problem(h, s, f, cur, delta, P, slot='B'):
    """the length has changed by delta, and the tree is empty exactly when it has no root"""
    root, n = h.rd_tree(s, slot)
    want = nadd(s, s.gh['len0'], delta) if delta >= 0 else nadd(s, s.gh['len0'], -delta, -1)
    if norm(s, want) != norm(s, n): P.append(('len', 'the length is %s where %s is expected' % (show_len(s, n), show_len(s, want))))


def show_len(s, n):
    n = norm(s, n)
    return n if type(n) is int else 'the initial one%s' % ('%+d' % n[2] if n[2] else '')


def feasible_len(h, s, root, delta):
    """a tree whose content is completely known fixes its length"""
    f, P, seen = h.t.flat_tree(s, root)
    cur = f.syms([]) if f is not None else []
    n = s.gh['len0']
    if type(n) is int: return True
    k = sum(1 for x in cur if x[0] == 'i') - delta
    lo, hi = s.dom[n[1]]
    lo, hi = (lo, hi) if type(lo) is int else (min(s.dom[n[1]]), max(s.dom[n[1]]))
    return lo <= k if all(x[0] == 'i' for x in cur) else True


def bounded(h, st, level, height):
    """the tree has a root at level `height`, the node of the operation is at level `level`"""
    if height is None: return
    r = h.t.rec(st, ROOT)
    if type(r.level) is tuple: st.dom[r.level[1]] = (height, height)
    l = st.gh['tk']['n'].level
    if type(l) is tuple: st.dom[l[1]] = (level, level)
    h.t.I.maxvisits = 400


def insert(ck, classes, level, exact, off, height=None):
    """RawBTree::insert_at / insert_exactly_at at an arbitrary address of an arbitrary tree"""
    fname = 'insert_exactly_at' if exact else 'insert_at'

    def g(j):
        h = TH(ck, fold=height is None)
        key = h.method(fname)
        st = h.state()
        if off is None:
            h.t.init(st, [('i', 'X')], None)
            addr = NONE
            B = h.with_tree(st, None)
        else:
            h.t.state_at(st, [('m', 'gap'), ('i', 'X')], 'gap', off, level=level if level == 0 else None)
            if level: st.dom[st.gh['tk']['n'].level[1]] = (1, INF)
            bounded(h, st, level, height)
            addr = some(h.addr('n', off))
            B = h.with_tree(st, ROOT)
        j.starts += 1
        args = [B, addr, T('X')] + ([NONE] if exact else [])
        outs = h.I.call_all([st], key, args)

        def check(s, a):
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            len_problem(h, s, f, cur, 1, P)
            a = h.rdopt(a)
            if a is None: P.append(('addr', 'no address is returned for the inserted item')); return P
            if ('i', 'X') in cur: place_problem(h, s, f, cur, a, cur.index(('i', 'X')), 'the returned address', P)
            return P
        judge_outs(h, j, outs, check, classes, 'at an address')
        stats(h, j, fname)
    w = 'into an empty tree' if off is None else 'at %s address %d' % (('a leaf', 'an internal')[min(level, 1)], off)
    if height is not None: w += ' of a tree of height %d' % (height + 1)
    ck.run('%s: %s' % (fname, w), 'RawBTree::' + fname, g)


def stats(h, j, what):
    j.steps = h.I.steps
    if os.environ.get('VERIF_SLOW'):
        print(what, 'folds', h.t.nfold, 'pruned', h.t.npruned, 'seen', len(h.t.seen), 'states', h.I.nstates, 'nofold', h.t.nofold)


def remove(ck, classes, level, off, height=None):
    """RawBTree::remove_at at an arbitrary item address of an arbitrary tree"""
    def g(j):
        h = TH(ck, fold=height is None)
        key = h.method('remove_at')
        st = h.state()
        h.t.state_at(st, [('m', 'rem')], 'rem', off, level=level if level == 0 else None)
        if level: st.dom[st.gh['tk']['n'].level[1]] = (1, INF)
        bounded(h, st, level, height)
        j.starts += 1
        B = h.with_tree(st, ROOT)
        outs = h.I.call_all([st], key, [B, h.addr('n', off)])

        def check(s, v):
            r = h.rdopt(v)
            if r is None: raise Problem('removing at an item address removes nothing')
            f, cur, P = final(h, s, h.rd_tree(s)[0])
            len_problem(h, s, f, cur, -1, P)
            if r[2][0] != T('REM'): P.append(('seq', 'another item is returned than the one at the address'))
            a = h.rdopt(r[2][1])
            if f is None:
                if a is not None: P.append(('addr', 'an address is returned although the tree became empty'))
                return P
            if a is None: P.append(('addr', 'no address is returned although the tree is not empty')); return P
            mk = marks_at(h, s, cur)
            place_problem(h, s, f, cur, a, mk['rem'], 'the returned address', P)
            return P
        judge_outs(h, j, outs, check, classes, 'removal')
        stats(h, j, 'remove')
    ck.run('remove_at: at %s address %d%s' % (('a leaf', 'an internal')[min(level, 1)], off, '' if height is None else ' (level %d) of a tree of height %d' % (level, height + 1)), 'RawBTree::remove_at', g)
