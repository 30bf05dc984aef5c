"""Cloning of a whole tree: an arbitrary tree, a fresh storage for the copy, and the recursion cut by its contract.

The contract of the recursive function on a child c of the original: it returns the identifier of a new node of the new
storage, the root of a copy of the subtree of c (same shape, cloned items); its parent link is not specified.  It is proved
by induction on the height: under the contract for the children, the copy of an arbitrary node is interpreted and compared.
"""
from absint.harness import *
from absint.tree import INF
from .tree import TH, judge_outs, final, stats, ROOT, show
from .sweep import VH


def copy_of(c): return 'copy of ' + c


class KH(VH):
    def __init__(self, ck, panics=False):
        VH.__init__(self, ck, 'clone', False, panics)
        H = self.I.handlers
        self.I.loop_hook = None
        self.I.both_drops = not panics
        H['storage::Storage::get'] = self.get
        H['storage::Storage::get_mut'] = self.get_mut
        H['storage::Storage::allocate_node'] = self.alloc
        H['storage::Storage::release_node'] = self.release
        H['clone_token'] = self.clone_token

    def store(self, cx):
        a = cx.args[0]
        v = cx.st.get(a[1], a[2]) if a[0] == 'R' else a
        if type(v) is not tuple or v[0] != 'O': raise Stuck('storage expected')
        return v[1]

    def home(self, st, n): return st.gh['home'].get(n, 'storage')

    def get(self, I, cx):
        n = self.t.nid(cx.args[1])
        if self.home(cx.st, n) != self.store(cx): raise Bad('a node is looked up in another storage', 'order')
        return self.t.h_get(I, cx)

    def get_mut(self, I, cx):
        if self.store(cx) == 'storage': raise Bad('mutable access to a node of the original', 'order')
        return self.get(I, cx)

    def alloc(self, I, cx):
        s = self.store(cx)
        if s == 'storage': raise Bad('a node is allocated in the original storage', 'order')
        r = self.t.h_alloc(I, cx)
        cx.st.gh['home'] = dict(cx.st.gh['home']); cx.st.gh['home'][r[1]] = s
        return r

    def release(self, I, cx): raise Stuck('release of a node during cloning')

    def clone_token(self, I, cx, v):
        st = cx.st
        if self.panics and not st.gh.get('panicked'):
            c = st.gh.pop('choice', None)
            if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'no'), lambda s: s.gh.__setitem__('choice', 'yes')])
            if c == 'yes':
                st.gh['panicked'] = True
                raise Panic('clone')
        x = v[1]
        if x.startswith('clone('): raise Bad('a clone is cloned', 'order')
        n = st.gh['copies'].get(x, 0) + 1
        st.gh['copies'] = dict(st.gh['copies']); st.gh['copies'][x] = n
        return ('T', 'clone(%s)' % x)

    def on_drop(self, I, st, v):
        x = v[1]
        if not x.startswith('clone('): raise Bad('an item of the original is dropped' if x != '(dropped)' else 'an item is dropped twice', 'ownership')
        if not st.gh.get('panicked'): raise Bad('a clone is dropped', 'ownership')
        st.gh['dropped'] = d = st.gh['dropped'] + (x,)
        if d.count(x) > st.gh['copies'].get(x[6:-1], 0): raise Bad('an item is dropped twice', 'ownership')
        return None

    def hook(self, I, cx):
        key = cx.f.get('key')
        st = cx.st
        if key not in self.reckeys() or not any(f.kind == 'fn' and f.fn.key == key for f in st.fr): return False
        fn = self.p.fn(key)
        rt = self.p.types[fn.locals[0]]
        if rt['k'] != 'alias': return False      # entered; the cycle is cut elsewhere
        ns = [a[1] for a in cx.args if type(a) is tuple and a[0] == 'N']
        new = set()
        for a in cx.args:
            if type(a) is tuple and a[0] == 'R':
                v = st.get(a[1], a[2])
                if type(v) is tuple and v[0] == 'O' and v[1].startswith('fresh'): new.add(v[1])
        if len(ns) != 1 or len(new) != 1: return False
        c = ns[0]
        if not any(c in ks for ks in st.gh['kids'].values()): raise Bad('the recursion does not go down to a child', 'order')
        if self.zoom(st, c): return False
        if self.panics and not st.gh.get('panicked'):
            ch = st.gh.pop('choice', None)
            if ch is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'no'), lambda s: s.gh.__setitem__('choice', 'yes')])
            if ch == 'yes':
                st.gh['panicked'] = True
                raise Panic('clone')
        n = copy_of(c)
        if self.t.rec(st, n) is not None: raise Bad('a subtree is copied twice', 'order')
        self.t.setrec(st, n, level=self.t.rec(st, c).level, par='?')
        st.gh['home'] = dict(st.gh['home']); st.gh['home'][n] = new.pop()
        cx.finish(N(n))
        return True


def clone(ck, panics=False, classes=('orig', 'copy', 'len')):
    def g(j, empties):
        for empty in empties:
            h = KH(ck, panics)
            st = h.setup(h.state())
            st.gh['home'] = {}; st.gh['copies'] = {}; st.gh['dropped'] = ()
            if empty: h.t.init(st, [], None)
            else: h.t.state_root(st)
            B = h.with_tree(st, None if empty else ROOT)
            before = st.mem[('h', 'B')]
            j.starts += 1
            outs = h.I.call_all([st], ck.method('RawBTree', 'clone', 'std::clone::Clone'), [B])

            def check(s, v, empty=empty):
                f, cur, P = final(h, s, None if empty else ROOT)
                P = [('orig', 'the original: ' + p[1]) if p[0] != '?' else p for p in P if p[0] in ('seq', 'link', '?')]
                if s.mem[('h', 'B')] != before: P.append(('orig', 'the original tree is modified'))
                if s.gh['rel']: P.append(('orig', 'a node is released'))
                drops = [e[1] for e in s.ev if e[0] == 'dropO']
                if any(drops.count(d) > 1 for d in drops): P.append(('orig', 'a storage is dropped twice'))
                if 'storage' in drops: P.append(('orig', 'the storage of the original is dropped'))
                if s.gh.get('panicked'): return P
                if v == U or type(v) is not tuple or v[0] != 'A': raise Stuck('the clone')
                bt = h.bt
                if norm(s, v[2][bt['len']]) != norm(s, s.gh['len0']): P.append(('len', 'the length of the clone differs'))
                nodes = v[2][bt['nodes']]
                if nodes in (('O', 'storage'),) or nodes[1] in drops: P.append(('copy', 'the storage of the clone'))
                r = v[2][bt['root']]
                if empty: return P + ([('copy', 'the clone of an empty tree has a root')] if r[1] != 0 else [])
                if r[1] == 0: return P + [('copy', 'the clone has no root')]
                n = h.t.nid(r[2][0])
                if h.home(s, n) != nodes[1]: return P + [('copy', 'the root of the clone is in another storage')]
                w, Q, seen = h.t.flat_tree(s, n)
                for x in seen:
                    if h.home(s, x) != nodes[1]: P.append(('copy', 'the clone is linked to a node of another storage'))
                P += [('copy', 'the clone: ' + p[1]) if p[0] != '?' else p[:2] for p in Q]
                want = []
                for y in cur:
                    if y[0] == 'i': want.append(('i', 'clone(%s)' % y[1]))
                    elif y[0] == 's': want.append(('s', copy_of(y[1])))
                    else: raise Stuck('symbol %r' % (y,))
                got = w.syms([])
                if got != want: P.append(('copy', 'the items of the clone are [%s] where [%s] is expected' % (show(got), show(want))))
                if (w.kind == 'leaf') != (f.kind == 'leaf'): P.append(('copy', 'the shape of the clone differs'))
                for x in s.mem:
                    if x[0] == 'node' and x[1] not in seen and h.home(s, x[1]) == nodes[1]: P.append(('copy', 'a node is allocated that is not in the clone'))
                return P
            if panics:
                keep = []
                for o in outs:
                    if o.kind == 'unw' and o.st.gh.get('panicked'): o.kind = 'ret'
                    elif o.kind == 'ret': continue
                    keep.append(o)
                outs = keep
            judge_outs(h, j, outs, check, ('orig',) if panics else classes, 'clone')
            stats(h, j, 'clone')
    for e in (False,) if panics else (True, False):
        ck.run('RawBTree::clone of %s tree' % ('the empty' if e else 'any') + (' with a clone that panics' if panics else ''), 'RawBTree::clone', lambda j: g(j, (e,)))
