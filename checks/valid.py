"""The debug validator: what it accepts and what it rejects, decided for an arbitrary node, by induction on the height.

A node of any kind and occupancy is built with a right or wrong parent link; the comparison answers anything that is
consistent with a total order.  The recursion is cut at the children by the contract that is being proved: the validator of
a child, given the child, this node and the separators around the child, either accepts and returns a value that grows by
one per level, or panics.  Every exit is judged: acceptance requires all of the conditions, rejection one violated condition.
"""
from absint.harness import *
from .tree import TH, judge_outs, stats, ROOT
from .sweep import VH

INF = 1 << 40


class FH(VH):
    def __init__(self, ck):
        TH.__init__(self, ck, fold=False)
        self.I.call_hook = self.hook
        H = self.I.handlers
        for n in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'): H[n] = self.cmp
        H['callable'] = lambda I, cx, f, args: self.compare(cx.st, args)
        H['storage::Storage::get'] = self.get
        self.roles = None
        self.key = None

    def get(self, I, cx):
        n = self.t.nid(cx.args[1])
        if n != ROOT: raise Stuck('the validator looks at another node')
        return ('R', ('node', n), (), None)

    def cmp(self, I, cx): return self.compare(cx.st, cx.args[1][2])

    def implied(self, st, a, b):
        """-1, 0, 1 or None: what the answers so far imply for a and b"""
        if a == b: return 0
        le = {}; lt = set()
        for x, y, r in st.gh['ord']:
            if r == 0: le.setdefault(x, set()).add(y); le.setdefault(y, set()).add(x)
            else:
                le.setdefault(x, set()).add(y); lt.add((x, y))

        def reach(x, y):
            """None, 'le' or 'lt'"""
            best = {x: 0}; todo = [x]
            while todo:
                u = todo.pop()
                for w in le.get(u, ()):
                    s = max(best[u], int((u, w) in lt))
                    if best.get(w, -1) < s: best[w] = s; todo.append(w)
            return best.get(y)
        p, q = reach(a, b), reach(b, a)
        if p is not None and q is not None: return 0
        if p == 1: return -1
        if q == 1: return 1
        return None

    def compare(self, st, args):
        v = [st.get(r[1], r[2]) for r in args]
        for x in v:
            if type(x) is not tuple or x[0] != 'T': raise Bad('the comparison is called on something that is not an item')
        a, b = v[0][1], v[1][1]
        r = self.implied(st, a, b)
        if r is None:
            def fact(f):
                def g(s): s.gh['ord'] = s.gh['ord'] + (f,)
                return g
            raise Fork([fact((a, b, -1)), fact((a, b, 0)), fact((b, a, -1))])
        return ordering(r)

    # -- recursion
    def hook(self, I, cx):
        key = cx.f.get('key')
        st = cx.st
        if key not in self.reckeys() or not any(f.kind == 'fn' and f.fn.key == key for f in st.fr): return False
        k = st.gh['k']
        ids = [i for i, a in enumerate(cx.args) if type(a) is tuple and a[0] == 'N']
        if len(ids) != 1 or not cx.args[ids[0]][1].startswith('c'): return False      # entered; the cycle is cut elsewhere
        c = int(cx.args[ids[0]][1][1:])
        opts = [i for i, a in enumerate(cx.args) if type(a) is tuple and a[0] == 'A' and a[1] in (0, 1) and len(a[2]) == a[1]]
        if len(opts) != 3: return False
        fn = self.p.fn(key)
        par = [i for i in opts if self.p.types[self.p.types[fn.locals[i + 1]]['args'][0]]['k'] == 'alias']
        if len(par) != 1: raise Stuck('recursion of %s' % key)
        sep = [i for i in opts if i != par[0]]
        if self.key is None:
            self.key = key
            self.shape = (ids[0], par[0], tuple(sep), tuple(cx.args))
        mn = ('R', st.gh['refs'][c - 1]) if c > 0 else st.gh['min']
        mx = ('R', st.gh['refs'][c]) if c < k else st.gh['max']
        # which of the two options is the lower separator is settled by the first child that tells
        if self.roles is None:
            g0, g1 = (self.tok(st, cx.args[i]) for i in sep)
            w = (self.val(st, mn), self.val(st, mx))
            if w[0] == w[1]: raise Stuck('separators')
            if (g0, g1) == w: self.roles = (sep[0], sep[1])
            elif (g1, g0) == w: self.roles = (sep[1], sep[0])
            else: raise Bad('a child is validated against other separators', 'order')
        lo, hi = self.roles
        if cx.args[par[0]] != some(N(ROOT)): raise Bad('a child is validated against another parent', 'order')
        if self.tok(st, cx.args[lo]) != self.val(st, mn) or self.tok(st, cx.args[hi]) != self.val(st, mx): raise Bad('a child is validated against other separators', 'order')
        ch = st.gh.pop('choice', None)
        if ch is None:
            opt = [0, 'no'] + ([] if not st.gh['done'] else [1, -1, 2, -2])
            raise Fork([(lambda s, o=o: s.gh.__setitem__('choice', o)) for o in opt])
        st.gh['done'] = st.gh['done'] | {c}
        if ch == 'no':
            st.gh['bad'] = 'child'
            raise Panic('invalid child')
        if ch != 0: st.gh['bad'] = 'depth'
        rt = self.p.types[fn.locals[0]]
        if rt['k'] != 'uint': raise Stuck('result of ' + key)
        cx.finish(('L', 'd', ch))
        return True

    def val(self, st, x):
        if x is None: return None
        return st.get(*x[1])[1]

    def tok(self, st, o):
        if o == NONE: return None
        r = o[2][0]
        return st.get(r[1], r[2])[1]

    # -- the node under validation
    def build(self, st, kind, n, parent):
        rep = self.rep
        items = [T('x%d' % i) for i in range(n)]
        if kind == 'leaf': v = rep.node('leaf', rep.leaf(parent, items))
        else: v = rep.node('internal', rep.internal(parent, N('c0'), [(items[i], N('c%d' % (i + 1))) for i in range(n)]))
        st.mem[('node', ROOT)] = v
        refs = {}
        for i in range(n):
            # items are referred to by name; refs only serve as the expected separators
            st.mem[('h', 'x%d' % i)] = items[i]
            refs[i] = (('h', 'x%d' % i), ())
        st.gh['refs'] = refs; st.gh['k'] = n; st.gh['ord'] = (); st.gh['done'] = frozenset(); st.gh['bad'] = None
        st.gh['rel'] = frozenset(); st.gh['tk'] = {}; st.gh['Y'] = ()
        st.dom['d'] = (2, INF)


def validator(ck):
    """all nodes in the role of the root (through the entry point), then in the role of a child (through the recursion)"""
    h = FH(ck)
    res = {}

    def judge(j, outs, kind, n, parent_ok, mn, mx, root):
        for o in outs:
            j.exits += 1
            st = o.st
            lo, hi = (h.rep.leaf_min, h.rep.leaf_max) if kind == 'leaf' else (h.rep.int_min, h.rep.int_max)
            what = '%s%s with %d items' % (kind, ' root' if root else '', n)
            if o.kind == 'bad': j.problems.append('%s: %s%s' % (what, o.val.msg, ' at ' + ' < '.join(o.where[:3]) if o.where else '')); continue
            if o.kind == 'stuck': j.undecided.append(str(o.val)); continue
            if o.kind == 'abort': j.problems.append('%s: the process aborts' % what); continue
            need = [('x%d' % i, 'x%d' % (i + 1)) for i in range(n - 1)]
            if n and mn: need.append(('MIN', 'x0'))
            if n and mx: need.append(('x%d' % (n - 1), 'MAX'))
            rel = [(a, b, h.implied(st, a, b)) for a, b in need]
            wrong = None
            if not parent_ok: wrong = 'a wrong parent link'
            elif not root and not lo <= n <= hi: wrong = '%d items' % n
            elif root and kind == 'internal' and n == 0: wrong = 'an empty internal root'
            if o.kind == 'ret':
                if wrong: j.problems.append('%s: accepted with %s' % (what, wrong))
                open_ = [r for r in rel if r[2] != -1]
                if open_: j.problems.append('%s: accepted although %s and %s %s' % (what, open_[0][0], open_[0][1], 'are not in order' if open_[0][2] is not None else 'were not compared'))
                if kind == 'internal':
                    if st.gh['done'] != frozenset(range(n + 1)): j.problems.append('%s: accepted without looking at every child' % what)
                    if st.gh['bad']: j.problems.append('%s: accepted with children of different depths' % what)
                if not root:
                    res.setdefault(kind, set()).add(norm(st, o.val))
                if st.mem[('node', ROOT)] != st.gh['before']: j.problems.append('%s: the node is modified' % what)
            else:
                if wrong or st.gh['bad'] or any(r[2] in (0, 1) for r in rel): continue
                j.problems.append('%s: a well-formed node is rejected (%s)' % (what, o.val))

    def cases(kind): return range(1 if kind == 'leaf' else 0, (h.rep.leaf_cap if kind == 'leaf' else h.rep.int_cap) + 1)

    def roots(j, kinds):
        key = ck.method('RawBTree', 'validate')
        h.tree_type()
        for kind in kinds:
            for n in cases(kind):
                if n > (h.rep.leaf_max if kind == 'leaf' else h.rep.int_max): continue
                for pok in (True, False):
                    st = h.state()
                    h.build(st, kind, n, NONE if pok else some(N('c9')))
                    st.gh['min'] = st.gh['max'] = None
                    st.gh['before'] = st.mem[('node', ROOT)]
                    st.mem[('h', 'B')] = h.tree_value(ROOT, ('L', 'len', 0)); st.dom['len'] = (1, INF)
                    j.starts += 1
                    outs = h.I.call_all([st], key, [('R', ('h', 'B'), (), None), ('O', 'cmp')])
                    judge(j, outs, kind, n, pok, False, False, True)
        if 'leaf' not in kinds: j.steps += h.I.steps; return
        st = h.state()
        h.build(st, 'leaf', 1, NONE)
        st.mem[('h', 'B')] = h.tree_value(None, 0)
        j.starts += 1
        for o in h.I.call_all([st], key, [('R', ('h', 'B'), (), None), ('O', 'cmp')]):
            j.exits += 1
            if o.kind == 'stuck': j.undecided.append(str(o.val))
            elif o.kind != 'ret': j.problems.append('the empty tree is rejected')
        j.steps += h.I.steps

    def children(j, kinds):
        if h.key is None or h.roles is None: raise Missing('recursion of the validator')
        idi, pari, sep, args0 = h.shape
        for kind in kinds:
            for n in cases(kind):
                for pok in (True, False):
                    for mn, mx in ((True, True), (True, False), (False, True)):
                        st = h.state()
                        h.build(st, kind, n, some(N('P')) if pok else some(N('Q')))
                        if mn: st.mem[('h', 'MIN')] = T('MIN')
                        if mx: st.mem[('h', 'MAX')] = T('MAX')
                        if mn and mx: st.gh['ord'] = (('MIN', 'MAX', -1),)
                        st.gh['min'] = ('R', (('h', 'MIN'), ())) if mn else None
                        st.gh['max'] = ('R', (('h', 'MAX'), ())) if mx else None
                        st.gh['before'] = st.mem[('node', ROOT)]
                        st.mem[('h', 'B')] = h.tree_value(ROOT, ('L', 'len', 0)); st.dom['len'] = (1, INF)
                        st.mem[('h', 'cmp')] = ('O', 'cmp')
                        fn = h.p.fn(h.key)
                        args = []
                        for i in range(fn.argc):
                            ty = h.p.types[fn.locals[i + 1]]
                            if i == idi: args.append(N(ROOT))
                            elif i == pari: args.append(some(N('P')))
                            elif i in h.roles:
                                w = 'MIN' if i == h.roles[0] else 'MAX'
                                args.append(some(('R', ('h', w), (), None)) if (mn if w == 'MIN' else mx) else NONE)
                            elif ty['k'] == 'ref':
                                e = h.p.types[ty['elem']]
                                args.append(('R', ('h', 'B' if e['k'] == 'adt' else 'S' if e['k'] == 'param' and e['name'] == 'S' else 'cmp'), (), None))
                            else: raise Stuck('argument of ' + h.key)
                        j.starts += 1
                        outs = h.I.call_all([st], h.key, args)
                        judge(j, outs, kind, n, pok, mn, mx, False)
        # the result measures the height
        d = res.get('internal', set()); l = res.get('leaf', set())
        if d and d != {('L', 'd', 1)} or len(l) > 1 or any(type(x) is not int for x in l): j.undecided.append('the value that the validator returns does not grow by one per level')
        j.steps += h.I.steps
    for kinds in (('leaf',), ('internal',)): ck.run('validation of the root (%s)' % kinds, 'RawBTree::validate', lambda j: roots(j, kinds))
    for kinds in (('leaf',), ('internal',)): ck.run('validation of any other node (%s)' % kinds, 'RawBTree::validate_node', lambda j: children(j, kinds))
