"""The tree heap domain: a shape analysis with lazy materialisation and folding.

One abstract state stands for all trees of any height and content around the nodes an operation touches.
Ghost components (State.gh):
  tk    node name -> Rec(level, par, up, hole, pin)
  Y     the in-order content the tree must have, as a sequence of symbols:
          ('i', item)            an item
          ('s', n)               the whole subtree of the unmaterialised node n
          ('h<', n), ('h>', n)   what lies left/right of the hole (a known child) or the pinned place of n
          ('c<', c, x), ('c>', c, x)  what lies left/right of x inside the subtree of c, x a descendant-or-self of c
          ('m', name)            a zero-width mark
  root  the name of the root token
A node that has not been visited is a token; Storage::get materialises its shell (kind and parent), the first access to
its content partitions the state on its occupancy.  At the loop heads of tree loops, nodes that are no longer referenced
and are well formed are folded back into symbols, so that the analysis reaches a fixpoint.
"""
from collections import namedtuple
from .core import *

INF = 1 << 40
DEAD = '(dropped)'
Rec = namedtuple('Rec', 'level par up hole pin')


class NotFoldable(Exception): pass


def N(n): return ('N', n)


def subst(v, f):
    """rename node tokens in a value"""
    if type(v) is not tuple: return v
    t = v[0]
    if t == 'N':
        return ('N', f.get(v[1], v[1]))
    if t == 'R':
        a = v[1]
        if a[0] == 'node' and a[1] in f: return ('R', ('node', f[a[1]]), v[2], v[3])
        return v
    if t == 'A':
        x = v[2]
        y = tuple([subst(e, f) if type(e) is tuple else e for e in x])
        return v if x == y else ('A', v[1], y)
    if t == 'V':
        x = v[1]
        y = tuple([subst(e, f) if type(e) is tuple else e for e in x])
        return v if x == y else ('V', y)
    return v


def forget_ids(v):
    if type(v) is not tuple: return v
    if v[0] == 'N': return U
    if v[0] == 'A': return ('A', v[1], tuple([forget_ids(e) for e in v[2]]))
    return v


def names_in(v, out):
    if type(v) is not tuple: return
    t = v[0]
    if t == 'N': out.add(v[1])
    elif t == 'R':
        if v[1][0] == 'node': out.add(v[1][1])
        elif v[1][0] == 'K': pass
    elif t == 'A':
        for e in v[2]: names_in(e, out)
    elif t == 'V':
        for e in v[1]: names_in(e, out)
    elif t == 'SI' or t == 'SW':
        if v[1][0] == 'node': out.add(v[1][1])


def scan(v, bare, addrs, weak):
    """bare node tokens, optional ones (weak) and (node, offset) pairs in a value"""
    if type(v) is not tuple: return
    t = v[0]
    if t == 'N': bare.add(v[1])
    elif t == 'A':
        f = v[2]
        if v[1] == 1 and len(f) == 1 and type(f[0]) is tuple and f[0][0] == 'N':
            weak.add(f[0][1]); return
        if len(f) == 2:
            for a, b in ((f[0], f[1]), (f[1], f[0])):
                if type(a) is tuple and a[0] == 'N':
                    o = b
                    while type(o) is tuple and o[0] == 'A' and len(o[2]) == 1: o = o[2][0]
                    if is_num(o):
                        addrs.add((a[1], o)); return
        for e in f: scan(e, bare, addrs, weak)
    elif t == 'V':
        for e in v[1]: scan(e, bare, addrs, weak)
    else: names_in(v, bare)


def setoff(st, v, m, off, new):
    """replace the offset of the pairs (m, off)"""
    if type(v) is not tuple: return v
    t = v[0]
    if t == 'A':
        f = v[2]
        if len(f) == 2:
            for i in (0, 1):
                a, b = f[i], f[1 - i]
                if type(a) is tuple and a == ('N', m):
                    o = b; d = 0
                    while type(o) is tuple and o[0] == 'A' and len(o[2]) == 1: o = o[2][0]; d += 1
                    if is_num(o) and norm(st, o) == off:
                        n = new
                        for _ in range(d): n = ('A', 0, (n,))
                        return ('A', v[1], (a, n) if i == 0 else (n, a))
        y = tuple([setoff(st, e, m, off, new) if type(e) is tuple else e for e in f])
        return v if y == f else ('A', v[1], y)
    if t == 'V':
        y = tuple([setoff(st, e, m, off, new) if type(e) is tuple else e for e in v[1]])
        return v if y == v[1] else ('V', y)
    return v


class FN:
    """a node of the flattened tree: parts are symbols or FN"""
    __slots__ = ('name', 'kind', 'parts', 'level', 'par')

    def __init__(self, name, kind, parts, level, par): self.name = name; self.kind = kind; self.parts = parts; self.level = level; self.par = par

    def syms(self, out):
        for p in self.parts:
            if type(p) is FN: p.syms(out)
            else: out.append(p)
        return out


class Tree:
    def __init__(self, I, rep, fold=True):
        self.I = I; self.rep = rep; self.p = I.p
        self.seen = {}
        self.folding = fold
        self.nfold = 0; self.npruned = 0; self.nofold = {}
        self.maxun = 7
        self.ranker = None       # collects the graph of the loop heads (checks/rank.py)
        self.minlevel = 1
        I.force = self.force_hook
        H = I.handlers
        H['storage::Storage::get'] = self.h_get
        H['storage::Storage::get_mut'] = self.h_get
        H['storage::Storage::allocate_node'] = self.h_alloc
        H['storage::Storage::release_node'] = self.h_release
        H['storage::Dropper::drop_node'] = self.h_dropnode
        H['ideq'] = self.h_ideq
        I.loop_hook = self.loop_hook
        I.maxvisits = 200; I.maxsteps = 1 << 40

    # ------------------------------------------------------------------ ghost records
    def rec(self, st, n):
        r = st.gh['tk'].get(n)
        return r

    def setrec(self, st, n, **kw):
        d = dict(st.gh['tk'])
        r = d.get(n) or Rec(None, '?', None, None, None)
        d[n] = r._replace(**kw)
        st.gh['tk'] = d

    def delrec(self, st, n):
        d = dict(st.gh['tk']); d.pop(n, None); st.gh['tk'] = d

    def init(self, st, Y=(), root='ROOT'):
        st.gh['tk'] = {}; st.gh['Y'] = tuple(Y); st.gh['root'] = root; st.gh['rel'] = frozenset()

    def levelvar(self, st, lo=0):
        v = st.fresh('L')
        st.dom[v] = (lo, INF)
        return ('L', v, 0)

    def ysub(self, st, rules):
        """rewrite symbols of Y: dict symbol -> list"""
        Y = st.gh['Y']; out = []; hit = 0
        for s in Y:
            r = rules.get(s)
            if r is None: out.append(s)
            else: out.extend(r); hit += 1
        st.gh['Y'] = tuple(out)

    # initial states
    def state_at(self, st, mid=(), kind='gap', off=None, name='n', level=None):
        """an arbitrary node `name` of an arbitrary tree; `mid`: symbols at the place (name, off)"""
        self.init(st)
        self.setrec(st, 'ROOT', level=self.levelvar(st), par=None)
        pin = None if off is None else (off, kind)
        self.setrec(st, name, level=self.levelvar(st) if level is None else level, par='?', up=('ROOT', 'any'), pin=pin)
        inner = [('s', name)] if pin is None else [('h<', name)] + list(mid) + [('h>', name)]
        st.gh['Y'] = tuple([('c<', 'ROOT', name)] + inner + [('c>', 'ROOT', name)])
        return st

    def state_root(self, st, pre=(), post=()):
        self.init(st)
        self.setrec(st, 'ROOT', level=self.levelvar(st), par=None)
        st.gh['Y'] = tuple(pre) + (('s', 'ROOT'),) + tuple(post)
        return st

    # ------------------------------------------------------------------ levels
    def level_eq(self, st, a, b):
        """restrict to level a == level b; Infeasible if impossible"""
        a = norm(st, a); b = norm(st, b)
        if type(a) is int and type(b) is int:
            if a != b: raise Infeasible()
            return
        if type(a) is int: a, b = b, a
        if type(b) is int:
            lo, hi = st.dom[a[1]]
            k = b - a[2]
            if not lo <= k <= hi: raise Infeasible()
            st.dom[a[1]] = (k, k)
            return
        if a[1] == b[1]:
            if a[2] != b[2]: raise Infeasible()
            return
        # substitute a := b: var a[1] = b[1] + (b[2] - a[2])
        k = b[2] - a[2]
        la, ha = st.dom[a[1]]; lb, hb = st.dom[b[1]]
        lo, hi = max(lb, la - k), min(hb, ha - k if ha < INF else INF)
        if lo > hi: raise Infeasible()
        st.dom[b[1]] = (lo, hi)
        d = {}
        for n, r in st.gh['tk'].items():
            l = r.level
            if type(l) is tuple and l[1] == a[1]: r = r._replace(level=('L', b[1], l[2] + k))
            d[n] = r
        st.gh['tk'] = d
        st.dom.pop(a[1], None)
        if self.ranker:
            st.gh['lsub'] = dict(st.gh.get('lsub') or {}); st.gh['lsub'][a[1]] = ('L', b[1], k)

    def level_lt(self, st, a, b):
        a = norm(st, a); b = norm(st, b)
        if type(a) is int and type(b) is int:
            if not a < b: raise Infeasible()
        elif type(a) is int:
            lo, hi = st.dom[b[1]]
            lo = max(lo, a + 1 - b[2])
            if lo > hi: raise Infeasible()
            st.dom[b[1]] = (lo, hi)
        elif type(b) is int:
            lo, hi = st.dom[a[1]]
            hi = min(hi, b - 1 - a[2])
            if lo > hi: raise Infeasible()
            st.dom[a[1]] = (lo, hi)
        elif a[1] == b[1]:
            if not a[2] < b[2]: raise Infeasible()

    # ------------------------------------------------------------------ materialisation
    def rename(self, st, old, new):
        f = {old: new}
        for k, v in list(st.mem.items()):
            if k[0] == 'node' and k[1] == old: raise Stuck('renaming a materialised node')
            if type(v) is tuple:
                w = subst(v, f)
                if w is not v: st.mem[k] = w
        d = {}
        for n, r in st.gh['tk'].items():
            if r.par == old: r = r._replace(par=new)
            if r.up and r.up[0] == old: r = r._replace(up=(new, r.up[1]))
            if r.hole and r.hole[0] == old: r = r._replace(hole=(new, r.hole[1]))
            if n != old: d[n] = r
        st.gh['tk'] = d
        st.gh['Y'] = tuple(tuple(new if (i and e == old) else e for i, e in enumerate(s)) if s[0] != 'i' and s[0] != 'm' else s for s in st.gh['Y'])
        if st.gh.get('root') == old: st.gh['root'] = new
        for fr in st.fr:
            if fr.work: fr.work = [(('node', new) if w[0] == ('node', old) else w[0],) + tuple(w[1:]) for w in fr.work]

    def resolve_up(self, st, x):
        """decide whether the fragment top x is the token c it hangs below, or a proper descendant (then its parent is created)"""
        r = self.rec(st, x)
        c, side = r.up[0], r.up[1]
        strict = len(r.up) > 2

        def eq(s): self.up_eq(s, x)

        def ne(s):
            rc, rx = self.rec(s, c), self.rec(s, x)
            if rc.level is not None and rx.level is not None: self.level_lt(s, rx.level, rc.level)
            P = s.fresh('p')
            lv = norm(s, rx.level)
            lv = lv + 1 if type(lv) is int else ('L', lv[1], lv[2] + 1)
            self.setrec(s, P, level=lv, par='?', up=(c, side), hole=(x, side))
            self.setrec(s, x, par=P, up=None)
            self.ysub(s, {('c<', c, x): [('c<', c, P), ('h<', P)], ('c>', c, x): [('h>', P), ('c>', c, P)]})
        raise Fork([ne] if strict else [eq, ne])

    def split_up(self, st, x):
        """decide whether the fragment top x is the token it hangs below or a proper descendant of it"""
        c, side = self.rec(st, x).up

        def ne(s):
            rc, rx = self.rec(s, c), self.rec(s, x)
            if rc.level is not None and rx.level is not None: self.level_lt(s, rx.level, rc.level)
            self.setrec(s, x, up=(c, side, 'strict'))
        raise Fork([lambda s: self.up_eq(s, x), ne])

    def up_eq(self, s, x):
        c = self.rec(s, x).up[0]
        rc, rx = self.rec(s, c), self.rec(s, x)
        if rc.level is not None and rx.level is not None: self.level_eq(s, rx.level, rc.level)
        rc = self.rec(s, c)
        self.ysub(s, {('c<', c, x): [], ('c>', c, x): []})
        self.setrec(s, x, par=rc.par, up=rc.up)
        if rc.hole or rc.pin: raise Stuck('a fragment below a hole')
        self.rename(s, c, x)

    def is_root(self, st, n): return self.rec(st, n).par is None

    def shell(self, st, n):
        """make sure the kind and the parent of node n are materialised"""
        if ('node', n) in st.mem: return
        if n in st.gh['rel']: raise Bad('access to a node through a released identifier', 'use-after-release')
        r = self.rec(st, n)
        if r is None: raise Stuck('unknown node %s' % n)
        for x, rx in st.gh['tk'].items():
            if rx.up and rx.up[0] == n and len(rx.up) == 2: self.split_up(st, x)
        if r.up is not None: self.resolve_up(st, n)
        leaf = ncmp(st, 'Eq', r.level, 0)
        rep = self.rep
        root = r.par is None
        if leaf: lo, hi = (1 if root else rep.leaf_min), rep.leaf_max
        else: lo, hi = (1 if root else rep.int_min), rep.int_max
        if r.pin:
            o = conc(st, r.pin[0])
            lo = max(lo, o if r.pin[1] == 'gap' else o + 1)
            if lo > hi: raise Infeasible()
        v = st.fresh('k')
        st.dom[v] = frozenset(range(lo, hi + 1))
        par = NONE if root else some(N(r.par))
        arr = [None, None]
        arr[rep.arr_fields['len']] = ('L', v, 0)
        arr[rep.arr_fields['buf']] = ('Z', n)
        arr = ('A', 0, tuple(arr))
        if leaf:
            f = [None, None]
            f[rep.leaf_fields['parent']] = par; f[rep.leaf_fields['array']] = arr
            val = rep.node('leaf', ('A', 0, tuple(f)))
        else:
            f = [None, None, None]
            f[rep.int_fields['parent']] = par; f[rep.int_fields['array']] = arr
            f[rep.int_fields['first']] = ('Z', n)
            val = rep.node('internal', ('A', 0, tuple(f)))
        st.mem[('node', n)] = val

    def is_full(self, st, n):
        v = st.mem.get(('node', n))
        return v is not None and not has_lazy(v)

    def force_hook(self, st, alloc): self.force(st, alloc[1])

    def force(self, st, n):
        """materialise the content of node n"""
        self.shell(st, n)
        v = st.mem[('node', n)]
        if not has_lazy(v): return
        rep = self.rep
        r = self.rec(st, n)
        leaf = v[1] == rep.v_leaf
        body = v[2][0]
        arr = body[2][(rep.leaf_fields if leaf else rep.int_fields)['array']]
        ln = arr[2][rep.arr_fields['len']]
        if type(ln) is int: counts = [ln]
        else: counts = [x + ln[2] for x in sorted(st.dom[ln[1]])]
        if r.hole and r.pin: raise Stuck('a node with two known places')
        tops = [(x, rx.up[1]) for x, rx in st.gh['tk'].items() if rx.up and rx.up[0] == n]
        if tops and (r.pin or r.hole or len(tops) > 1): raise Stuck('a node with two known places')
        cases = []
        for k in counts:
            if r.hole:
                if leaf: raise Stuck('a leaf with a child')
                ix = {'L': [0], 'R': [k], 'any': range(k + 1)}[r.hole[1]]
                for i in ix: cases.append((k, i))
            elif tops:
                if leaf: raise Infeasible()
                for i in {'L': [0], 'R': [k], 'any': range(k + 1)}[tops[0][1]]: cases.append((k, i))
            elif r.pin:
                o = norm(st, r.pin[0])
                offs = [o] if type(o) is int else [x + o[2] for x in sorted(st.dom[o[1]])]
                for i in offs:
                    if i <= k if r.pin[1] == 'gap' else i < k: cases.append((k, i))
            else: cases.append((k, None))
        if not cases: raise Infeasible()

        def case(k, i):
            def g(s): self.expand(s, n, leaf, k, i, tops)
            return g
        if len(cases) == 1: return self.expand(st, n, leaf, *cases[0], tops)
        raise Fork([case(k, i) for k, i in cases])

    def expand(self, st, n, leaf, k, i, tops=()):
        rep = self.rep
        r = self.rec(st, n)
        v = st.mem[('node', n)]
        body = v[2][0]
        F = rep.leaf_fields if leaf else rep.int_fields
        ln = body[2][F['array']][2][rep.arr_fields['len']]
        if type(ln) is tuple: st.dom[ln[1]] = frozenset((k - ln[2],))
        items = [('T', st.fresh('x')) for _ in range(k)]
        if r.pin:
            o = r.pin[0]
            if type(o) is tuple: st.dom[o[1]] = frozenset((i - o[2],))
            if r.pin[1] != 'gap': items[i] = ('T', {'item': 'X', 'rem': 'REM'}[r.pin[1]])
        par = body[2][F['parent']]
        mapped = st.gh.get('stored')
        if leaf:
            body = rep.leaf(par, items)
            ch = []
        else:
            ch = [st.fresh('n') for _ in range(k + 1)]
            if r.hole: ch[i] = r.hole[0]
            body = rep.internal(par, N(ch[0]), [(items[j], N(ch[j + 1])) for j in range(k)])
            lv = norm(st, r.level)
            lv = lv - 1 if type(lv) is int else ('L', lv[1], lv[2] - 1)
            for j, c in enumerate(ch):
                if r.hole and j == i: continue
                self.setrec(st, c, level=lv, par=n)
        st.mem[('node', n)] = rep.node('leaf' if leaf else 'internal', body)
        if tops:
            x, side = tops[0]
            c = ch[i]
            self.setrec(st, x, up=(c, side))
        # content symbols
        seq = []
        cut = None; cut2 = None
        for j in range(k + 1):
            if not leaf:
                if r.hole and j == i:
                    cut = len(seq); cut2 = cut
                elif tops and j == i:
                    if side != 'L': seq.append(('c<', c, x))
                    cut = len(seq); cut2 = cut
                    if side != 'R': seq.append(('c>', c, x))
                else: seq.append(('s', ch[j]))
            if r.pin and j == i:
                cut = len(seq); cut2 = cut + (0 if r.pin[1] == 'gap' else 1)
            if j < k: seq.append(('i', items[j][1]))
        if tops: self.ysub(st, {('c<', n, x): seq[:cut], ('c>', n, x): seq[cut:]})
        elif cut is None: self.ysub(st, {('s', n): seq})
        else: self.ysub(st, {('h<', n): seq[:cut], ('h>', n): seq[cut2:]})
        self.setrec(st, n, hole=None, pin=None)
        h = getattr(self, 'on_expand', None)
        if h: h(st, n)

    # ------------------------------------------------------------------ handlers of the storage interface
    def nid(self, v):
        if type(v) is tuple and v[0] == 'N': return v[1]
        if v == U: raise Bad('use of an uninitialised or moved node identifier')
        raise Stuck('node identifier expected: %r' % (v,))

    def h_get(self, I, cx):
        n = self.nid(cx.args[1])
        st = cx.st
        if n in st.gh['rel']: raise Bad('access to a node through a released identifier', 'use-after-release')
        self.shell(st, n)
        return ('R', ('node', n), (), None)

    def h_alloc(self, I, cx):
        st = cx.st
        n = st.fresh('new')
        st.mem[('node', n)] = cx.args[1]
        st.ev.append(('allocnode', n))
        return N(n)

    def h_release(self, I, cx):
        n = self.nid(cx.args[1]); st = cx.st
        if n in st.gh['rel']: raise Bad('a node is released twice', 'use-after-release')
        self.force(st, n)
        v = st.mem.pop(('node', n))
        st.gh['rel'] = st.gh['rel'] | {n}
        return v

    def h_dropnode(self, I, cx):
        raise Stuck('drop_node')

    def h_ideq(self, I, cx, a, b):
        a, b = a[1], b[1]
        if a == b: return 1
        for x, y in ((a, b), (b, a)):
            r = self.rec(cx.st, x)
            if r is not None and r.up and r.up[0] == y: self.resolve_up(cx.st, x)
        return 0

    # ------------------------------------------------------------------ flattening
    def flat(self, st, n, parent, P, seen, top=None):
        """FN of the current subtree of n whose actual parent is `parent` (None: root, '?': unknown)"""
        if n in seen:
            P.append(('link', 'node %s is linked twice' % n)); return FN(n, 'cycle', [], None, parent)
        seen.add(n)
        if n in st.gh['rel']:
            P.append(('link', 'a link leads to a released node')); return FN(n, 'rel', [], None, parent)
        r = self.rec(st, n)
        v = st.mem.get(('node', n))
        rep = self.rep
        if v is not None:
            leaf = v[1] == rep.v_leaf
            F = rep.leaf_fields if leaf else rep.int_fields
            body = v[2][0]
            par = body[2][F['parent']]
            pn = None if par[1] == 0 else par[2][0][1] if type(par[2][0]) is tuple and par[2][0][0] == 'N' else '??'
            if parent != '?' and pn != parent:
                P.append(('link', 'the parent link of a %s is %s where %s is expected' % ('leaf' if leaf else 'node', pn, parent)))
            if has_lazy(v):
                return FN(n, 'tok', self.tok_parts(st, n, P, seen), r.level, parent)
            if leaf:
                _, items = rep.rd_leaf(st, body)
                parts = [('i', self.tokname(x)) for x in items]
                lo, hi = (1 if parent is None else rep.leaf_min), rep.leaf_max
                if not lo <= len(items) <= hi: P.append(('occ', 'a leaf%s holds %d items' % (' root' if parent is None else '', len(items)), n))
                lv = 0
                if r is not None and r.level is not None:
                    lv = norm(st, r.level)
                return FN(n, 'leaf', parts, lv, parent)
            _, ch, items = rep.rd_internal(st, body)
            lo, hi = (1 if parent is None else rep.int_min), rep.int_max
            if not lo <= len(items) <= hi: P.append(('occ', 'an internal node%s holds %d items' % (' (root)' if parent is None else '', len(items)), n))
            parts = []
            lv = None
            for j, c in enumerate(ch):
                f = self.flat(st, self.nid(c), n, P, seen)
                parts.append(f)
                if f.level is not None:
                    fl = norm(st, f.level)
                    if lv is None: lv = fl
                    elif lv != fl:
                        P.append(('link', 'children at different depths') if type(lv) is int and type(fl) is int or (type(lv) is tuple and type(fl) is tuple and lv[1] == fl[1])
                                 else ('?', 'depths of siblings not comparable'))
                if j < len(items): parts.append(('i', self.tokname(items[j])))
            up = None if lv is None else lv + 1 if type(lv) is int else ('L', lv[1], lv[2] + 1)
            return FN(n, 'int', parts, up, parent)
        if r is None:
            P.append(('?', 'unknown node %s' % n)); return FN(n, 'tok', [('s', n)], None, parent)
        if parent != '?' and r.par != parent and not (r.up and r.par == '?'):
            P.append(('link', 'the parent link of an untouched node is %s where %s is expected' % (r.par, parent)))
        return FN(n, 'tok', self.tok_parts(st, n, P, seen), r.level, parent)

    def tok_parts(self, st, n, P, seen):
        r = self.rec(st, n)
        tops = [x for x, rx in st.gh['tk'].items() if rx.up and rx.up[0] == n]
        if tops:
            if len(tops) > 1: P.append(('?', 'two fragments below one token'))
            x = tops[0]; side = self.rec(st, x).up[1]
            f = self.flat(st, x, '?', P, seen)
            parts = []
            if side != 'L': parts.append(('c<', n, x))
            parts.append(f)
            if side != 'R': parts.append(('c>', n, x))
            lx, l0 = f.level, self.rec(st, x).level
            if lx is not None and l0 is not None and norm(st, lx) != norm(st, l0): P.append(('link', 'leaves at different depths'))
            return parts
        if r.hole:
            x, side = r.hole
            f = self.flat(st, x, n, P, seen)
            l0 = norm(st, r.level)
            l0 = l0 - 1 if type(l0) is int else ('L', l0[1], l0[2] - 1)
            if f.level is not None and norm(st, f.level) != l0: P.append(('link', 'leaves at different depths'))
            parts = []
            if side != 'L': parts.append(('h<', n))
            parts.append(f)
            if side != 'R': parts.append(('h>', n))
            return parts
        if r.pin:
            k = r.pin[1]
            return [('h<', n)] + ([] if k == 'gap' else [('i', {'item': 'X', 'rem': 'REM'}[k])]) + [('h>', n)]
        return [('s', n)]

    def tokname(self, x):
        if type(x) is tuple and x[0] == 'T': return x[1]
        raise Stuck('item expected in a node: %r' % (x,))

    def flat_tree(self, st, root):
        """(FN or None, problems) for the tree whose root identifier is `root` (a name or None)"""
        P = []; seen = set()
        if root is None: return None, P, seen
        f = self.flat(st, root, None, P, seen)
        return f, P, seen

    def expected(self, st, cur):
        """the expected sequence without marks, given the current one (the edit may be pending)"""
        cs = set(cur)
        Y = []
        for s in st.gh['Y']:
            if s[0] == 'm':
                if s[1] == 'rem' and ('i', 'REM') in cs: Y.append(('i', 'REM'))
                continue
            Y.append(s)
        return Y

    def seq_ok(self, st, cur, final=False):
        Y = self.expected(st, cur if not final else [])
        cur = [s for s in cur if s[0] != 'm']
        if not final and ('i', 'X') in Y and ('i', 'X') not in cur: Y = [s for s in Y if s != ('i', 'X')]
        return Y == cur, Y

    # index of a place (m, o) in the flattened sequence
    def place_of(self, st, root_fn, m, o):
        """index in syms of the gap before slot o of node m; None if unknown"""
        res = []

        def walk(f, i):
            if f.name == m:
                if f.kind == 'tok':
                    r = self.rec(st, m)
                    if r.pin and norm(st, r.pin[0]) == norm(st, o): res.append(i + 1)
                    else: res.append(None)
                else:
                    on = norm(st, o)
                    if type(on) is not int: res.append(None)
                    else:
                        # slot o: before the o-th item
                        k = 0; j = i; found = None
                        for p in f.parts:
                            if type(p) is FN: j += len(p.syms([]))
                            else:
                                if k == on and found is None: found = j
                                j += 1; k += 1
                        if found is None and on == k: found = j
                        res.append(found if found is not None else 'out')
            for p in f.parts:
                if type(p) is FN: i = walk(p, i)
                else: i += 1
            return i
        walk(root_fn, 0)
        return res[0] if res else 'gone'

    # ------------------------------------------------------------------ loops
    def liveness(self, fn, drops=True):
        """live locals at block entry, and the locals whose address is taken; without drops: uses other than destructors"""
        c = self.p.tcache.setdefault('live%d' % drops, {})
        r = c.get(fn.key)
        if r is not None: return r
        nb = len(fn.blocks)
        use = [set() for _ in range(nb)]; deff = [set() for _ in range(nb)]
        taken = set()

        def place_uses(p, u, d, write=False):
            if write and not p[1]:
                d.append(p[0]); return
            u.append(p[0])
            for e in p[1]:
                if e[0] == 'i': u.append(e[1])

        def op_uses(o, u):
            if o[0] in ('c', 'm'): place_uses(o[1], u, [])

        def rv_uses(rv, u):
            k = rv[0]
            if k in ('ref', 'rawptr'):
                place_uses(rv[1], u, [])
                if not any(e[0] == '*' for e in rv[1][1]): taken.add(rv[1][0])
            elif k in ('discr', 'len'):
                if drops or any(e[0] == '*' for e in rv[1][1]): place_uses(rv[1], u, [])
            else:
                for x in rv[1:]:
                    if isinstance(x, list):
                        if x and x[0] in ('c', 'm') and len(x) == 2 and isinstance(x[1], list): op_uses(x, u)
                        else:
                            for y in x:
                                if isinstance(y, list) and y and y[0] in ('c', 'm'): op_uses(y, u)
        for b, blk in enumerate(fn.blocks):
            U_, D_ = use[b], deff[b]

            def rec(u, d):
                for x in u:
                    if x not in D_: U_.add(x)
                for x in d: D_.add(x)
            for s in blk[0]:
                u, d = [], []
                if s[0] == '=':
                    rv_uses(s[2], u); place_uses(s[1], u, d, True)
                elif s[0] == 'dead': d.append(s[1])
                elif s[0] == 'setd': place_uses(s[1], u, [])
                elif s[0] == 'copynon':
                    for o in s[1:]: op_uses(o, u)
                rec(u, d)
            t = blk[1]; u, d = [], []
            if t[0] == 'switch': op_uses(t[1], u)
            elif t[0] == 'call':
                op_uses(t[1], u) if t[1][0] in ('c', 'm') else None
                for o in t[2]: op_uses(o, u)
                place_uses(t[3], u, d, True)
            elif t[0] == 'drop':
                if drops: place_uses(t[1], u, [])
            elif t[0] == 'assert': op_uses(t[1], u)
            elif t[0] == 'return': u.append(0)
            rec(u, d)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                o = set()
                for s in Program.succs(fn.blocks[b][1]): o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]: live[b] = n; ch = True
        r = (live, taken)
        c[fn.key] = r
        return r

    def touches(self, key):
        """does a function (transitively) call the storage?"""
        c = self.p.tcache.setdefault('touch', {})
        if not c:
            direct = set(); calls = {}
            for k, i in self.p.insts.items():
                if 'blocks' not in i: continue
                cs = set()
                for b in i['blocks']:
                    t = b['t']
                    if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                        f = t[1][1]['fn']
                        if f['path'].startswith('storage::Storage::') and f['k'] == 'abstract': direct.add(k)
                        if f.get('key'): cs.add(f['key'])
                calls[k] = cs
            ch = True
            while ch:
                ch = False
                for k, cs in calls.items():
                    if k not in direct and cs & direct: direct.add(k); ch = True
            for k in calls: c[k] = k in direct
        return c.get(key, False)

    def loops(self, fn):
        """the natural loops of a function: head -> blocks"""
        c = self.p.tcache.setdefault('loops', {})
        if fn.key in c: return c[fn.key]
        n = len(fn.blocks)
        succ = [list(Program.succs(fn.blocks[b][1])) for b in range(n)]
        preds = [[] for _ in range(n)]
        for b in range(n):
            for x in succ[b]: preds[x].append(b)

        def reach(start, nxt, avoid):
            seen = {start}; w = [start]
            while w:
                b = w.pop()
                for x in nxt[b]:
                    if x not in seen and x != avoid: seen.add(x); w.append(x)
            return seen
        live = reach(0, succ, None)
        r = {}
        for h in fn.heads:
            if h not in live: continue
            dom = live - (reach(0, succ, h) if h != 0 else set())          # the blocks that h dominates
            back = [u for u in preds[h] if u in dom]
            if not back: body = reach(h, succ, None) & reach(h, preds, None)
            else:
                body = {h}
                for u in back: body |= reach(u, preds, h) if u != h else set()
                body &= live
            r[h] = body
        c[fn.key] = r
        return r

    def tree_loop(self, fn, head):
        c = self.p.tcache.setdefault('treeloop', {})
        r = c.get((fn.key, head))
        if r is not None: return r
        loops = self.loops(fn)
        body = loops.get(head, ())
        r = False
        for b in body:
            t = fn.blocks[b][1]
            if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                f = t[1][1]['fn']
                if f['path'].startswith('storage::Storage::') and f['k'] == 'abstract' or f.get('key') and self.touches(f['key']): r = True
        if r:
            # loops over the content of one node are bounded by its capacity: they are unrolled
            for b in body:
                t = fn.blocks[b][1]
                if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1] and t[1][1]['fn']['path'] in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back') \
                        and not (t[1][1]['fn'].get('key') and self.touches(t[1][1]['fn']['key'])) \
                        and not any(b in loops[h] and h != head and head not in loops[h] for h in loops): r = False
        c[(fn.key, head)] = r
        return r

    def clean_dead(self, st):
        """forget the values of dead locals"""
        for i, fr in enumerate(st.fr):
            if fr.kind != 'fn': continue
            live, taken = self.liveness(fr.fn)
            live2, _ = self.liveness(fr.fn, False)
            if i == len(st.fr) - 1: L = live[fr.bb]; L2 = live2[fr.bb]
            else:
                nx = st.fr[i + 1]
                L = set(); L2 = set()
                if type(nx.ret) is int: L |= live[nx.ret]; L2 |= live2[nx.ret]
                if type(nx.unw) is int: L |= live[nx.unw]; L2 |= live2[nx.unw]
            for l in range(1, fr.fn.nlocals):
                if l in taken: continue
                if l not in L: st.mem.pop((fr.uid, l), None)
                elif l not in L2:
                    # only destructors will see the value: identifiers in it do not matter
                    v = st.mem.get((fr.uid, l))
                    if type(v) is tuple:
                        names = set(); names_in(v, names)
                        if names: st.mem[(fr.uid, l)] = forget_ids(v)

    def loop_hook(self, I, st, fr):
        if not self.tree_loop(fr.fn, fr.bb): return
        self.clean_dead(st)
        rel = self.ranker.arrive(st) if self.ranker else None
        ok = False
        if self.folding and (fr.visits or {}).get(fr.bb, 0) >= 1:
            s2 = st.copy()
            try:
                self.fold(s2)
                ok = True
            except (NotFoldable, Stuck) as e:
                why = '%s: %s' % (fr.fn.path, e)
                self.nofold[why] = self.nofold.get(why, 0) + 1
        if ok:
            st.mem = s2.mem; st.gh = s2.gh; st.dom = s2.dom; st.nid = s2.nid; st.fr = s2.fr
            self.nfold += 1
        key = self.canon(st)
        if self.ranker: self.ranker.edge(st, key, rel, fr)
        hist = st.gh.get('hist') or {}
        if hist.get(key) == st.nf:
            raise Bad('infinite loop in %s' % fr.fn.path, 'termination')
        st.gh['hist'] = dict(hist); st.gh['hist'][key] = st.nf
        if ok:
            if key in self.seen:
                self.npruned += 1
                raise Infeasible()
            self.seen[key] = True
        else:
            st.gh['unf'] = st.gh.get('unf', 0) + 1
            if st.gh['unf'] > 40: raise Stuck('no fixpoint at the loop of %s' % fr.fn.path)

    # ------------------------------------------------------------------ folding
    def fold(self, st):
        root = st.gh['root']
        if root is None: raise NotFoldable('no root')
        fn, P, seen = self.flat_tree(st, root)
        bad = [p for p in P if p[0] != 'occ']
        if bad: raise NotFoldable(bad[0][1])
        old = fn.syms([])
        ok, Y = self.seq_ok(st, old)
        if not ok: raise NotFoldable('sequence')
        for k in st.mem:
            if k[0] == 'node' and k[1] not in seen: raise NotFoldable('detached node')
        live = set(); addrs = set(); weak = set()
        for k, v in st.mem.items():
            if k[0] != 'node' and type(v) is tuple: scan(v, live, addrs, weak)
        for fr in st.fr:
            if fr.work:
                for w in fr.work:
                    if w[0][0] == 'node': live.add(w[0][1])
        live |= weak - {root}
        if ('node', root) not in st.mem and not self.rec(st, root).pin: live.discard(root)
        for n in list(live):
            if n not in seen and n != root:
                if n in st.gh['rel']: live.discard(n)
                else: raise NotFoldable('a live identifier outside the tree')
        occ = set(p[2] for p in P if p[0] == 'occ')
        # structure
        index = {}; order = []

        def walk(f, anc):
            index[f.name] = (f, anc); order.append(f)
            for p in f.parts:
                if type(p) is FN: walk(p, anc + [f.name])
        walk(fn, [])
        K = set(n for n in live if n in index)
        pins = {}
        for m, o in addrs:
            if m in st.gh['rel']: continue
            if m not in index: raise NotFoldable('an address outside the tree')
            if m in K: continue
            f, anc = index[m]
            if f.kind == 'tok':
                r = self.rec(st, m)
                if r.pin and norm(st, r.pin[0]) == norm(st, o) and m not in K: pins[m] = (r.pin[0], r.pin[1]); continue
                if not r.pin and not r.hole and norm(st, o) == 0 and r.level is not None and norm(st, r.level) == 0 and f.parts == [('s', m)] and m not in pins and not any(a in live for a in anc):
                    pins[m] = (0, 'gap'); continue
                pins.pop(m, None)
                K.add(m); continue
            if m in occ or not any(a in live for a in anc) or type(norm(st, o)) is not int: K.add(m); continue
            n_items = sum(1 for p in f.parts if type(p) is not FN)
            if norm(st, o) > n_items or m in pins and norm(st, pins[m][0]) != norm(st, o): pins.pop(m, None); K.add(m); continue
            pins[m] = (o, None)
        # the interesting symbols
        marks = {}
        i = 0
        cs = set(old)
        for s in st.gh['Y']:
            if s[0] == 'm':
                marks.setdefault(i, []).append(s)
                if s[1] == 'rem' and ('i', 'REM') in cs: i += 1
            elif s == ('i', 'X') and s not in cs: marks.setdefault(i, []).append(s)
            else: i += 1
        for special in ('X', 'REM'):
            if ('i', special) in cs:
                for f in order:
                    if ('i', special) in f.parts:
                        o = 0
                        for p in f.parts:
                            if p == ('i', special): break
                            if type(p) is not FN: o += 1
                        if f.kind == 'tok':
                            if f.name not in K: pins[f.name] = self.rec(st, f.name).pin
                        elif f.name in K: pass
                        elif f.name in pins and norm(st, pins[f.name][0]) != o: pins.pop(f.name); K.add(f.name)
                        else: pins[f.name] = (o, 'item' if special == 'X' else 'rem')
        if any(n in occ for n in index if n not in K): raise NotFoldable('occupancy')
        for attempt in range(6):
            miss = self.try_fold(st, fn, index, order, K, pins, marks, old, addrs)
            if miss is None: return
            # a mark inside a forgotten part: pin its place
            best = None; j = 0

            def find(f, i):
                nonlocal best
                start = i
                k = 0
                for p in f.parts:
                    if type(p) is FN: i = find(p, i)
                    else:
                        if i == miss and f.kind in ('leaf', 'int') : best = best or (f.name, k)
                        k += 1; i += 1
                if i == miss and f.kind in ('leaf', 'int') and start < i: best = best or (f.name, k)
                return i
            find(fn, 0)
            if best is None or best[0] in pins or best[0] in K: raise NotFoldable('a mark inside a forgotten part')
            pins[best[0]] = (best[1], 'gap')
        raise NotFoldable('marks')

    def try_fold(self, st, fn, index, order, K, pins, marks, old, addrs):
        """compute the folded tree; returns the index of a mark that would be lost, or None when done"""
        needed = set(K) | set(pins)
        # unmaterialised parents of kept materialised nodes are kept as well
        for n in list(K):
            f, anc = index[n]
            if f.kind != 'tok' and anc:
                a = index[anc[-1]][0]
                if a.kind == 'tok' and self.rec(st, a.name).hole: K.add(a.name); needed.add(a.name)
        sub = {}

        def count(f):
            c = sum(count(p) for p in f.parts if type(p) is FN)
            if f.name not in needed and c >= 2:
                if f.kind == 'tok': raise NotFoldable('two places below one token')
                K.add(f.name); needed.add(f.name)
            if f.name in pins and c:
                pins.pop(f.name); K.add(f.name)
            sub[f.name] = c + (f.name in needed)
            return 1 if sub[f.name] else 0
        count(fn)
        groups = []      # (new symbols, number of old symbols)
        newrec = {}
        keepmem = set()
        fresh_par = {}
        conc_pins = set()        # pinned places that are no marked position: their offset matters

        def olen(f): return len(f.syms([]))

        def proc(f, parent):
            """emit the symbols of f as a child of a kept node (or as the root)"""
            n = f.name
            if not sub[n]:
                groups.append(([('s', n)], olen(f)))
                newrec[n] = Rec(f.level, parent, None, None, None)
                return
            if n in needed: return keep(f, parent)
            # forgotten, with exactly one needed descendant
            newrec[n] = Rec(f.level, parent, None, None, None)
            chain(f, n)

        def chain(f, c):
            left = 0; d = None; right = 0

            def rec(g):
                nonlocal left, d, right
                for p in g.parts:
                    if type(p) is FN:
                        if sub[p.name]:
                            if p.name in needed: d = p; dp.append(g)
                            else: rec(p)
                        elif d is None: left += olen(p)
                        else: right += olen(p)
                    elif d is None: left += 1
                    else: right += 1
            dp = []
            rec(f)
            side = 'any' if left and right else 'R' if left else 'L' if right else 'any'
            if not left and not right: raise NotFoldable('empty context')
            dn = d.name
            g = dp[0]
            mat = d.kind in ('leaf', 'int') and dn in K
            shell = d.kind == 'tok' and ('node', dn) in st.mem and dn in K
            if (mat or shell) and d.par != '?':
                # its parent is forgotten: a fresh unknown parent
                P = 'q%d_%s' % (self.fresh_n, dn); self.fresh_n += 1
                fresh_par[dn] = P
                lv = norm(st, d.level)
                lv = lv + 1 if type(lv) is int else ('L', lv[1], lv[2] + 1)
                newrec[P] = Rec(lv, '?', (c, side), (dn, side), None)
                if left: groups.append(([('c<', c, P), ('h<', P)], left))
                keep(d, P)
                if right: groups.append(([('h>', P), ('c>', c, P)], right))
            else:
                if left: groups.append(([('c<', c, dn)], left))
                keep(d, '?', up=(c, side))
                if right: groups.append(([('c>', c, dn)], right))

        def keep(f, parent, up=None):
            n = f.name
            r = self.rec(st, n) or Rec(f.level, parent, None, None, None)
            if n in pins:
                o, kind = pins[n]
                newrec[n] = Rec(f.level, parent, up, None, (o, kind))
                if f.kind == 'tok' and not r.pin:
                    # the first place of a node whose content is unknown
                    if sum(g[1] for g in groups) not in marks: conc_pins.add(n)
                    groups.append(([('h<', n)], 0)); groups.append(([('h>', n)], 1))
                    return
                if f.kind == 'tok':
                    for p in f.parts: groups.append(([p], 1))
                    return
                # split its own symbols at the pinned place
                L = 0; k = 0; tot = olen(f); o2 = norm(st, o); at = None; j = 0
                for p in f.parts:
                    if type(p) is FN: j += olen(p)
                    else:
                        if k == o2: at = j
                        k += 1; j += 1
                if at is None: at = tot
                if kind in (None, 'gap') and sum(g[1] for g in groups) + at not in marks: conc_pins.add(n)
                groups.append(([('h<', n)], at))
                if kind is None or kind == 'gap': groups.append(([('h>', n)], tot - at))
                else:
                    it = f.syms([])[at]
                    groups.append(([it], 1))
                    groups.append(([('h>', n)], tot - at - 1))
                return
            if ('node', n) in st.mem: keepmem.add(n)
            if f.kind == 'tok':
                newrec[n] = r._replace(par=parent, up=up, hole=None, pin=None)
                if r.hole and ('node', n) not in st.mem:
                    x = [p for p in f.parts if type(p) is FN][0]
                    if sub[x.name]:
                        newrec[n] = newrec[n]._replace(hole=(x.name, r.hole[1]))
                        for p in f.parts:
                            if type(p) is FN: proc_hole(p, n)
                            else: groups.append(([p], 1))
                    else: groups.append(([('s', n)], olen(f)))
                    return
                tops = [p for p in f.parts if type(p) is FN]
                if tops and not r.hole:
                    if not sub[tops[0].name]: groups.append(([('s', n)], olen(f))); return
                    chain(f, n); return
                if r.hole: newrec[n] = newrec[n]._replace(hole=r.hole)
                if r.pin: newrec[n] = newrec[n]._replace(pin=r.pin)
                for p in f.parts:
                    if type(p) is FN: proc_hole(p, n)
                    else: groups.append(([p], 1))
                return
            newrec[n] = Rec(f.level, parent, up, None, None)
            for p in f.parts:
                if type(p) is FN: proc(p, n)
                else: groups.append(([p], 1))

        def proc_hole(f, parent):
            """the known child of an unmaterialised kept node"""
            if f.name in needed: keep(f, parent)
            elif sub[f.name]: proc(f, parent)
            else:
                proc(f, parent)
        proc(fn, None)
        # merge adjacent groups' positions and put the marks back
        out = []; pos = 0
        used = set()

        def putmarks(i):
            if i in marks and i not in used:
                used.add(i); out.extend(marks[i])
        # zero-length groups: a mark at a boundary goes next to the pinned place
        gl = [g for g in groups]
        for gi, (syms, k) in enumerate(gl):
            # marks at `pos` are put before this group unless the group is an empty left half
            if not (k == 0 and syms[-1][0] == 'h<'): putmarks(pos)
            out.extend([x for x in syms if x != ('i', 'REM')])
            for i in marks:
                if pos < i < pos + k: return i
            pos += k
        putmarks(pos)
        if pos != len(old): raise Stuck('fold: %d symbols of %d' % (pos, len(old)))
        # commit
        # abstract the offsets of pinned places
        for m, (o, kind) in list(pins.items()):
            r = newrec[m]
            kind = kind or 'gap'
            cap = max(self.rep.leaf_cap, self.rep.int_cap)
            full = frozenset(range(0, cap + 1))
            if type(o) is tuple and o[2] == 0 and st.dom[o[1]] == full:
                newrec[m] = r._replace(pin=(o, kind)); continue
            o = norm(st, o)
            if m in conc_pins or kind == 'gap':
                newrec[m] = r._replace(pin=(o, kind)); continue
            v = st.fresh('o')
            st.dom[v] = full
            nv = ('L', v, 0)
            for k, val in list(st.mem.items()):
                if k[0] != 'node' and type(val) is tuple:
                    w = setoff(st, val, m, o, nv)
                    if w is not val: st.mem[k] = w
            newrec[m] = r._replace(pin=(nv, kind))
        for k in list(st.mem):
            if k[0] == 'node' and k[1] not in keepmem: del st.mem[k]
        rep = self.rep
        for d, P in fresh_par.items():
            v = st.mem.get(('node', d))
            leaf = v[1] == rep.v_leaf
            i = (rep.leaf_fields if leaf else rep.int_fields)['parent']
            b = v[2][0]
            b = ('A', 0, b[2][:i] + (some(N(P)),) + b[2][i + 1:])
            st.mem[('node', d)] = ('A', v[1], (b,))
        st.gh['tk'] = newrec
        st.gh['Y'] = tuple(out)
        st.gh['folded'] = True
        # released identifiers that nothing mentions are forgotten
        st.gh['rel'] = frozenset(n for n in st.gh['rel'] if n in self.mentioned(st))
        self.widen(st)
        return None

    fresh_n = 0

    def mentioned(self, st):
        out = set()
        for k, v in st.mem.items():
            if type(v) is tuple: names_in(v, out)
        return out

    def widen(self, st):
        """generalise the levels: components whose lowest node is above `minlevel` lose their exact height"""
        tk = st.gh['tk']
        comp = {}
        parent = {n: n for n in tk}

        def find(x):
            while parent[x] != x: x = parent[x]
            return x
        for n, r in tk.items():
            for m in (r.par, r.hole[0] if r.hole else None):
                if m in parent: parent[find(n)] = find(m)
        groups = {}
        for n in tk: groups.setdefault(find(n), []).append(n)
        d = dict(tk)
        for g, ns in groups.items():
            ns = [n for n in ns if d[n].level is not None]
            if not ns: continue
            lv = [norm(st, d[n].level) for n in ns]
            if all(type(l) is int for l in lv):
                lo = min(lv)
                # a component of plain tokens keeps level 0; anything higher is only known to be at least minlevel
                if lo >= self.minlevel:
                    v = st.fresh('L'); st.dom[v] = (self.minlevel, INF)
                    for n, l in zip(ns, lv): d[n] = d[n]._replace(level=('L', v, l - lo))
            elif all(type(l) is tuple for l in lv) and len(set(l[1] for l in lv)) == 1:
                var = lv[0][1]; k0 = min(l[2] for l in lv)
                lo = st.dom[var][0] + k0; hi = st.dom[var][1]
                v = st.fresh('L'); st.dom[v] = (min(lo, self.minlevel), INF)
                if hi < INF: st.dom[v] = (lo, hi + k0)
                for n, l in zip(ns, lv): d[n] = d[n]._replace(level=('L', v, l[2] - k0))
        st.gh['tk'] = d
        used = set(r.level[1] for r in d.values() if type(r.level) is tuple)
        for v in list(st.dom):
            if v.startswith('L') and v not in used: del st.dom[v]

    # ------------------------------------------------------------------ canonical form
    def canon(self, st):
        names = {}; toks = {}; vars_ = {}; domkey = []

        def nm(x):
            if x is None or x == '?': return x
            r = names.get(x)
            if r is None:
                r = names[x] = len(names)
            return r

        def vr(v):
            r = vars_.get(v)
            if r is None:
                r = vars_[v] = len(vars_)
                domkey.append(st.dom.get(v))
            return r

        def cv(v):
            if type(v) is not tuple: return v
            t = v[0]
            if t == 'N': return ('N', nm(v[1]))
            if t == 'T':
                if v[1] in ('X', 'REM', DEAD): return v
                r = toks.get(v[1])
                if r is None: r = toks[v[1]] = len(toks)
                return ('T', r)
            if t == 'L':
                n = norm(st, v)
                if type(n) is int: return n
                return ('L', vr(v[1]), v[2])
            if t == 'A': return ('A', v[1], tuple([cv(e) for e in v[2]]))
            if t == 'V': return ('V', tuple([cv(e) for e in v[1]]))
            if t == 'R' or t == 'SI' or t == 'SW':
                a = v[1]
                if a[0] == 'node': a = ('node', nm(a[1]))
                elif a[0] == 'tmp': a = ('tmp', cv(st.mem.get(a, U)))
                elif a[0] == 'K': a = ('K', repr(a[1]))
                return (t, a) + v[2:]
            if t == 'Z': return ('Z', nm(v[1]))
            return v
        out = []
        loc = sorted((k for k in st.mem if type(k[0]) is int), key=lambda k: (k[0], k[1]))
        for k in loc: out.append((k, cv(st.mem[k])))
        oth = sorted((k for k in st.mem if type(k[0]) is not int and k[0] not in ('node', 'tmp')), key=repr)
        for k in oth: out.append((k, cv(st.mem[k])))

        def sy(s):
            if s[0] == 'm': return s
            if s[0] == 'i':
                return cv(('T', s[1]))
            return (s[0],) + tuple([nm(x) for x in s[1:]])
        out.append(tuple([sy(s) for s in st.gh['Y']]))
        # nodes in order of discovery
        done = 0
        while True:
            todo = [x for x in names if names[x] >= done]
            if not todo: break
            done = len(names)
            for x in todo:
                v = st.mem.get(('node', x))
                r = st.gh['tk'].get(x)
                rr = None
                if r is not None:
                    rr = (cv(r.level) if r.level is not None else None, nm(r.par), (nm(r.up[0]),) + tuple(r.up[1:]) if r.up else None,
                          (nm(r.hole[0]), r.hole[1]) if r.hole else None, (cv(r.pin[0]), r.pin[1]) if r.pin else None)
                out.append((names[x], cv(v) if v is not None else None, rr, x in st.gh['rel']))
        fr = tuple([(f.fn.key if f.kind == 'fn' else repr(f.work), f.bb, f.si, repr(f.dest), repr(f.ret), repr(f.unw)) for f in st.fr])
        extra = tuple(sorted((k, repr(v)) for k, v in st.gh.items() if k.startswith('x_')))
        return hash((tuple(out), tuple(domkey), fr, st.uw, extra))
