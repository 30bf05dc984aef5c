"""Operations that visit every node: visit_from_leaves(_mut), clear, forget, and the destructors of trees and iterators.

The tree is arbitrary: a root whose children are tokens of unknown height and content.  A recursive visit is cut by its
contract: on a child c it acts once on every proper descendant of c (or, for functions that include the node itself, on
c as well), which is stood for by one summary node.  The contract is proved by induction on the height: under the
contract for the children, the visit of an arbitrary node is interpreted and has to satisfy it again.
States that are equal up to renaming are merged at the loop heads.
"""
from absint.harness import *
from absint.core import NeedForce
from absint.tree import DEAD, INF, names_in
from .tree import TH, judge_outs, final, stats, ROOT
from .iters import IH


def below(c): return 'D*' + c


class VH(TH):
    """mode: 'clear' (the items of a dropped node are dropped), 'forget' (they must not be), 'visit' (nothing is released)"""

    def __init__(self, ck, mode, incl, panics=False):
        TH.__init__(self, ck, fold=False)
        self.mode = mode; self.incl = incl; self.panics = panics
        I = self.I
        I.loop_hook = self.dedupe
        I.call_hook = self.hook
        I.drop_hook = self.on_drop
        self.t.on_expand = self.on_expand
        self.I.maxvisits = 400
        self.seen = {}
        self.hooked = set()          # recursive functions that were cut
        H = I.handlers
        H['storage::Dropper::drop_node'] = self.drop_node
        H['storage::Storage::start_dropping'] = self.start_dropping
        H['std::default::Default::default'] = self.default
        for n in ('call', 'call_mut', 'call_once'): H['std::ops::%s::%s' % ({'call': 'Fn', 'call_mut': 'FnMut', 'call_once': 'FnOnce'}[n], n)] = self.closure
        H['callable'] = lambda I, cx, f, args: self.closure_args(cx, args)
        ts = [i for i, t in enumerate(self.p.types) if t['k'] == 'adt' and t.get('local') and t['path'] == self.rep.node_path]
        self.ty_node = [i for i in ts if 'BoxStorage' not in self.p.types[i]['s']][0]

    # -- bookkeeping (x_ ghosts are part of the identity of a state)
    def setup(self, st):
        st.gh['x_out'] = ()          # nodes acted on so far
        st.gh['x_cnt'] = 0           # items that have to be dropped before the operation ends
        st.gh['kids'] = {}
        st.gh['x_R'] = ()            # (recursive function, the root was acted on inside it)
        return st

    def dedupe(self, I, st, fr):
        if (fr.visits or {}).get(fr.bb, 0) < 1: return
        key = self.t.canon(st)
        if key in self.seen:
            self.t.npruned += 1
            raise Infeasible()
        self.seen[key] = True

    def on_expand(self, st, n):
        v = st.mem[('node', n)]
        if v[1] == self.rep.v_leaf: kids = ()
        else:
            _, ch, _ = self.rep.rd_internal(st, v[2][0])
            kids = tuple(c[1] for c in ch)
        st.gh['kids'] = dict(st.gh['kids']); st.gh['kids'][n] = kids
        if below(n) in st.gh['x_out'] or n.startswith('D*'):
            if below(n) in st.gh['rel'] or n.startswith('D*') and n in st.gh['rel']: st.gh['rel'] = st.gh['rel'] | set(kids)

    def done(self, st, n, self_too=True):
        """None, or why not all of the subtree has been acted on"""
        out = st.gh['x_out']
        if self_too and n not in out: return 'a node is not visited'
        kids = st.gh['kids'].get(n)
        if below(n) in out: return None
        if kids is None:
            l = norm(st, self.t.rec(st, n).level)
            if l == 0: return None
            return 'the nodes below a node are not visited'
        for c in kids:
            r = self.done(st, c)
            if r: return r
        return None

    def act(self, st, n, what):
        if n in st.gh['x_out']: raise Bad('a node is %s twice' % what, 'order')
        if not n.startswith('D*'):
            if self.done(st, n, False): raise Bad('a node is %s before the nodes below it' % what, 'order')
        st.gh['x_out'] = tuple(sorted(st.gh['x_out'] + (n,)))
        on = set()
        ks = [f.fn.key for f in st.fr if f.kind == 'fn']
        st.gh['x_by'] = tuple(sorted(set(st.gh.get('x_by', ()) + ((n if n == ROOT else '*', tuple(sorted(set(k for k in ks if k in self.reckeys()))),),))))

    def reckeys(self):
        """functions of the crate that call themselves, directly or through others"""
        c = self.p.tcache.get('reckeys')
        if c is None:
            g = {}
            for k, i in self.p.insts.items():
                s = set()
                for b in i.get('blocks') or ():
                    t = b['t']
                    if t and t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1] and t[1][1]['fn'].get('key'): s.add(t[1][1]['fn']['key'])
                g[k] = s
            c = set()
            for k in g:
                seen = set(); todo = list(g[k])
                while todo:
                    x = todo.pop()
                    if x in seen: continue
                    seen.add(x); todo += list(g.get(x, ()))
                # closures and functions of the libraries may be part of the cycle, but it is cut at a function of the crate
                if k in seen and self.p.insts[k].get('local') and not self.p.insts[k].get('closure'): c.add(k)
            self.p.tcache['reckeys'] = c
        return c

    def zoom(self, st, c):
        """below a root with one item, one child is interpreted instead of summarised: a node that is not the root meets the contract as well"""
        if st.gh.get('x_zoom') or len(st.gh['kids'].get(ROOT, ())) != 2 or c not in st.gh['kids'][ROOT]: return False
        z = st.gh.pop('zchoice', None)
        if z is None: raise Fork([lambda s: s.gh.__setitem__('zchoice', 'no'), lambda s: s.gh.__setitem__('zchoice', 'yes')])
        if z == 'no': return False
        st.gh['x_zoom'] = 'yes'
        return True

    # -- the contract of recursive visits
    def hook(self, I, cx):
        key = cx.f.get('key')
        if key not in self.reckeys() or not any(f.kind == 'fn' and f.fn.key == key for f in cx.st.fr): return False
        st = cx.st
        ns = set()
        for a in cx.args:
            if type(a) is tuple and a[0] == 'R' and a[1][0] == 'node' and not a[2]: ns.add(a[1][1])
            elif type(a) is tuple and a[0] == 'N': ns.add(a[1])
        fn = self.p.fn(key)
        fs = []
        for i, a in enumerate(cx.args):
            ty = self.p.types[fn.locals[i + 1]]; t = ty
            while t['k'] == 'ref': t = self.p.types[t['elem']]
            if t['k'] == 'closure' or t['k'] == 'param' and t['name'] != 'S' and t['name'] != 'T' and 'Fn' in t['name']: fs.append((a, ty, t))
        if len(ns) != 1 or len(fs) != 1: return False      # entered; the cycle is cut elsewhere
        c = ns.pop()
        f, ty, base = fs[0]
        if not any(c in ks for ks in st.gh['kids'].values()): raise Bad('the recursion does not go down to a child', 'order')
        if c in st.gh['rel']: raise Bad('the nodes below a node are visited after its release', 'use-after-release')
        self.hooked.add(key)
        if self.zoom(st, c): return False
        leaf = ncmp(st, 'Eq', self.t.rec(st, c).level, 0)
        targets = []
        if not leaf:
            d = below(c)
            if self.t.rec(st, d) is None:
                self.t.setrec(st, d, level=self.t.levelvar(st), par='?')
                self.t.level_lt(st, self.t.rec(st, d).level, self.t.rec(st, c).level)
            targets.append(d)
        if self.incl: targets.append(c)
        if base['k'] != 'closure':
            for x in targets: self.act(st, x, 'visited')
            cx.finish(UNIT)
            return True
        body = self.p.fn(base['body'])
        if len(targets) == 2 and (self.panics or f[0] != 'R'): raise Stuck('recursion that includes the node')
        first = True
        for x in reversed(targets):
            args = [self.arg_for(st, l, x) for l in body.locals[2:1 + body.argc]]
            if first: I.invoke(cx, f, args, ty)
            else: I.push(st, base['body'], [self.unref(st, f, ty)] + args, None, 'stay', None)
            first = False
        if not targets: cx.finish(UNIT)
        return True

    def unref(self, st, f, ty):
        """the environment of a closure behind any number of references"""
        while ty['k'] == 'ref':
            ty = self.p.types[ty['elem']]
            if ty['k'] == 'ref': f = st.get(f[1], f[2])
        return f

    def arg_for(self, st, l, n):
        ty = self.p.types[l]
        if ty['k'] == 'ref':
            self.t.shell(st, n)
            return ('R', ('node', n), (), None)
        return N(n)

    # -- effects
    def closure(self, I, cx):
        return self.closure_args(cx, cx.args[1][2])

    def closure_args(self, cx, args):
        st = cx.st
        n = args[0]
        if type(n) is not tuple or n[0] != 'N': raise Stuck('visited: %r' % (n,))
        for a in args[1:]:
            if a != ('R', ('node', n[1]), (), None): raise Bad('a node is visited together with another identifier', 'order')
        self.act(st, n[1], 'visited')
        return UNIT

    def start_dropping(self, I, cx):
        st = cx.st
        if st.get(cx.args[0][1], cx.args[0][2]) != ('O', 'storage'): return some(('O', 'dropper of an empty storage'))
        c = st.gh.get('x_dropper')
        if c is None: raise Fork([lambda s: s.gh.__setitem__('x_dropper', 'yes'), lambda s: s.gh.__setitem__('x_dropper', 'no')])
        return NONE if c == 'no' else some(('O', 'dropper'))

    def default(self, I, cx):
        st = cx.st
        st.gh['x_fresh'] = n = st.gh.get('x_fresh', 0) + 1
        return ('O', 'fresh%d' % n)

    def drop_node(self, I, cx):
        st = cx.st
        n = self.t.nid(cx.args[1])
        if st.get(cx.args[0][1], cx.args[0][2]) != ('O', 'dropper'): raise Bad('a node is freed by the dropper of another storage', 'order')
        if n in st.gh['rel']: raise Bad('a node is freed twice', 'use-after-release')
        self.t.force(st, n)
        self.act(st, n, 'freed')
        v = st.mem.pop(('node', n))
        st.gh['rel'] = st.gh['rel'] | {n}
        st.gh['x_cnt'] += len(self.items(st, v))
        cx.finish(UNIT)
        a = ('tmp', st.fresh('d'))
        st.mem[a] = v
        I.push_drop(st, [(a, (), self.ty_node, None)], 'stay', cx.t[5])
        return None

    def items(self, st, v):
        b = v[2][0]
        if v[1] == self.rep.v_leaf: return self.rep.rd_leaf(st, b)[1]
        return self.rep.rd_internal(st, b)[2] if self.rd_len(st, b) else []

    def rd_len(self, st, b): return norm(st, b[2][self.rep.int_fields['array']][2][self.rep.arr_fields['len']])

    def on_drop(self, I, st, v):
        if self.panics and not st.gh.get('panicked'):
            c = st.gh.pop('choice', None)
            if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'no'), lambda s: s.gh.__setitem__('choice', 'yes')])
            if c == 'yes': st.gh['panicked'] = True
        else: c = None
        x = v[1]
        if x == DEAD: raise Bad('an item is dropped twice', 'ownership')
        if self.mode == 'forget' and not x.startswith('it'): raise Bad('an item is dropped that must not be', 'ownership')
        if self.mode == 'visit': raise Bad('an item is dropped', 'ownership')
        st.gh['x_cnt'] -= 1
        for k, w in list(st.mem.items()):
            if type(w) is tuple:
                u = kill(w, x)
                if u is not w: st.mem[k] = u
        return 'panic' if c == 'yes' else None

    # -- final checks
    def check_all(self, s, P):
        r = self.done(s, ROOT)
        if r: P.append(('once', r))

    def inconsistent(self, s):
        """what was acted on inside the recursive functions disagrees with the assumed contract"""
        for who, ks in s.gh.get('x_by', ()):
            for R in self.hooked:
                inside = R in ks
                if who == ROOT and inside != self.incl or who != ROOT and not inside: return True
        return False


def kill(v, x):
    if type(v) is not tuple: return v
    if v[0] == 'T': return ('T', DEAD) if v[1] == x else v
    if v[0] in ('A', 'V'):
        i = 2 if v[0] == 'A' else 1
        y = tuple([kill(e, x) for e in v[i]])
        return v if y == v[i] else v[:i] + (y,)
    return v


def guess(j, attempt):
    """the contract of a recursive visit may leave out the node itself or include it: any consistent guess that works is a proof"""
    best = None
    for incl in (False, True):
        k = Judge()
        ok = attempt(k, incl)
        j.steps += k.steps; k.steps = 0
        if ok and k.exits and not k.problems and not k.undecided: best = k; break
        if ok and k.problems and best is None: best = k
        last = k
    if best is None:
        best = last
        if best.problems: best.undecided.append('the contract of the recursion is not known'); best.problems = []
    j.problems += best.problems; j.undecided += best.undecided; j.starts += best.starts; j.exits += best.exits


def visit(ck, owner, name):
    """visit_from_leaves and its variants call the function once per node, the nodes below a node first"""
    def attempt(j, incl):
        h = VH(ck, 'visit', incl)
        key = ck.method(h.rep.node_path if owner == 'Node' else owner, name)
        fn = h.p.fn(key)
        ok = [True]
        for empty in ((True, False) if owner == 'RawBTree' else (False,)):
            st = h.setup(h.state())
            if empty: h.t.init(st, [], None)
            else: h.t.state_root(st)
            B = h.with_tree(st, None if empty else ROOT)
            f = ('O', 'f')
            args = [B]
            sts = [st]
            if owner == 'Node':
                sts = [s for s, _ in h.expand(st, lambda s: h.t.shell(s, ROOT))]
                args = [('R', ('node', ROOT), (), None), h.S()]
            ty = h.p.types[fn.locals[len(args) + 1]]
            if ty['k'] == 'ref':
                for s in sts: s.mem[('h', 'f')] = f
                f = ('R', ('h', 'f'), (), None)
            args.append(f)
            j.starts += 1
            outs = h.I.call_all(sts, key, args)

            def check(s, v, empty=empty):
                if h.inconsistent(s): ok[0] = False
                f, cur, P = final(h, s, h.rd_tree(s)[0])
                P = [p for p in P if p[0] != 'occ']
                if empty: return P + ([('once', 'a node of an empty tree is visited')] if s.gh['x_out'] else [])
                if owner == 'RawBTree': h.check_all(s, P)
                else:
                    if ROOT in s.gh['x_out']: P.append(('once', 'the node itself is visited'))
                    r = h.done(s, ROOT, False)
                    if r: P.append(('once', r))
                return P
            judge_outs(h, j, outs, check, ('once', 'seq', 'link'), name)
        stats(h, j, name)
        return ok[0]
    ck.run('%s::%s' % (owner, name), '%s::%s' % (owner, name), lambda j: guess(j, attempt))


def release(ck, op, panics=False, classes=('once', 'len')):
    """clear, forget, drop of a tree, drop of a consuming iterator"""
    def attempt(j, incl):
        mode = 'forget' if op in ('forget', 'IntoIter') else 'clear'
        ok = [True]
        for empty in (True, False):
            h = VH(ck, mode, incl, panics)
            st = h.setup(h.state())
            if empty: h.t.init(st, [], None)
            else: h.t.state_root(st)
            st.gh['Y'] = ()          # the order of the items does not matter here
            B = h.with_tree(st, None if empty else ROOT)
            j.starts += 1
            if op in ('clear', 'forget'):
                outs = h.I.call_all([st], h.method(op), [B])
            elif op == 'drop':
                v = st.mem.pop(B[1])
                ty = [i for i, t in enumerate(h.p.types) if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'RawBTree' and 'BoxStorage' not in t['s'] and t.get('dtor')]
                if not ty: raise Missing('destructor of the tree')
                outs = h.I.drop_value(st, v, ty[0])
            else:
                outs = drop_iter(ck, h, st, B, empty)

            def check(s, v, empty=empty):
                P = []
                if h.inconsistent(s): ok[0] = False
                drops = [e[1] for e in s.ev if e[0] == 'dropO']
                panicked = s.gh.get('panicked')
                if s.gh['x_cnt'] != 0 and not panicked: P.append(('once', 'an item is not dropped'))
                if op in ('clear', 'forget'):
                    root, n = h.rd_tree(s)
                    if root is not None:
                        if not panicked or root in s.gh['rel'] or any(k in s.gh['rel'] for k in s.gh['kids']): P.append(('once', 'the tree still has a root'))
                    elif norm(s, n) != 0: P.append(('len', 'the length is not zero'))
                    kept = s.mem[('h', 'B')][2][h.bt['nodes']]
                    if empty and kept == ('O', 'storage'):
                        if drops or s.gh.get('x_fresh'): P.append(('once', 'a storage is dropped'))
                        return P
                    if not panicked and kept != ('O', 'fresh%d' % s.gh.get('x_fresh', 0)): P.append(('once', 'the storage is not replaced'))
                if op == 'IntoIter' and not panicked and s.gh['x_left'] != 'no': P.append(('once', 'the items that are left are neither handed out nor dropped'))
                if not panicked:
                    if drops.count('storage') != 1: P.append(('once', 'the storage is dropped %d times' % drops.count('storage')))
                elif drops.count('storage') > 1: P.append(('once', 'the storage is dropped twice'))
                if any(drops.count('fresh%d' % (i + 1)) != (op not in ('clear', 'forget') or i + 1 < s.gh['x_fresh']) for i in range(s.gh.get('x_fresh', 0))) and not panicked:
                    P.append(('once', 'a storage is not dropped once'))
                if empty or panicked: return P
                if s.gh.get('x_dropper') == 'yes': h.check_all(s, P)
                elif mode == 'forget':
                    # without a dropper the storage frees the nodes: their items have to be forgotten
                    for n in h.t.rec(s, ROOT) and forgettable(h, s):
                        v = s.mem.get(('node', n))
                        if v is None or has_lazy(v) or h.items(s, v): P.append(('once', 'the items of a node are not forgotten')); break
                return P
            if panics:
                keep = []
                for o in outs:
                    if o.kind == 'unw' and o.st.gh.get('panicked'): o.kind = 'ret'
                    elif o.kind == 'ret' and not o.st.gh.get('panicked'): continue
                    keep.append(o)
                outs = keep
            judge_outs(h, j, outs, check, classes, op)
            stats(h, j, op)
        return ok[0]
    what = {'clear': 'RawBTree::clear', 'forget': 'RawBTree::forget', 'drop': 'drop of a tree', 'IntoIter': 'drop of a consuming iterator'}[op]
    ck.run('%s%s' % (what, ' with a destructor that panics' if panics else ''), what, lambda j: guess(j, attempt))


def forgettable(h, s):
    r = []
    h.t.force(s, ROOT)

    def walk(c):
        r.append(c)
        if h.t.rec(s, below(c)) is not None: r.append(below(c))
        elif c in s.gh['kids']:
            for k in s.gh['kids'][c]: walk(k)
        elif norm(s, h.t.rec(s, c).level) != 0: r.append(below(c))
    walk(ROOT)
    return r


def drop_iter(ck, h, st, B, empty):
    """the destructor of a consuming iterator in any state: `next` is used by its contract (property C07)"""
    ih = IH(ck, 'IntoIter')
    ih.f['addr'], ih.f['end'] = ih.addrs
    fs = [None] * ih.n
    fs[ih.f['btree']] = st.mem.pop(B[1])
    for a in ih.addrs: fs[a] = ('O', 'address')
    fs[ih.f['len']] = 0 if empty else norm_len(st)
    nxt = ck.method('IntoIter', 'next', 'std::iter::Iterator')
    st.gh['x_left'] = 'no' if empty else 'any'
    ty = [i for i, t in enumerate(h.p.types) if t['k'] == 'adt' and t.get('local') and t['path'] == 'IntoIter' and 'BoxStorage' not in t['s']]
    if not ty: raise Missing('IntoIter')

    def next_(I, cx):
        s = cx.st
        r = cx.args[0]
        if s.get(r[1], r[2])[2][ih.f['btree']][2][h.bt['nodes']] != ('O', 'storage') or s.gh['x_out']: raise Bad('an item is read after the nodes have been freed', 'use-after-release')
        c = s.gh.pop('choice', None)
        if s.gh['x_left'] == 'any':
            if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'more'), lambda s: s.gh.__setitem__('x_left', 'no')])
            s.gh['x_cnt'] += 1
            return some(('T', s.fresh('it')))
        return NONE
    h.I.summaries[nxt] = next_
    h.I.summaries[ck.method('IntoIter', 'next_back', 'std::iter::DoubleEndedIterator')] = next_
    return h.I.drop_value(st, ('A', 0, tuple(fs)), ty[0])


def norm_len(st):
    v = st.fresh('v'); st.dom[v] = (0, INF)
    return ('L', v, 0)
