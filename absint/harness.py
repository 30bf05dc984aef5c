"""Common machinery of the checks: representation of the crate's types, obligations, ownership oracle."""
import os, re, time
from collections import Counter
from .core import *
from . import core


class Missing(Exception):
    """a (private) anchor is not there: the obligation is undecided"""


class Rep:
    """roles of the fields of the crate's data types, found by type"""

    def __init__(self, prog):
        self.p = prog
        T = prog.types
        node = [i for i, t in enumerate(T) if t['k'] == 'adt' and t.get('local') and t.get('kind') == 'enum' and t['path'].split('::')[-1] == 'Node' and len(t['variants']) == 2]
        if not node: raise Missing('enum Node')
        self.node_path = T[node[0]]['path']
        t = T[node[0]]
        self.v_internal = [i for i, v in enumerate(t['variants']) if v['name'] == 'Internal'][0]
        self.v_leaf = [i for i, v in enumerate(t['variants']) if v['name'] == 'Leaf'][0]
        leaf = T[t['variants'][self.v_leaf]['fields'][0]['ty']]
        inte = T[t['variants'][self.v_internal]['fields'][0]['ty']]
        self.leaf_path = leaf['path']; self.int_path = inte['path']
        self.leaf_fields = self._roles(leaf)
        self.int_fields = self._roles(inte)
        la = T[leaf['variants'][0]['fields'][self.leaf_fields['array']]['ty']]
        ia = T[inte['variants'][0]['fields'][self.int_fields['array']]['ty']]
        self.array_path = la['path']
        self.leaf_cap = self._cap(la)
        self.int_cap = self._cap(ia)
        self.arr_fields = self._arr_roles(la)
        br = T[ia['args'][0]]
        self.branch_path = br['path']
        self.br_fields = {f['name']: i for i, f in enumerate(br['variants'][0]['fields'])}
        self.M = self.int_cap
        self.leaf_max = self.M; self.leaf_min = self.M // 2 - 1
        self.int_max = self.M - 1; self.int_min = self.M // 2 - 1

    def _roles(self, t):
        r = {}
        for i, f in enumerate(t['variants'][0]['fields']):
            ty = self.p.types[f['ty']]
            if ty['k'] == 'adt' and ty['path'] == 'std::option::Option': k = 'parent'
            elif ty['k'] == 'adt' and ty.get('local'): k = 'array'
            elif ty['k'] in ('alias', 'param'): k = 'first'
            else: raise Missing('unexpected field %s in %s' % (f['name'], t['s']))
            if k in r: raise Missing('two fields in the role %s in %s' % (k, t['s']))
            r[k] = i
        return r

    def _cap(self, t):
        for c in t['cargs']:
            if c.isdigit(): return int(c)
        for f in t['variants'][0]['fields']:
            ty = self.p.types[f['ty']]
            if ty['k'] == 'array' and type(ty['len']) is int: return ty['len']
        raise Missing('capacity of ' + t['s'])

    def _arr_roles(self, t):
        r = {}
        fs = t['variants'][0]['fields']
        for i, f in enumerate(fs):
            ty = self.p.types[f['ty']]
            k = 'len' if ty['k'] == 'uint' else 'buf' if ty['k'] == 'array' else None
            if k is None or k in r: raise Missing('unexpected representation of ' + t['s'])
            r[k] = i
        if len(r) != 2: raise Missing('unexpected representation of ' + t['s'])
        return r

    # types
    def find_type(self, path, args=None, s=None):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t['path'] == path and (s is None or t['s'] == s):
                return i
        raise Missing('type ' + path)

    def ty(self, s):
        for i, t in enumerate(self.p.types):
            if t['s'] == s: return i
        raise Missing('type ' + s)

    # values
    def array(self, items, cap):
        f = [None, None]
        f[self.arr_fields['len']] = len(items)
        f[self.arr_fields['buf']] = ('V', tuple(items) + (U,) * (cap - len(items)))
        return ('A', 0, tuple(f))

    def rd_array(self, st, v):
        if type(v) is not tuple or v[0] != 'A': raise Bad('no array where one is expected: %r' % (v,))
        n = norm(st, v[2][self.arr_fields['len']])
        buf = v[2][self.arr_fields['buf']]
        if type(n) is not int: raise Stuck('array length not determined')
        if buf == U and n == 0: return []
        if buf[0] != 'V': raise Stuck('array buffer')
        if n > len(buf[1]): raise Bad('array length %d beyond its capacity' % n)
        r = list(buf[1][:n])
        for i, x in enumerate(r):
            if has_uninit(x): raise Bad('slot %d of an array of length %d holds no value' % (i, n), 'ownership')
        return r

    def leaf(self, parent, items):
        f = [None, None]
        f[self.leaf_fields['parent']] = parent
        f[self.leaf_fields['array']] = self.array(items, self.leaf_cap)
        return ('A', 0, tuple(f))

    def branch(self, item, child):
        f = [None, None]
        f[self.br_fields['item']] = item; f[self.br_fields['child']] = child
        return ('A', 0, tuple(f))

    def internal(self, parent, first, branches):
        f = [None, None, None]
        f[self.int_fields['parent']] = parent
        f[self.int_fields['first']] = first
        f[self.int_fields['array']] = self.array([self.branch(i, c) for i, c in branches], self.int_cap)
        return ('A', 0, tuple(f))

    def rd_leaf(self, st, v):
        """(parent, items)"""
        return v[2][self.leaf_fields['parent']], self.rd_array(st, v[2][self.leaf_fields['array']])

    def rd_internal(self, st, v):
        """(parent, children, items)"""
        bs = self.rd_array(st, v[2][self.int_fields['array']])
        return (v[2][self.int_fields['parent']], [v[2][self.int_fields['first']]] + [b[2][self.br_fields['child']] for b in bs],
                [b[2][self.br_fields['item']] for b in bs])

    def node(self, kind, v):
        return ('A', self.v_leaf if kind == 'leaf' else self.v_internal, (v,))


def opt(v): return NONE if v is None else some(v)


def T(n): return ('T', n)
def N(n): return ('N', n)


class Problem(Exception):
    """raised by an oracle: the abstract result definitely violates the property"""


class Undecided(Exception):
    pass


class Checker:
    """collects obligations for one property"""

    def __init__(self, prog, prop):
        self.p = prog
        self.prop = prop
        self.rep = None
        self.obs = []
        self.fns = set()
        self.t0 = time.time()

    def interp(self, consts=None):
        I = Interp(self.p, consts)
        I.handlers.update(base_handlers())
        I.drop_hook = None
        I.deadline = getattr(self, 'deadline', None)
        return I

    def fn(self, path, sig=None, public=False):
        """the analysable instance of a function given by its definition path"""
        for i in self.p.items:
            if i['path'] == path:
                return i['key']
        raise Missing(path)

    def method(self, self_path, name, trait=None, ref=False):
        """key of an inherent or trait method of a type given by path (robust to moved helpers)"""
        for i in self.p.items:
            if i['name'] != name: continue
            st = i.get('self_ty')
            if not st: continue
            r = st.startswith('&')
            if r: st = re.sub(r"^&('\w+ )?(mut )?", '', st)
            if r != ref: continue
            if st != self_path and not st.startswith(self_path + '<'): continue
            if (trait or None) != (i.get('trait_path') or None): continue
            return i['key']
        raise Missing('%s::%s%s' % (self_path, name, ' of ' + trait if trait else ''))

    def add(self, name, fn, verdict, nstart, nexit, problems=(), note='', steps=0):
        self.obs.append({'obligation': name, 'function': fn, 'verdict': verdict, 'states': nstart, 'exits': nexit,
                         'problems': list(problems)[:6], 'note': note, 'steps': steps})

    def run(self, name, fnlabel, gen):
        """gen(I-less) yields/returns list of outcomes already judged: used through `judge`"""
        t = time.time()
        try:
            j = Judge()
            gen(j)
            for r in j.rankers: r.judge(j, name)
        except Missing as m:
            self.add(name, fnlabel, 'undecided', 0, 0, [], 'anchor not found: %s' % m)
            return
        except Stuck as s:
            if os.environ.get("ABSINT_DEBUG"): import traceback; traceback.print_exc()
            self.add(name, fnlabel, 'undecided', 0, 0, [], 'analysis: %s' % s)
            return
        v = 'violated' if j.problems else 'undecided' if j.undecided or j.exits == 0 else 'proved'
        self.add(name, fnlabel, v, j.starts, j.exits, j.problems, '; '.join(sorted(set(j.undecided))[:4]), j.steps)
        self.obs[-1]['seconds'] = round(time.time() - t, 2)


class Judge:
    def __init__(self):
        self.problems = []; self.undecided = []; self.starts = 0; self.exits = 0; self.steps = 0; self.rankers = []

    def outs(self, I, outs, check, label='', allow=('ret',)):
        """judge exit states.  check(out) raises Problem/Undecided; exits of other kinds are violations unless allowed"""
        for o in outs:
            self.exits += 1
            if len(self.problems) > 30: break       # decided
            where = (' at ' + ' < '.join(o.where[:3])) if o.where else ''
            if o.kind == 'bad':
                self.problems.append('%s: %s%s' % (label, o.val.msg, where)); continue
            if o.kind == 'stuck':
                self.undecided.append('%s%s' % (o.val, where)); continue
            if o.kind not in allow:
                if o.kind == 'abort': self.problems.append('%s: the process aborts (%s)' % (label, o.val))
                else: self.problems.append('%s: unexpected panic (%s)%s' % (label, o.val, ' in ' + o.st.gh['pwhere'] if 'pwhere' in o.st.gh else ''))
                continue
            try:
                check(o)
            except Problem as p:
                self.problems.append('%s: %s' % (label, p))
            except Bad as b:
                self.problems.append('%s: %s' % (label, b.msg))
            except (Undecided, Stuck) as u:
                self.undecided.append(str(u))
            except (IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
                if os.environ.get('ABSINT_DEBUG'): raise
                self.undecided.append('result of unexpected form (%s %s)' % (type(e).__name__, e))


def base_handlers():
    H = {}

    def clone(I, cx):
        ty = I.p.types[cx.f['args'][0]]
        v = cx.st.get(cx.args[0][1], cx.args[0][2])
        if ty['k'] == 'alias': return v
        if type(v) is tuple and v[0] == 'T':
            h = I.handlers.get('clone_token')
            if h: return h(I, cx, v)
            n = 'clone(%s)' % v[1]
            cx.st.ev.append(('clone', v[1]))
            return ('T', n)
        if type(v) is tuple and v[0] == 'N': return v
        raise Stuck('clone of %r' % (v,))

    def ideq(I, cx):
        a = cx.st.get(cx.args[0][1], cx.args[0][2]); b = cx.st.get(cx.args[1][1], cx.args[1][2])
        if type(a) is tuple and type(b) is tuple and a[0] == 'N' and b[0] == 'N':
            h = I.handlers.get('ideq')
            if h: return h(I, cx, a, b)
            return int(a == b)
        raise Stuck('comparison of %r and %r' % (a, b))

    H['std::clone::Clone::clone'] = clone
    H['std::cmp::PartialEq::eq'] = ideq

    def bound(I, cx):
        r = cx.st.get(cx.args[0][1], cx.args[0][2])
        if type(r) is tuple and r[0] == 'O' and r[1] == 'range':
            return r[2] if cx.f['name'] == 'start_bound' else r[3]
        raise Stuck('range bounds')
    H['std::ops::RangeBounds::start_bound'] = bound
    H['std::ops::RangeBounds::end_bound'] = bound
    H['std::ptr::drop_glue'] = lambda I, cx: I.builtins['std::ptr::drop_in_place'](I, cx)
    return H


def drops(st, since=0):
    return Counter(e[1] for e in st.ev[since:] if e[0] == 'drop')


def drop_all(I, st, vals):
    """abstractly run the destructors of the given (value, type) list; returns the final state.
    The drop hook is disabled: this models the owner giving the values up normally."""
    dh, lh = I.drop_hook, I.loop_hook
    I.drop_hook = None; I.loop_hook = None
    try:
        for v, t in vals:
            outs = I.drop_value(st, v, t)
            if len(outs) != 1: raise Undecided('drop of the results: %d exits' % len(outs))
            o = outs[0]
            if o.kind == 'bad': raise Problem('dropping the results: ' + o.val.msg)
            if o.kind != 'ret': raise Undecided('drop of the results: %s %s' % (o.kind, o.val))
            st = o.st
        return st
    finally:
        I.drop_hook = dh; I.loop_hook = lh


def check_owned(st, toks, leak_ok=False, what=''):
    """every token has been dropped exactly once (at most once if leaks are allowed)"""
    c = drops(st)
    for t in toks:
        n = c.pop(t, 0)
        if n > 1: raise Problem('item %s is dropped %d times%s' % (t, n, what))
        if n == 0 and not leak_ok: raise Problem('item %s is lost: its destructor never runs%s' % (t, what))
    for t, n in c.items():
        if n > 1: raise Problem('item %s is dropped %d times%s' % (t, n, what))


def panic_drop_hook(k):
    """the k-th destructor call panics"""
    def h(I, st, v):
        n = st.gh.get('ndrop', 0) + 1
        st.gh['ndrop'] = n
        if n == k: return 'panic'
    return h


def fork_panic_hook(I, st, v):
    """any one destructor call may panic"""
    if st.gh.get('panicked'): return None
    c = st.gh.pop('choice', None)
    if c is None:
        raise Fork([lambda s: s.gh.__setitem__('choice', 'no'), lambda s: s.gh.__setitem__('choice', 'yes')])
    if c == 'yes':
        st.gh['panicked'] = True
        return 'panic'
    return None
