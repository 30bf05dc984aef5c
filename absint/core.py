"""Abstract interpreter over the resolved MIR of the crate (dumped by driver/).

Domain (see DESIGN.md): a disjunctive ("powerset of shapes") abstract domain.  An abstract state
describes a *set* of concrete states:
  - items of the element type, keys, node identifiers and storages are opaque tokens: a token stands for
    an arbitrary value of an arbitrary type, and only its identity (who owns it) is tracked;
  - integers are constants or `v + c` where `v` is a bounded variable; the set of its values is split on
    demand (trace partitioning) when control flow depends on it;
  - references are access paths into abstract memory; the tree heap is materialised lazily from
    summary nodes (see tree.py), so that one abstract state stands for trees of any size;
  - loops over the tree are closed by folding the state back into a summary at the loop head and
    iterating to a fixpoint.
Nothing of the crate is executed and no path is handed to a solver: every transfer function below maps
abstract states to abstract states.
"""
import json, sys, os, time

USIZE_MAX = (1 << 64) - 1
U = ('U',)
UNIT = ('A', 0, ())


class Fork(Exception):
    """Partition the current abstract state: each branch refines a copy of it."""
    def __init__(self, branches): self.branches = branches


class Stuck(Exception):
    """The analysis cannot decide (unsupported construct): never reported as a violation."""


class Bad(Exception):
    """A definite violation in the current abstract state."""
    def __init__(self, msg, rule='memory'):
        Exception.__init__(self, msg); self.msg = msg; self.rule = rule


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, why): self.why = why


class NeedForce(Exception):
    """a lazily materialised part of a tree node is accessed"""
    def __init__(self, alloc): self.alloc = alloc


def has_lazy(v):
    if type(v) is int: return False
    if v[0] == 'Z': return True
    if v[0] == 'A': return any(has_lazy(x) for x in v[2])
    return False


TRANSPARENT = {'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::Unique', 'std::boxed::Box', 'std::boxed::BoxRaw',
               'core::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling'}


class Fn:
    __slots__ = ('key', 'path', 'local', 'file', 'line', 'argc', 'spread', 'closure', 'locals', 'blocks', 'heads', 'pcache', 'nlocals', 'names')


class Program:
    def __init__(self, fname):
        d = json.load(open(fname))
        self.d = d
        self.types = d['types']
        self.items = d['items']
        self.insts = d['insts']
        self.fns = {}
        self.tcache = {}
        self.visited_fns = set()
        self.visited_lines = set()
        self.by_path = {}
        for k, i in self.insts.items():
            if 'blocks' in i:
                self.by_path.setdefault(i['path'], []).append(k)

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            i = self.insts.get(key)
            if i is None or 'blocks' not in i:
                raise Stuck('no body for ' + key)
            f = Fn()
            f.key = key; f.path = i['path']; f.local = i['local']; f.file = i['file']; f.line = i['line']
            f.argc = i['argc']; f.spread = i['spread']; f.closure = i['closure']; f.locals = i['locals']
            f.blocks = [(b['s'], b['t'], b['l'], b['cu'], b['tf']) for b in i['blocks']]
            f.nlocals = len(f.locals)
            f.names = i.get('names') or []
            f.pcache = {}
            f.heads = self._heads(f)
            self.fns[key] = f
        return f

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [b for _, b in t[2]] + [t[3]]
        if k == 'drop': return [t[2]] + ([t[3]] if isinstance(t[3], int) else [])
        if k == 'call': return ([t[4]] if t[4] is not None else []) + ([t[5]] if isinstance(t[5], int) else [])
        if k == 'assert': return [t[4]] + ([t[5]] if isinstance(t[5], int) else [])
        return []

    def _heads(self, f):
        """targets of retreating edges (loop heads)"""
        heads = set(); color = {}
        stack = [(0, iter(self.succs(f.blocks[0][1])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(f.blocks[s][1]))))
                    break
                elif c == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        return heads

    def find_item(self, path, name=None):
        return [i for i in self.items if i['path'] == path]

    def key_of(self, path):
        """unique instance key of a function given by its definition path (identity instance)"""
        for i in self.items:
            if i['path'] == path:
                return i['key']
        return None

    def ty(self, i): return self.types[i]


class Frame:
    __slots__ = ('fn', 'uid', 'bb', 'si', 'dest', 'ret', 'unw', 'kind', 'work', 'visits', 'tag')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.uid = self.uid; f.bb = self.bb; f.si = self.si; f.dest = self.dest; f.ret = self.ret
        f.unw = self.unw; f.kind = self.kind; f.tag = self.tag
        f.work = list(self.work) if self.work is not None else None
        f.visits = dict(self.visits) if self.visits else None
        return f


class State:
    __slots__ = ('fr', 'mem', 'dom', 'ev', 'gh', 'uw', 'nid', 'nf')

    def __init__(self):
        self.fr = []; self.mem = {}; self.dom = {}; self.ev = []; self.gh = {}; self.uw = None; self.nid = 0; self.nf = 0

    def copy(self):
        s = State.__new__(State)
        s.fr = [f.copy() for f in self.fr]
        s.mem = dict(self.mem); s.dom = dict(self.dom); s.ev = list(self.ev); s.gh = dict(self.gh)
        s.uw = self.uw; s.nid = self.nid; s.nf = self.nf
        return s

    def fresh(self, p='v'):
        self.nid += 1
        return '%s%d' % (p, self.nid)

    # ---- memory
    def get(self, alloc, path, raw=False):
        if alloc[0] == 'K':
            v = alloc[1]
        else:
            v = self.mem.get(alloc)
            if v is None:
                if alloc[0] == 'node' and alloc[1] in self.gh.get('rel', ()): raise Bad('access to a node after its release', 'use-after-release')
                return U
        for i in path:
            t = v[0]
            if t == 'A':
                f = v[2]
                if i >= len(f):
                    if alloc[0] == 'K': raise Stuck('projection of constant')
                    return U
                v = f[i]
            elif t == 'V':
                a = v[1]
                if not (0 <= i < len(a)):
                    raise Bad('access outside the bounds of a buffer of capacity %d (index %s)' % (len(a), i))
                v = a[i]
            elif t == 'U':
                return U
            elif t == 'Z':
                raise NeedForce(alloc)
            else:
                raise Stuck('projection %r of %r' % (i, v))
            if type(v) is int:
                return v
        if alloc[0] == 'node' and not raw and has_lazy(v): raise NeedForce(alloc)
        return v

    def can_set(self, alloc, path, val):
        """raise NeedForce when the write needs the content of an unmaterialised node"""
        root = self.mem.get(alloc, U)
        if has_lazy(root) and (is_num(val) or path and _set(root, path, 0, val) is None): raise NeedForce(alloc)

    def set(self, alloc, path, val):
        if alloc[0] == 'K':
            raise Stuck('write to constant')
        if not path:
            self.mem[alloc] = val
            return
        root = self.mem.get(alloc, U)
        r = _set(root, path, 0, val)
        if r is None: raise NeedForce(alloc)
        self.mem[alloc] = r


def _set(v, path, k, val):
    if k == len(path):
        return val
    i = path[k]
    if type(v) is int:
        raise Stuck('write below an integer')
    t = v[0]
    if t == 'A':
        f = v[2]
        if i >= len(f):
            f = f + (U,) * (i + 1 - len(f))
        x = _set(f[i], path, k + 1, val)
        return None if x is None else ('A', v[1], f[:i] + (x,) + f[i + 1:])
    if t == 'V':
        a = v[1]
        if not (0 <= i < len(a)):
            raise Bad('write outside the bounds of a buffer of capacity %d (index %s)' % (len(a), i))
        x = _set(a[i], path, k + 1, val)
        return None if x is None else ('V', a[:i] + (x,) + a[i + 1:])
    if t == 'Z': return None
    if t == 'U':
        f = (U,) * i + (_set(U, path, k + 1, val),)
        return ('A', 0, f)
    raise Stuck('write below %r' % (v,))


# ---------------------------------------------------------------- numeric domain
def is_num(v): return type(v) is int or (type(v) is tuple and v[0] == 'L')


def lin(v, c): return ('L', v, c)


def conc(st, v):
    """partition on the value of an integer (finite) and return it"""
    if type(v) is int:
        return v
    if v[0] == 'L':
        d = st.dom[v[1]]
        if type(d) is frozenset:
            if len(d) == 1:
                return next(iter(d)) + v[2]
            raise Fork([(lambda s, x=x, n=v[1]: s.dom.__setitem__(n, frozenset((x,)))) for x in sorted(d)])
        if d[0] == d[1]:
            return d[0] + v[2]
        if d[1] - d[0] <= 24:
            raise Fork([(lambda s, x=x, n=v[1]: s.dom.__setitem__(n, frozenset((x,)))) for x in range(d[0], d[1] + 1)])
        raise Stuck('unbounded integer used where a value is needed')
    raise Stuck('integer expected, got %r' % (v,))


def finite(st, v):
    if type(v) is int: return True
    d = st.dom[v[1]]
    return type(d) is frozenset or d[1] - d[0] <= 24


def norm(st, v):
    if type(v) is tuple and v[0] == 'L':
        d = st.dom[v[1]]
        if type(d) is frozenset:
            if len(d) == 1: return next(iter(d)) + v[2]
        elif d[0] == d[1]:
            return d[0] + v[2]
    return v


OPS = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b,
       'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}
SWAP = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


def ncmp(st, op, a, b):
    a = norm(st, a); b = norm(st, b)
    if type(a) is int and type(b) is int:
        return 1 if OPS[op](a, b) else 0
    if type(a) is int:
        a, b = b, a
        op = SWAP[op]
    if type(b) is int:
        d = st.dom[a[1]]; k = b - a[2]; n = a[1]; f = OPS[op]
        if type(d) is frozenset:
            t = frozenset(x for x in d if f(x, k))
            if len(t) == len(d): return 1
            if not t: return 0
            raise Fork([lambda s, t=t: s.dom.__setitem__(n, t), lambda s, t=d - t: s.dom.__setitem__(n, t)])
        lo, hi = d
        parts = []
        for (l, h) in ((lo, min(hi, k - 1)), (max(lo, k), min(hi, k)), (max(lo, k + 1), hi)):
            if l <= h: parts.append((l, h))
        res = [(f(p[0], k), p) for p in parts]
        if all(r for r, _ in res): return 1
        if not any(r for r, _ in res): return 0
        # merge parts with equal outcome when contiguous
        groups = []
        for r, p in res:
            if groups and groups[-1][0] == r: groups[-1] = (r, (groups[-1][1][0], p[1]))
            else: groups.append((r, p))
        raise Fork([(lambda s, p=p: s.dom.__setitem__(n, p)) for _, p in groups])
    if a[1] == b[1]:
        return 1 if OPS[op](a[2], b[2]) else 0
    if finite(st, a): conc(st, a)
    if finite(st, b): conc(st, b)
    h = st.gh.get('relcmp')
    if h:
        r = h(st, op, a, b)
        if r is not None: return r
    raise Stuck('comparison of two unbounded integers')


def nadd(st, a, b, sign=1):
    a = norm(st, a); b = norm(st, b)
    if type(a) is int and type(b) is int: return a + sign * b
    for x in (a, b):
        if type(x) is not int and not (type(x) is tuple and len(x) == 3 and x[0] == 'L'): raise Stuck('sum of %s' % (x[0] if type(x) is tuple else x,))
    if type(b) is int: return ('L', a[1], a[2] + sign * b)
    if type(a) is int and sign == 1: return ('L', b[1], b[2] + a)
    if sign == -1 and type(a) is tuple and type(b) is tuple and a[1] == b[1]: return a[2] - b[2]
    if finite(st, b): return nadd(st, a, conc(st, b), sign)
    if finite(st, a): return nadd(st, conc(st, a), b, sign)
    raise Stuck('sum of two unbounded integers')


def nmul(st, op, a, b):
    a = conc(st, a); b = conc(st, b)
    if op == 'Mul': return a * b
    if b == 0: raise Stuck('division by zero')
    if op == 'Div': return a // b if a >= 0 and b > 0 else int(a / b)
    if op == 'Rem': return a % b
    if op == 'Shr': return a >> b
    if op == 'Shl': return (a << b) & USIZE_MAX
    if op == 'BitAnd': return a & b
    if op == 'BitOr': return a | b
    if op == 'BitXor': return a ^ b
    raise Stuck('arith ' + op)


def ordering(n): return ('A', n + 1, ())   # Less=0 Equal=1 Greater=2


def some(v): return ('A', 1, (v,))
NONE = ('A', 0, ())


def tup(*a): return ('A', 0, tuple(a))


def tokens_in(v, acc=None):
    if acc is None: acc = []
    if type(v) is tuple:
        if v[0] == 'T': acc.append(v)
        elif v[0] in ('A',):
            for x in v[2]: tokens_in(x, acc)
        elif v[0] == 'V':
            for x in v[1]: tokens_in(x, acc)
    return acc


def has_uninit(v):
    if type(v) is int: return False
    if v[0] == 'U': return True
    if v[0] == 'A': return any(has_uninit(x) for x in v[2])
    if v[0] == 'V': return any(has_uninit(x) for x in v[1])
    return False


def refers(v):
    """the value holds references or symbolic parts"""
    if type(v) is not tuple: return False
    if v[0] in ('A', 'V'): return any(refers(e) for e in v[2 if v[0] == 'A' else 1])
    return v != U


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, consts=None):
        self.p = prog
        self.consts = consts or {}
        self.handlers = {}       # abstract callee path -> f(I, st, args, f) -> value
        self.loop_hook = None    # (I, st, frame) called when a loop head is reached
        self.drop_hook = None    # (I, st, tok) on the drop of an opaque item
        self.maxvisits = 64
        self.steps = 0
        self.nstates = 0
        self.skip_dtors = ()         # types whose destructor is left out
        self.both_drops = False      # whether needs_drop may also answer "no"
        self.maxsteps = 4000000
        self.deadline = None     # give up (undecided) after this time
        self.call_hook = None
        self.summaries = {}      # instance key or path -> python transfer function
        from . import builtins as B
        self.builtins = B.TABLE
        self.bprefix = B.PREFIX

    # ---- types
    def tname(self, t):
        ty = self.p.types[t]
        return ty

    def is_transparent(self, t):
        ty = self.p.types[t]
        return ty['k'] == 'adt' and ty.get('path') in TRANSPARENT

    def discr_val(self, t, variant):
        ty = self.p.types[t]
        return ty['variants'][variant]['discr']

    def variant_of(self, t, discr):
        for i, v in enumerate(self.p.types[t]['variants']):
            if v['discr'] == discr: return i
        raise Stuck('bad discriminant')

    # ---- places
    def cplace(self, fn, p):
        """compile a place: list of ops with transparent wrappers removed, and its type"""
        key = id(p)
        r = fn.pcache.get(key)
        if r is not None: return r
        t = fn.locals[p[0]]
        ops = []
        types = self.p.types
        for e in p[1]:
            k = e[0]
            ty = types[t] if t is not None else None
            if k == '*':
                ops.append(('*',))
                t = ty.get('elem') if ty and ty['k'] in ('ref', 'ptr') else (ty['args'][0] if ty and ty.get('box') else None)
            elif k == 'f':
                if not (ty and ty['k'] == 'adt' and ty.get('path') in TRANSPARENT):
                    ops.append(('f', e[1]))
                t = e[2]
            elif k == 'i':
                ops.append(('i', e[1])); t = ty.get('elem') if ty else None
            elif k == 'ci':
                ops.append(('ci', e[1], e[2], e[3])); t = ty.get('elem') if ty else None
            elif k == 'ss':
                ops.append(('ss', e[1], e[2], e[3]))
            elif k == 'd':
                ops.append(('d', e[1]))
            else:
                ops.append(('?',))
        r = (p[0], ops, t)
        fn.pcache[key] = r
        return r

    def place(self, st, fr, p):
        local, ops, ty = self.cplace(fr.fn, p)
        alloc = (fr.uid, local); path = (); meta = None
        for e in ops:
            k = e[0]
            if k == 'f':
                path = path + (e[1],); meta = None
            elif k == '*':
                v = st.get(alloc, path)
                if type(v) is int or v[0] != 'R':
                    if v == U: raise Bad('dereference of an uninitialised reference')
                    raise Stuck('deref of %r' % (v,))
                alloc, path, meta = v[1], v[2], v[3]
                if alloc[0] == 'node' or alloc[0] == 'box':
                    self.check_alive(st, alloc)
            elif k == 'i':
                i = conc(st, st.get((fr.uid, e[1]), ()))
                if meta is not None:
                    if not (0 <= i < meta[1]): raise Bad('slice index out of bounds')
                    i = i + meta[0]
                path = path + (i,); meta = None
            elif k == 'd':
                pass
            elif k == 'ci':
                n = meta[1] if meta is not None else len(st.get(alloc, path)[1])
                i = (n - e[1]) if e[3] else e[1]
                path = path + ((meta[0] if meta is not None else 0) + i,); meta = None
            elif k == 'ss':
                if meta is None: meta = (0, len(st.get(alloc, path)[1]))
                to = meta[1] - e[2] if e[3] else e[2]
                meta = (meta[0] + e[1], to - e[1])
            else:
                raise Stuck('place projection')
        return alloc, path, meta

    def check_alive(self, st, alloc):
        dead = st.gh.get('dead')
        if dead and alloc in dead:
            raise Bad('access to a node through a released identifier', 'use-after-release')

    def ptype(self, fr, p):
        return self.cplace(fr.fn, p)[2]

    def force(self, st, alloc):
        raise Stuck('lazy value')

    # ---- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c' or k == 'm':
            p = o[1]
            if not p[1]:
                return st.mem.get((fr.uid, p[0]), U)
            a, pa, m = self.place(st, fr, p)
            return st.get(a, pa)
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rt':
            return 0
        raise Stuck('operand')

    def moved(self, st, fr, o):
        if o[0] == 'm':
            p = o[1]
            if not p[1]:
                st.mem.pop((fr.uid, p[0]), None)
            else:
                a, pa, m = self.place(st, fr, p)
                # moving out of a place reached through a reference leaves the bits there
                if a[0] == fr.uid: st.set(a, pa, U)

    def const(self, st, c):
        if 'int' in c:
            ty = self.p.types[c['ty']]
            if ty['k'] == 'adt': return self.adt_const(ty, c)
            return c['int']
        if 'fn' in c: return ('F', c['fn'].get('key') or c['fn']['path'], id(c['fn']), c['ty'])
        if 'refint' in c: return ('R', ('K', c['refint']), (), None)
        if 'str' in c: return ('R', ('K', ('S', c['str'])), (), (0, len(c['str'])))
        if 'zst' in c:
            ty = self.p.types[c['ty']]
            if ty['k'] == 'fndef': return ('F', ty['fn'].get('key') or ty['path'], id(ty['fn']), c['ty'])
            return UNIT
        if 'param' in c:
            if c['param'] in self.consts: return self.consts[c['param']]
            raise Stuck('const parameter ' + c['param'])
        if 'promoted' in c:
            return self.promoted(st, c['promoted'])
        if c.get('ckey') in self.p.insts: return self.const_body(c['ckey'])
        s = c.get('s', '')
        if s.endswith('IS_ZST'): return 0
        if s.endswith('SizedTypeProperties>::SIZE'):
            v = 'size of ' + s
            if v not in st.dom: st.dom[v] = (0, 1 << 20)
            return ('L', v, 0)
        if s.endswith('SizedTypeProperties>::ALIGN'): return 1          # pointers in the model are aligned
        ty = self.p.types[c['ty']]
        if ty['k'] in ('ref', 'ptr'):
            if s.startswith('b"'): return ('R', ('K', ('B', s)), (), None)
            return ('O', 'const:' + s)
        if ty['k'] == 'adt' and ty.get('kind') == 'struct': return ('O', 'const:' + s)
        if ty['k'] == 'adt' and ty.get('kind') == 'enum':
            for i, v in enumerate(ty['variants']):
                if v['name'] == s.split('::')[-1] and not v['fields']: return ('A', i, ())
        return self.const_value(ty, c)

    def const_value(self, ty, c):
        """a constant taken apart by the compiler"""
        def go(ty, v):
            if v[0] == 'I': return v[1]
            if ty['k'] == 'tuple': fs = [go(self.p.types[t], x) for t, x in zip(ty['elems'], v[2])]
            elif ty['k'] == 'adt' and ty.get('path') not in TRANSPARENT and 'variants' in ty:
                fs = [go(self.p.types[f['ty']], x) for f, x in zip(ty['variants'][v[1]]['fields'], v[2])]
            else: raise Stuck('constant ' + c.get('s', ''))
            return ('A', v[1], tuple(fs))
        if 'val' not in c: raise Stuck('constant ' + c.get('s', ''))
        return go(ty, c['val'])

    def adt_const(self, ty, c):
        n = c['int']
        if ty.get('kind') == 'enum':
            vs = ty['variants']
            if all(not v['fields'] for v in vs):
                for i, v in enumerate(vs):
                    if v['discr'] == n or (v['discr'] - n) % 256 == 0: return ('A', i, ())
            if all(self.p.types[f['ty']]['k'] == 'tuple' and not self.p.types[f['ty']]['elems'] for v in vs for f in v['fields']):
                for i, v in enumerate(vs):
                    if v['discr'] == n: return ('A', i, (UNIT,) * len(v['fields']))
            if ty['path'] == 'std::result::Result' and n == 0 and 'Ok(())' in c.get('s', ''): return ('A', 0, (UNIT,))
            if ty['path'] == 'std::option::Option' and n == 0:
                a = self.p.types[ty['args'][0]]
                if a['k'] in ('ref', 'ptr', 'fnptr') or a.get('box') or a.get('path') == 'std::ptr::NonNull': return NONE
        if ty.get('path') in TRANSPARENT: return n
        if ty.get('kind') == 'struct':
            fs = ty['variants'][0]['fields']
            nz = [i for i, f in enumerate(fs) if self.p.types[f['ty']]['k'] in ('uint', 'int', 'bool', 'char')]
            if len(nz) == 1 and len(fs) == 1: return ('A', 0, (n,))
        return self.const_value(ty, c)

    def const_body(self, key):
        """a constant that depends on the parameters: its body is evaluated"""
        cache = self.p.tcache.setdefault(('constbody', tuple(sorted(self.consts.items()))), {})
        if key not in cache:
            if 'blocks' not in self.p.insts[key]: raise Stuck('no body for ' + key)
            outs = Interp(self.p, self.consts).call_all([State()], key, [])
            if len(outs) != 1 or outs[0].kind != 'ret' or refers(outs[0].val): raise Stuck('constant ' + key)
            cache[key] = outs[0].val
        return cache[key]

    def promoted(self, st, key):
        cache = self.p.tcache.setdefault('promoted', {})
        if key in cache: return cache[key]
        f = self.p.fn(key)
        loc = {}
        v = None
        if len(f.blocks) != 1: raise Stuck('promoted')
        for s in f.blocks[0][0]:
            if s[0] != '=': continue
            lhs, rv = s[1], s[2]
            if rv[0] == 'use' and rv[1][0] == 'k': val = self.const(st, rv[1][1])
            elif rv[0] == 'use' and not rv[1][1][1]: val = loc[rv[1][1][0]]
            elif rv[0] == 'ref' and not rv[1][1]:
                val = ('R', ('K', loc[rv[1][0]]), (), None)
            elif rv[0] == 'agg':
                ops = tuple(self.const(st, o[1]) if o[0] == 'k' else loc[o[1][0]] for o in rv[2])
                if rv[1][0] == 'array': val = ('V', ops)
                elif rv[1][0] == 'adt':
                    val = ops[0] if self.is_transparent(rv[1][1]) else ('A', rv[1][2], ops)
                else: val = ('A', 0, ops)
            else: raise Stuck('promoted rvalue')
            if lhs[1]: raise Stuck('promoted place')
            loc[lhs[0]] = val
        cache[key] = loc[0]
        return loc[0]

    # ---- rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            a, pa, m = self.place(st, fr, rv[1])
            return ('R', a, pa, m)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == 'discr':
            p = rv[1]
            a, pa, m = self.place(st, fr, p)
            v = st.get(a, pa, True)
            t = self.ptype(fr, p)
            if type(v) is int: raise Stuck('discriminant of int')
            if v[0] == 'U':
                # a type with a single inhabited variant holds nothing that could be uninitialised
                vs = self.p.types[t].get('variants') or () if t is not None else ()
                live = [x for x in vs if not any(f['ty'] is not None and self.p.types[f['ty']]['k'] == 'never' for f in x['fields'])]
                if len(vs) > 1 and len(live) == 1: return live[0]['discr']
            if v[0] == 'U': raise Bad('discriminant of an uninitialised or moved value')
            if v[0] != 'A': raise Stuck('discriminant of %r' % (v,))
            return self.discr_val(t, v[1])
        if k == 'agg':
            kind = rv[1]
            vals = tuple(self.operand(st, fr, o) for o in rv[2])
            kk = kind[0]
            if kk == 'adt':
                if self.is_transparent(kind[1]):
                    for v in vals:
                        if v != UNIT: return v
                    return U if not vals else vals[0]
                return ('A', kind[2], vals)
            if kk == 'tuple': return ('A', 0, vals)
            if kk == 'closure': return ('A', 0, vals)
            if kk == 'array': return ('V', vals)
            if kk == 'rawptr':
                d, m = vals
                if type(m) is int or (type(m) is tuple and m[0] == 'L'):
                    m = conc(st, m)
                    return ('R', d[1], d[2][:-1], (d[2][-1], m))
                return d
            raise Stuck('aggregate')
        if k == 'cast':
            return self.cast(st, fr, rv)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                t = self.optype(fr, rv[2])
                if t is not None and self.p.types[t]['k'] == 'bool':
                    return 1 - conc(st, v)
                return USIZE_MAX ^ conc(st, v)
            if rv[1] == 'PtrMetadata':
                if v[0] == 'R' and v[3] is not None: return v[3][1]
                return UNIT
            if rv[1] == 'Neg': return -conc(st, v)
            raise Stuck('unary ' + rv[1])
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if type(n) is not int:
                if n in self.consts: n = self.consts[n]
                else: raise Stuck('repeat length')
            return ('V', (v,) * n)
        raise Stuck('rvalue ' + k)

    def optype(self, fr, o):
        if o[0] in ('c', 'm'): return self.ptype(fr, o[1])
        if o[0] == 'k': return o[1]['ty']
        return None

    def binop(self, st, op, a, b):
        if op in OPS:
            if is_num(a) and is_num(b): return ncmp(st, op, a, b)
            if type(a) is tuple and type(b) is tuple and a[0] == 'R' and b[0] == 'R' and op in ('Eq', 'Ne'):
                e = a == b
                return int(e if op == 'Eq' else not e)
            if b == 0 and type(a) is tuple and a[0] in ('R', 'N') and op in ('Eq', 'Ne'): return int(op == 'Ne')
            raise Stuck('comparison of %r and %r' % (a, b))
        if op == 'Cmp':
            if ncmp(st, 'Lt', a, b): return ordering(-1)
            if ncmp(st, 'Eq', a, b): return ordering(0)
            return ordering(1)
        if op in ('Add', 'AddUnchecked'):
            r = nadd(st, a, b)
            return r & USIZE_MAX if type(r) is int else r
        if op in ('Sub', 'SubUnchecked'):
            r = nadd(st, a, b, -1)
            return r & USIZE_MAX if type(r) is int and r < 0 else r
        if op == 'AddWithOverflow':
            r = nadd(st, a, b)
            o = ncmp(st, 'Gt', r, USIZE_MAX)
            return tup(r if not o else (r & USIZE_MAX if type(r) is int else r), o)
        if op == 'SubWithOverflow':
            r = nadd(st, a, b, -1)
            o = ncmp(st, 'Lt', r, 0)
            return tup(r if not o else (r & USIZE_MAX if type(r) is int else r), o)
        if op == 'MulWithOverflow':
            r = nmul(st, 'Mul', a, b)
            return tup(r & USIZE_MAX, int(r > USIZE_MAX))
        if op == 'Offset':
            if type(a) is tuple and a[0] == 'R':
                return ptr_add(st, a, b)
        if op.endswith('Unchecked'): op = op[:-9]
        if op == 'BitAnd' and (type(a) is int and a == 0 or type(b) is int and b == 0): return 0
        if is_num(a) and is_num(b):
            if op in ('BitAnd', 'BitOr', 'BitXor') or op in ('Mul', 'Div', 'Rem', 'Shr', 'Shl'):
                return nmul(st, op, a, b)
        raise Stuck('binop ' + op)

    def cast(self, st, fr, rv):
        kind = rv[1]; v = self.operand(st, fr, rv[2]); tt = self.p.types[rv[3]]
        if kind.startswith('PointerCoercion(Unsize'):
            if type(v) is tuple and v[0] == 'R' and v[3] is None:
                et = self.p.types[tt['elem']] if 'elem' in tt else None
                if et and et['k'] == 'slice':
                    c = st.get(v[1], v[2])
                    if type(c) is tuple and c[0] == 'V':
                        return ('R', v[1], v[2], (0, len(c[1])))
                    if c == U:
                        st0 = self.optype(fr, rv[2])
                        n = self.p.types[self.p.types[st0]['elem']]['len']
                        if type(n) is not int: n = self.consts[n]
                        st.set(v[1], v[2], ('V', (U,) * n))
                        return ('R', v[1], v[2], (0, n))
            return v
        if kind.startswith('PointerCoercion'):
            return v
        if kind == 'PtrToPtr':
            if type(v) is tuple and v[0] == 'R' and tt['k'] in ('ptr', 'ref'):
                et = self.p.types[tt['elem']]
                if v[3] is not None and et['k'] not in ('slice', 'str'):
                    if et['k'] == 'array': return ('R', v[1], v[2], None)
                    return ('R', v[1], v[2] + (v[3][0],), None)
                if v[3] is None and et['k'] != 'array':
                    so = self.optype(fr, rv[2])
                    if so is not None:
                        se = self.p.types[so].get('elem')
                        if se is not None and self.p.types[se]['k'] == 'array':
                            return ('R', v[1], v[2] + (0,), None)
            return v
        if kind == 'IntToInt':
            v = norm(st, v)
            if type(v) is int:
                nm = tt.get('name') or tt['k']
                bits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'usize': 64, 'u64': 64, 'isize': 64, 'i64': 64, 'bool': 8, 'u128': 128, 'i128': 128}.get(nm, 64)
                v &= (1 << bits) - 1
                if nm[0] == 'i' and v >= 1 << (bits - 1): v -= 1 << bits
            return v
        if kind == 'Transmute' or kind == 'BoxDerefTransmute' or kind == 'Subtype':
            if tt.get('path') == 'std::option::Option' and self.p.types[tt['args'][0]].get('path') == 'std::num::NonZero':
                v = norm(st, v)
                if type(v) is int or type(v) is tuple and v[0] == 'L': return NONE if ncmp(st, 'Eq', v, 0) else some(v)
            if type(v) is int and tt['k'] == 'adt' and tt.get('kind') == 'enum':
                return ('A', self.variant_of(rv[3], v), ())
            if type(v) is tuple and v[0] == 'A' and tt['k'] in ('int', 'uint'):
                so = self.optype(fr, rv[2])
                return self.discr_val(so, v[1])
            return v
        if kind == 'PointerExposeProvenance':
            return ('O', ('addr', v))
        raise Stuck('cast ' + kind)

    # ---- stepping
    def push(self, st, key, args, dest, ret, unw, tag=None):
        f = self.p.fn(key)
        if len(st.fr) > 60: raise Stuck('call depth')
        fr = Frame.__new__(Frame)
        fr.fn = f; fr.uid = len(st.fr); fr.bb = 0; fr.si = 0; fr.dest = dest; fr.ret = ret; fr.unw = unw; fr.kind = 'fn'
        fr.work = None; fr.visits = None; fr.tag = tag
        if len(args) != f.argc:
            if f.spread is not None and f.spread == f.argc and len(args) >= f.argc:
                args = list(args[:f.argc - 1]) + [('A', 0, tuple(args[f.argc - 1:]))]
            else:
                raise Stuck('arity of ' + key)
        for l in range(1, f.nlocals):
            st.mem.pop((fr.uid, l), None)
        st.mem.pop((fr.uid, 0), None)
        for i, a in enumerate(args):
            st.mem[(fr.uid, i + 1)] = a
        st.fr.append(fr)
        self.p.visited_fns.add(f.key)
        return fr

    def push_drop(self, st, items, dest_bb, unw):
        """drop glue frame; items: list of (alloc, path, type)"""
        fr = Frame.__new__(Frame)
        fr.fn = None; fr.uid = len(st.fr); fr.bb = 0; fr.si = 0; fr.dest = None; fr.ret = dest_bb; fr.unw = unw
        fr.kind = 'drop'; fr.work = list(items); fr.visits = None; fr.tag = None
        st.fr.append(fr)

    def pop(self, st):
        fr = st.fr.pop()
        if fr.kind == 'fn':
            u = fr.uid
            mem = st.mem
            for l in range(fr.fn.nlocals):
                mem.pop((u, l), None)
        return fr

    def do_return(self, st, val):
        fr = self.pop(st)
        if not st.fr:
            raise Exit('ret', val)
        c = st.fr[-1]
        if c.kind == 'drop':
            return
        if fr.kind == 'fn' and fr.tag is not None:
            val = fr.tag(self, st, val)
        if fr.dest is not None:
            st.set(fr.dest[0], fr.dest[1], val)
        if fr.ret is None:
            raise Infeasible()
        if fr.ret == 'stay': return
        c.bb = fr.ret; c.si = 0
        self.at_block(st, c)

    def unwind(self, st, why):
        """start or continue unwinding: the top frame is the one in which the panic surfaces"""
        st.uw = why
        while True:
            fr = st.fr[-1] if st.fr else None
            if fr is None:
                raise Exit('unw', why)
            a = fr.unw   # action of the caller for this frame
            self.pop(st)
            if not st.fr:
                raise Exit('unw', why)
            c = st.fr[-1]
            if c.kind == 'drop':
                # a destructor panicked inside drop glue: remaining fields are still dropped, then unwinding goes on
                c.tag = ('uw', why)
                st.uw = None
                return
            if type(a) is int:
                c.bb = a; c.si = 0
                return
            if a == 'continue':
                continue
            if a == 'terminate' or a == 'unreachable':
                raise Exit('abort', why)
            continue

    def panic_here(self, st, fr, action, why):
        """a panic raised by the terminator of fr"""
        st.uw = why
        if 'pwhere' not in st.gh: st.gh['pwhere'] = ' < '.join(self.where(st)[:4])
        if type(action) is int:
            fr.bb = action; fr.si = 0
            return
        if action in ('terminate', 'unreachable'):
            raise Exit('abort', why)
        self.unwind(st, why)

    def at_block(self, st, fr):
        if fr.bb in fr.fn.heads:
            v = fr.visits
            if v is None: v = fr.visits = {}
            n = v.get(fr.bb, 0) + 1
            v[fr.bb] = n
            if self.loop_hook is not None:
                self.loop_hook(self, st, fr)
            if n > 16 and not self.loop_hook:
                # the same abstract state at the same loop head again: the loop never ends
                k = hash((frozenset(st.mem.items()), frozenset(st.dom.items()), len(st.fr)))
                if ('h', fr.bb, k) in v: raise Bad('infinite loop in %s' % fr.fn.path, 'termination')
                v[('h', fr.bb, k)] = 1
            if n > self.maxvisits:
                raise Stuck('no fixpoint after %d iterations at the loop of %s' % (n, fr.fn.path))

    def goto(self, st, fr, bb):
        fr.bb = bb; fr.si = 0
        self.at_block(st, fr)

    def step(self, st):
        fr = st.fr[-1]
        if fr.kind == 'drop':
            return self.drop_step(st, fr)
        blk = fr.fn.blocks[fr.bb]
        stmts = blk[0]
        n = len(stmts)
        mem = st.mem
        while fr.si < n:
            s = stmts[fr.si]
            k = s[0]
            if k == '=':
                rv = s[2]
                val = self.rvalue(st, fr, rv)
                lhs = s[1]
                if lhs[1]:
                    a, pa, m = self.place(st, fr, lhs)
                    if a[0] == 'node': st.can_set(a, pa, val)
                    if rv[0] == 'use': self.moved(st, fr, rv[1])
                    elif rv[0] == 'agg':
                        for o in rv[2]: self.moved(st, fr, o)
                    st.set(a, pa, val)
                else:
                    if rv[0] == 'use': self.moved(st, fr, rv[1])
                    elif rv[0] == 'agg':
                        for o in rv[2]: self.moved(st, fr, o)
                    mem[(fr.uid, lhs[0])] = val
            elif k == 'dead':
                mem.pop((fr.uid, s[1]), None)
            elif k == 'setd':
                a, pa, m = self.place(st, fr, s[1])
                v = st.get(a, pa)
                st.set(a, pa, ('A', s[2], v[2] if type(v) is tuple and v[0] == 'A' else ()))
            elif k == 'assume':
                self.assume(st, self.operand(st, fr, s[1]))
            elif k == 'copynon':
                from .builtins import copy_n
                copy_n(self, st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]))
            else:
                raise Stuck('statement ' + k)
            fr.si += 1
            self.steps += 1
        self.term(st, fr, blk)

    def assume(self, st, v):
        if not is_num(v): raise Stuck('assumption on %r' % (v,))
        if ncmp(st, 'Eq', v, 0): raise Bad('an assumption of the optimiser does not hold (undefined behaviour)')

    def dead_end(self, fr, b):
        b = fr.fn.blocks[b]
        return not b[0] and b[1][0] == 'unreachable'

    def term(self, st, fr, blk):
        t = blk[1]
        k = t[0]
        self.steps += 1
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            v = norm(st, v)
            if type(v) is not int:
                if type(v) is tuple and v[0] == 'L':
                    for val, b in t[2]:
                        if ncmp(st, 'Eq', v, val):
                            return self.goto(st, fr, b)
                    if self.dead_end(fr, t[3]): raise Infeasible()
                    return self.goto(st, fr, t[3])
                if v == U: raise Bad('branch on an uninitialised value')
                raise Stuck('switch on %r' % (v,))
            for val, b in t[2]:
                if val == v:
                    return self.goto(st, fr, b)
            return self.goto(st, fr, t[3])
        if k == 'return':
            v = st.mem.get((fr.uid, 0), UNIT)
            return self.do_return(st, v)
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'assert':
            v = conc(st, self.operand(st, fr, t[1]))
            if bool(v) == bool(t[2]):
                return self.goto(st, fr, t[4])
            return self.panic_here(st, fr, t[5], 'assertion failed (%s)' % t[3])
        if k == 'drop':
            if not t[5]:
                return self.goto(st, fr, t[2])
            a, pa, m = self.place(st, fr, t[1])
            self.push_drop(st, [(a, pa, t[4], m)], t[2], t[3])
            return
        if k == 'resume':
            return self.unwind(st, st.uw or 'panic')
        if k == 'abort':
            raise Exit('abort', st.uw)
        if k == 'unreachable':
            raise Bad('code is reached that is declared unreachable (undefined behaviour)')
        raise Stuck('terminator ' + k)

    # ---- drop glue
    def drop_step(self, st, fr):
        if not fr.work:
            tag = fr.tag
            self.pop(st)
            if not st.fr:
                raise Exit('unw' if tag else 'ret', tag[1] if tag else UNIT)
            c = st.fr[-1]
            if tag:
                if c.kind == 'drop':
                    c.tag = tag
                    return
                self.panic_here(st, c, fr.unw, tag[1])
                return
            if c.kind == 'drop':
                return
            if fr.ret is None: raise Infeasible()
            if fr.ret == 'stay': return
            self.goto(st, c, fr.ret)
            return
        item = fr.work[-1]
        a, pa, t, m = item
        ty = self.p.types[t]
        k = ty['k']
        if k in ('int', 'uint', 'bool', 'char', 'ref', 'ptr', 'fndef', 'never', 'str', 'alias'):
            fr.work.pop(); return
        if k == 'slice':
            fr.work.pop()
            for i in reversed(range(m[1])): fr.work.append((a, pa + (m[0] + i,), ty['elem'], None))
            return
        if k == 'adt' and ty['path'] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::ptr::NonNull', 'std::marker::PhantomData'):
            fr.work.pop(); return
        if k == 'adt' and ty.get('box'):
            v = st.get(a, pa)
            fr.work.pop()
            h = self.handlers.get('drop_box')
            if h is None: raise Stuck('drop of a box')
            h(self, st, v, ty, fr)
            return
        if k == 'param':
            v = st.get(a, pa)
            if v == U: raise Bad('destructor run on a slot that holds no live value', 'ownership')
            if type(v) is tuple and v[0] == 'T':
                if self.drop_hook: r = self.drop_hook(self, st, v)
                else: r = None
                fr.work.pop()
                st.ev.append(('drop', v[1]))
                if r == 'panic':
                    fr.tag = ('uw', 'a destructor panicked')
                return
            if type(v) is tuple and v[0] == 'O': st.ev.append(('dropO', v[1]))
            fr.work.pop()
            return
        v = st.get(a, pa)
        if k == 'adt' and ty.get('path') in self.skip_dtors:
            fr.work.pop(); return
        if k == 'adt' and ty.get('dtor'):
            if v == U: raise Bad('destructor run on an uninitialised or moved value', 'ownership')
            fr.work.pop()
            for i, f in enumerate(ty['variants'][0]['fields']):
                pass
            for i in reversed(range(len(ty['variants'][0]['fields']))):
                fr.work.append((a, pa + (i,), ty['variants'][0]['fields'][i]['ty'], None))
            self.push(st, ty['dtor'], [('R', a, pa, None)], None, None, 'continue')
            return
        if k == 'adt':
            if v == U: raise Bad('drop of an uninitialised or moved value', 'ownership')
            if type(v) is tuple and v[0] == 'SI':
                fr.work.pop(); return
            if type(v) is tuple and v[0] in ('O', 'N'):
                fr.work.pop(); return
            if type(v) is not tuple or v[0] != 'A': raise Stuck('drop of %r as %s' % (v, ty['s']))
            fr.work.pop()
            fs = ty['variants'][v[1]]['fields']
            for i in reversed(range(len(fs))):
                if fs[i]['ty'] is None:
                    if ty['path'] in ('std::string::String', 'alloc::string::String', 'std::vec::Vec', 'std::io::Error'): return
                    raise Stuck('drop of opaque type ' + ty['s'])
                fr.work.append((a, pa + (i,), fs[i]['ty'], None))
            return
        if k in ('tuple', 'closure'):
            if v == U: raise Bad('drop of an uninitialised or moved value', 'ownership')
            fr.work.pop()
            es = ty['elems'] if k == 'tuple' else ty['upvars']
            for i in reversed(range(len(es))):
                fr.work.append((a, pa + (i,), es[i], None))
            return
        if k == 'array':
            fr.work.pop()
            for i in reversed(range(len(v[1]))): fr.work.append((a, pa + (i,), ty['elem'], None))
            return
        raise Stuck('drop of ' + ty['s'])

    # ---- calls
    def call(self, st, fr, t):
        fo = t[1]
        args_o = t[2]
        if fo[0] == 'k' and 'fn' in fo[1]:
            f = fo[1]['fn']
        else:
            v = self.operand(st, fr, fo)
            if v[0] != 'F': raise Stuck('indirect call')
            ty = self.p.types[v[3]]
            f = ty['fn']
        args = [self.operand(st, fr, o) for o in args_o]
        dest = None

        def finish(val):
            for o in args_o: self.moved(st, fr, o)
            if t[4] is None: raise Infeasible()
            a, pa, m = self.place(st, fr, t[3])
            st.set(a, pa, val)
            self.goto(st, fr, t[4])

        def enter(key, args, tag=None):
            for o in args_o: self.moved(st, fr, o)
            if t[4] is None: d = None
            else:
                a, pa, m = self.place(st, fr, t[3])
                d = (a, pa)
            self.push(st, key, args, d, t[4], t[5], tag)

        cx = CallCx(self, st, fr, f, args, t, finish, enter)
        try:
            self.dispatch(cx)
        except Panic as p:
            for o in args_o: self.moved(st, fr, o)
            self.panic_here(st, fr, t[5], p.why)

    def dispatch(self, cx):
        f = cx.f; st = cx.st
        path = f['path']; rpath = f.get('rpath') or path
        if self.call_hook is not None:
            if self.call_hook(self, cx): return
        h = self.summaries.get(f.get('key')) or self.summaries.get(rpath)
        if h is not None:
            r = h(self, cx)
            if r is not NotImplemented:
                if r is not None: cx.finish(r)
                return
        k = f['k']
        if k == 'abstract':
            h = self.handlers.get(path)
            if h is None: raise Stuck('abstract callee ' + path)
            r = h(self, cx)
            if r is not None: cx.finish(r)
            return
        b = self.builtins.get(rpath) or self.builtins.get(path)
        if b is None:
            for pre, bb in self.bprefix:
                if rpath.startswith(pre): b = bb; break
        if b is not None:
            r = b(self, cx)
            if r is NotImplemented: pass
            else:
                if r is not None: cx.finish(r)
                return
        if 'dkey' in f and f['dkey'] in self.p.insts:      # foreign override of a provided method: its default body
            cx.enter(f['dkey'], cx.args)
            return
        if k == 'inst':
            inst = self.p.insts.get(f['key'])
            if inst is None or 'blocks' not in inst: raise Stuck('no body for ' + path)
            args = cx.args
            if inst['closure'] and f['name'] in ('call', 'call_mut', 'call_once'):
                args = [args[0]] + list(args[1][2])
            cx.enter(f['key'], args)
            return
        if f.get('ctor'):
            rt = self.ctor_variant(f)
            cx.finish(('A', rt, tuple(cx.args)))
            return
        if k == 'shim':
            return self.shim(cx)
        h = self.handlers.get(rpath) or self.handlers.get(path)
        if h is not None:
            r = h(self, cx)
            if r is not None: cx.finish(r)
            return
        raise Stuck('callee %s (%s)' % (rpath, k))

    def ctor_variant(self, f):
        nm = f['name']
        return {'Some': 1, 'None': 0, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}.get(nm, 0)

    def shim(self, cx):
        f = cx.f
        sh = f.get('shim')
        if sh in ('FnPtr', 'ClosureOnce', 'ReifyShim', 'FnPtrShim') or f['name'] in ('call', 'call_mut', 'call_once'):
            return self.invoke(cx, cx.args[0], list(cx.args[1][2]), self.p.types[f['args'][0]])
        if sh in ('DropGlue', 'CloneShim', 'Clone'):
            if 'Clone' in sh:
                cx.finish(cx.st.get(cx.args[0][1], cx.args[0][2])); return
            return self.builtins['std::ptr::drop_in_place'](self, cx)
        raise Stuck('shim %s' % sh)

    def invoke(self, cx, callee, args, ty):
        """call a callable value (function item, closure or reference to one)"""
        while ty['k'] == 'ref':
            if callee[0] == 'R':
                ty = self.p.types[ty['elem']]
                if ty['k'] != 'closure': callee = cx.st.get(callee[1], callee[2])
                else: break
            else: break
        if ty['k'] == 'fndef':
            f = ty['fn']
            if f.get('ctor'):
                cx.finish(('A', self.ctor_variant(f), tuple(args))); return
            cx2 = CallCx(self, cx.st, cx.fr, f, args, cx.t, cx.finish, cx.enter)
            return self.dispatch(cx2)
        if ty['k'] == 'closure':
            body = self.p.fn(ty['body'])
            want_ref = self.p.types[body.locals[1]]['k'] == 'ref'
            if want_ref and callee[0] != 'R':
                st = cx.st
                a = ('tmp', st.fresh('c'))
                st.mem[a] = callee
                callee = ('R', a, (), None)
            if not want_ref and callee[0] == 'R':
                callee = cx.st.get(callee[1], callee[2])
            cx.enter(ty['body'], [callee] + args)
            return
        if ty['k'] == 'param':
            h = self.handlers.get('callable:' + ty['name']) or self.handlers.get('callable')
            if h:
                r = h(self, cx, callee, args)
                if r is not None: cx.finish(r)
                return
        raise Stuck('call of ' + ty['s'])

    # ---- exploration
    def run(self, states):
        """fixpoint over the given abstract states; returns the exit states"""
        out = []
        stack = list(states)
        while stack:
            st = stack.pop()
            self.nstates += 1
            if self.deadline and time.time() > self.deadline:
                out.append(Out(st, 'stuck', 'time limit'))
                break
            try:
                while True:
                    try:
                        self.step(st)
                    except NeedForce as z:
                        self.force(st, z.alloc)
                    if self.steps > self.maxsteps: raise Stuck('step limit')
            except Fork as f:
                for g in f.branches:
                    s2 = st.copy()
                    try: g(s2)
                    except Infeasible: continue
                    s2.nf += 1
                    stack.append(s2)
            except Exit as e:
                out.append(Out(st, e.kind, e.val))
            except Infeasible:
                pass
            except Bad as b:
                out.append(Out(st, 'bad', b, self.where(st)))
                if b.rule == 'rank': break       # decided: the states before it do not repeat
            except Stuck as b:
                out.append(Out(st, 'stuck', str(b), self.where(st)))
            except (IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError, StopIteration) as b:
                if os.environ.get('ABSINT_DEBUG'): raise
                out.append(Out(st, 'stuck', 'internal: %s %s' % (type(b).__name__, b), self.where(st)))
        return out

    def start(self, st, key, args):
        """a copy of st about to execute function key"""
        s = st.copy()
        s.fr = []
        s.uw = None
        root = None
        self.push(s, key, args, None, None, 'continue')
        return s

    def call_all(self, states, key, args):
        """states: list of (state); args: list or function of the state"""
        ini = []
        for st in states:
            ini.append(self.start(st, key, args(st) if callable(args) else args))
        return self.run(ini)

    def drop_value(self, st, val, t):
        """abstractly drop a value of type t; returns exit states"""
        s = st.copy(); s.fr = []; s.uw = None
        a = ('tmp', s.fresh('d'))
        s.mem[a] = val
        self.push_drop(s, [(a, (), t, None)], 'stay', 'continue')
        return self.run([s])

    def where(self, st):
        w = []
        for fr in reversed(st.fr):
            if fr.kind == 'fn':
                blk = fr.fn.blocks[fr.bb]
                ln = blk[2]
                if fr.si < len(blk[0]):
                    s = blk[0][fr.si]
                    if s[0] == '=': ln = s[3]
                if fr.fn.local:
                    w.append('%s (%s:%s)' % (fr.fn.path, fr.fn.file, ln))
            else:
                w.append('drop glue')
        return w


class Exit(Exception):
    def __init__(self, kind, val): self.kind = kind; self.val = val


class Out:
    __slots__ = ('st', 'kind', 'val', 'where')

    def __init__(self, st, kind, val, where=None):
        self.st = st; self.kind = kind; self.val = val; self.where = where


class CallCx:
    __slots__ = ('I', 'st', 'fr', 'f', 'args', 't', 'finish', 'enter')

    def __init__(self, I, st, fr, f, args, t, finish, enter):
        self.I = I; self.st = st; self.fr = fr; self.f = f; self.args = args; self.t = t; self.finish = finish; self.enter = enter


def ptr_add(st, a, n):
    n = conc(st, n)
    if n > (1 << 63): n -= 1 << 64
    if a[3] is not None: raise Stuck('offset of fat pointer')
    if not a[2]: raise Stuck('offset of non-element pointer')
    return ('R', a[1], a[2][:-1] + (a[2][-1] + n,), None)
