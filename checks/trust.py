"""Taint analysis over the MIR: node identifiers that come from the caller of an exported safe function must not reach a node access.

Sources: the arguments of an exported safe function whose type holds node identifiers outside of a tree or iterator (those
keep their identifiers in private fields, which is checked), and what functions supplied by the caller return.
Sinks: Storage::get, get_mut, release_node and Dropper::drop_node, dereferences of pointers to nodes, and writes of such an
identifier into a tree or an iterator.  The analysis is interprocedural, sensitive to fields, insensitive to control flow.
"""
import re
from absint.harness import *

ACCESS = {'storage::Storage::get': 1, 'storage::Storage::get_mut': 1, 'storage::Storage::release_node': 1, 'storage::Dropper::drop_node': 1}


def fn_local(f, inst):
    """followed exactly: functions of the crate, and those of the standard library that only move values"""
    return inst.get('local') or re.search(r'(?:option::Option|result::Result|\bmem\b|\bcmp\b|ptr::NonNull|boxed::Box)', re.sub(r'<[^<>]*>', '', inst['path'])) is not None and 'Iter' not in inst['path']


class Taint:
    def __init__(self, ck):
        self.p = ck.p
        self.T = ck.p.types
        self.memo_id = {}; self.memo_tr = {}
        self.summary = {}; self.rels = {}
        self.steps = 0
        trees = {t['path'] for t in self.T if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'RawBTree'}
        if len(trees) != 1: raise Missing('RawBTree')
        self.tree_path = trees.pop()
        # structs that hold a tree: their identifiers are the tree's own
        self.trusted_paths = {self.tree_path}
        while True:
            new = set()
            for t in self.T:
                if t['k'] == 'adt' and t.get('local') and t.get('kind') == 'struct' and t['path'] not in self.trusted_paths:
                    for f in t['variants'][0]['fields']:
                        x = f['ty']
                        while x is not None and self.T[x]['k'] == 'ref': x = self.T[x]['elem']
                        if x is not None and self.T[x].get('path') in self.trusted_paths: new.add(t['path'])
            if not new: break
            self.trusted_paths |= new

    # -- types
    def trusted(self, t): return self.T[t]['k'] == 'adt' and self.T[t].get('path') in self.trusted_paths

    def node_adt(self, t):
        ty = self.T[t]
        return ty['k'] == 'adt' and ty.get('local') and ty['path'].split('::')[-1] in ('Node', 'Internal', 'InternalNode', 'Leaf', 'LeafNode')

    def is_id(self, t):
        ty = self.T[t]
        if ty['k'] == 'alias': return ty['s'].endswith('::Node') and 'Storage' in ty['s']
        return ty['k'] == 'adt' and ty['path'].split('::')[-1] == 'BoxPtr'

    def holds(self, t, depth=0):
        """does a value of the type hold an identifier that is not the tree's own?"""
        if t in self.memo_id: return self.memo_id[t]
        if depth == 0: self.memo_id.setdefault('stack', set())
        if depth > 12: return False
        ty = self.T[t]; k = ty['k']
        st = self.memo_id.setdefault('stack', set())
        if t in st: return False
        if self.is_id(t): return True
        if self.trusted(t): return False
        st.add(t)
        r = False
        if k in ('ref', 'ptr', 'slice', 'array'): r = self.holds(ty['elem'], depth + 1)
        elif k == 'tuple': r = any(self.holds(x, depth + 1) for x in ty['elems'])
        elif k == 'closure': r = any(self.holds(x, depth + 1) for x in ty['upvars'])
        elif k == 'adt':
            if ty.get('local'): r = any(f['ty'] is not None and self.holds(f['ty'], depth + 1) for v in ty['variants'] for f in v['fields'])
            else: r = any(type(a) is int and self.holds(a, depth + 1) for a in ty.get('args') or ())
        st.discard(t)
        if depth == 0: self.memo_id[t] = r
        return r

    def derefs_node(self, t):
        """pointer to a node"""
        ty = self.T[t]
        if ty['k'] == 'ptr': return self.node_adt(ty['elem'])
        if ty['k'] == 'ref': return self.derefs_node(ty['elem'])
        if ty.get('path') == 'std::ptr::NonNull' or ty.get('box'): return any(type(a) is int and self.node_adt(a) for a in ty.get('args') or ())
        return False

    # -- places: (local, fields), and whether the place lies inside a tree
    def path(self, fn, pl):
        t = fn.locals[pl[0]]; p = []; inside = False; ptr = False
        for e in pl[1]:
            if self.trusted(t): inside = True
            if e[0] == '*':
                ty = self.T[t]
                if self.derefs_node(t) and ty['k'] != 'ref': ptr = True
                t = ty['elem'] if 'elem' in ty else t
            elif e[0] == 'f':
                p.append(e[1]); t = e[2]
            elif e[0] == 'd': continue
            else:
                ty = self.T[t]
                if 'elem' in ty: t = ty['elem']
        return pl[0], tuple(p[:4]), inside, ptr, t

    def read(self, ts, l, q):
        r = set()
        for (m, t) in ts:
            if m != l: continue
            if t == q[:len(t)]: r.add(())
            elif q == t[:len(q)]: r.add(t[len(q):])
        return r

    def analyse(self, key, src):
        """(sinks, tainted outputs) of a function under tainted inputs; a fixpoint over recursive calls"""
        k = (key, src)
        if k in self.summary: return self.summary[k]
        self.summary[k] = (frozenset(), frozenset())
        while True:
            changed = False
            for kk in list(self.summary):
                n = self.once(*kk)
                if n != self.summary[kk]: self.summary[kk] = n; changed = True
            if not changed: return self.summary[k]

    def get(self, key, src):
        k = (key, src)
        if k not in self.summary: self.summary[k] = (frozenset(), frozenset())
        return self.summary[k]

    def once(self, key, src):
        fn = self.p.fn(key)
        ts = set(src); sinks = set()
        name = self.p.insts[key]['path']

        def tyof(l): return fn.locals[l]

        def write(pl, tails, line):
            if not tails: return False
            l, q, inside, ptr, t = self.path(fn, pl)
            if not self.holds(t) : return False
            if inside or self.trusted(t):
                sinks.add('%s: an identifier chosen by the caller is stored in a tree (%s:%s)' % (name, fn.file, line)); return False
            n = {(l, (q + x)[:4]) for x in tails} - ts
            ts.update(n)
            return bool(n)

        def tails(o):
            if o[0] not in ('c', 'm'): return set()
            return place_tails(o[1])

        def place_tails(pl):
            l, q, inside, ptr, t = self.path(fn, pl)
            r = self.read(ts, l, q)
            if r and ptr: sinks.add('%s: a pointer made from an identifier chosen by the caller is dereferenced (%s)' % (name, fn.file))
            if inside or not self.holds(t) and not self.derefs_node(t): return set()
            return r
        changed = True
        while changed:
            changed = False
            for stmts, t, line, cu, tf in fn.blocks:
                for s in stmts:
                    if s[0] != '=': continue
                    self.steps += 1
                    pl, rv = s[1], s[2]; ln = s[3]
                    if rv[0] == 'use': changed |= write(pl, tails(rv[1]), ln)
                    elif rv[0] == 'cast': changed |= write(pl, tails(rv[2]), ln)
                    elif rv[0] in ('ref', 'rawptr'):
                        changed |= write(pl, place_tails(rv[1]), ln)
                        back = place_tails(pl)
                        if back: changed |= write(rv[1], back, ln)
                    elif rv[0] == 'agg':
                        ops = rv[2]
                        tt = self.path(fn, pl)[4]
                        for i, o in enumerate(ops):
                            x = tails(o)
                            if not x: continue
                            if self.trusted(tt): sinks.add('%s: a tree is made from an identifier chosen by the caller (%s:%s)' % (name, fn.file, ln))
                            else: changed |= write(pl, {((i,) + y)[:4] for y in x} if rv[1][0] in ('adt', 'tuple', 'closure') else {()}, ln)
                if t[0] == 'call': changed |= self.call(fn, name, t, line, ts, sinks, tails, write)
        out = frozenset((l, p) for l, p in ts if l <= fn.argc)
        return frozenset(sinks), out

    def call(self, fn, name, t, line, ts, sinks, tails, write):
        fo = t[1]
        f = fo[1]['fn'] if fo[0] == 'k' and 'fn' in fo[1] else None
        args = [tails(o) for o in t[2]]
        dt = self.path(fn, t[3])[4] if t[4] is not None else None
        changed = False
        if f is None:
            return write(t[3], {()}, line) if dt is not None and self.holds(dt) and self.T[dt]['k'] != 'ref' else False
        path = f['path']; rpath = f.get('rpath') or path
        if path in ACCESS:
            if len(args) > ACCESS[path] and args[ACCESS[path]]:
                sinks.add('%s: an identifier chosen by the caller is passed to %s (%s:%s)' % (name, path, fn.file, line))
            return False
        if path == 'storage::Storage::allocate_node': return False
        key = f.get('key')
        inst = self.p.insts.get(key) if key else None
        if inst is not None and 'blocks' in inst:
            g = self.p.fn(key)
            src = set()
            ops = []
            if inst['closure'] and f['name'] in ('call', 'call_mut', 'call_once') and len(args) == 2:
                ops = [(args[0], 1, ())]
                for y in args[1]:
                    if y: src.add((2 + y[0], y[1:]))
                    else: src |= {(i, ()) for i in range(2, g.argc + 1)}
            else: ops = [(a, i + 1, ()) for i, a in enumerate(args)]
            for a, i, _ in ops:
                if i <= g.argc:
                    for y in a: src.add((i, y))
            src = frozenset((i, y) for i, y in src if i <= g.argc)
            if src and not fn_local(f, inst): changed |= self.opaque(fn, f, t, dt, args, line, sinks, write)
            if not src and not self.user_calls(key): return False
            ss, out = self.get(key, src)
            sinks |= {x for x in ss}
            for l, y in out:
                if l == 0:
                    if t[4] is not None: changed |= write(t[3], {y}, line)
                elif l - 1 < len(t[2]) and t[2][l - 1][0] in ('c', 'm') and not inst['closure'] and (l, y) not in src:
                    changed |= write(t[2][l - 1][1], {y}, line)
            return changed
        if f['k'] == 'abstract':
            if f.get('trait') in ('storage::Storage', 'storage::Dropper'):
                return False
            if f['name'] in ('clone', 'clone_from', 'into', 'from', 'borrow', 'deref', 'as_ref'):
                return write(t[3], {()} if any(args) else set(), line) if dt is not None else False
            # code supplied by the caller: what it returns, and what it passes to closures it is given, is chosen by the caller
            for o, a in zip(t[2], args): self.closures(fn, o, a, sinks, True)
            if dt is not None and self.holds(dt): return write(t[3], {()}, line)
            return False
        return self.opaque(fn, f, t, dt, args, line, sinks, write)

    def opaque(self, fn, f, t, dt, args, line, sinks, write):
        """code of another crate: it may return what it is given, and pass it to the closures it is given"""
        changed = False
        outside = False
        for o, a in zip(t[2], args):
            ps = [p for _, p in self.closure_types(self.path(fn, o[1])[4])] if a and o[0] in ('c', 'm') else []
            outside |= any(not any(y[:len(p)] == p for p in ps) for y in a)
        for o, a in zip(t[2], args): self.closures(fn, o, a, sinks, outside)
        if outside:
            for o, a in zip(t[2], args):
                if a and f.get('unsafe') and o[0] in ('c', 'm') and self.derefs_node(self.path(fn, o[1])[4]):
                    sinks.add('%s: a pointer made from an identifier chosen by the caller is passed to %s (%s:%s)' % (self.p.insts[fn.key]['path'], f.get('rpath') or f['path'], fn.file, line))
            if dt is not None and (self.holds(dt) or self.derefs_node(dt)): changed |= write(t[3], {()}, line)
            for o in t[2]:
                if o[0] in ('c', 'm'):
                    ty = self.T[self.path(fn, o[1])[4]]
                    if ty['k'] == 'ref' and ty.get('mut'): changed |= write(o[1], {()}, line)
        return changed

    def closure_types(self, t, p=(), depth=0):
        ty = self.T[t]
        if ty['k'] == 'closure': yield t, p
        elif depth < 5:
            if ty['k'] in ('ref', 'ptr'): yield from self.closure_types(ty['elem'], p, depth + 1)
            elif ty['k'] == 'tuple':
                for i, x in enumerate(ty['elems']): yield from self.closure_types(x, p + (i,), depth + 1)
            elif ty['k'] == 'adt':
                fs = [(i, f['ty']) for v in ty.get('variants') or () for i, f in enumerate(v['fields']) if f['ty'] is not None]
                if fs:
                    for i, x in fs: yield from self.closure_types(x, p + (i,), depth + 1)
                else:
                    for x in ty.get('args') or ():
                        if type(x) is int: yield from self.closure_types(x, p + (0,), depth + 1)

    def closures(self, fn, o, tails, sinks, params):
        """closures inside of an operand, called by unknown code with tainted parameters"""
        t = self.path(fn, o[1])[4] if o[0] in ('c', 'm') else o[1].get('ty') if o[0] == 'k' and type(o[1]) is dict else None
        if type(t) is not int: return
        for c, p in self.closure_types(t):
            body = self.T[c].get('body')
            if not body or 'blocks' not in (self.p.insts.get(body) or {}): continue
            g = self.p.fn(body)
            src = {(i, ()) for i in range(2, g.argc + 1) if params and self.holds(g.locals[i])}
            for y in tails:
                if y[:len(p)] == p: src.add((1, y[len(p):]))
            if src:
                ss, _ = self.get(body, frozenset(src))
                sinks |= ss

    def user_calls(self, key, seen=None):
        """does the function (or one it calls) obtain identifiers from code supplied by the caller?"""
        c = self.rels
        if key in c: return c[key]
        c[key] = False
        r = False
        fn = self.p.fn(key)
        for stmts, t, line, cu, tf in fn.blocks:
            if t[0] != 'call': continue
            fo = t[1]
            if not (fo[0] == 'k' and 'fn' in fo[1]): r = True; continue
            f = fo[1]['fn']
            dt = self.path(fn, t[3])[4] if t[4] is not None else None
            if f['k'] == 'abstract' and f.get('trait') not in ('storage::Storage', 'storage::Dropper', 'std::clone::Clone') and dt is not None and self.holds(dt): r = True
            if f['k'] == 'abstract' and f.get('trait') not in ('storage::Storage', 'storage::Dropper', 'std::clone::Clone'):
                for o in t[2]:
                    ot = self.path(fn, o[1])[4] if o[0] in ('c', 'm') else None
                    if ot is not None and any(self.holds(x) for c, _ in self.closure_types(ot) if self.T[c].get('body') in self.p.insts
                                              and 'blocks' in self.p.insts[self.T[c]['body']] for x in self.p.fn(self.T[c]['body']).locals[2:2 + self.p.fn(self.T[c]['body']).argc - 1]): r = True
            k = f.get('key')
            if k and 'blocks' in (self.p.insts.get(k) or {}) and self.user_calls(k): r = True
        c[key] = r
        return r

    # -- mutable access to nodes
    def mutable(self, t, seen=()):
        """a mutable reference to a node, to a storage or to an identifier of the tree in a type"""
        if t in seen or len(seen) > 12: return False
        seen = seen + (t,)
        ty = self.T[t]; k = ty['k']
        if k in ('ref', 'ptr'):
            if ty.get('mut') and self.internal(ty['elem']): return True
            return self.mutable(ty['elem'], seen)
        if k == 'slice' or k == 'array': return self.mutable(ty['elem'], seen)
        if k == 'tuple': return any(self.mutable(x, seen) for x in ty['elems'])
        if k == 'adt' and not self.trusted(t):
            if ty.get('local'): return any(f['ty'] is not None and f['pub'] and self.mutable(f['ty'], seen) for v in ty['variants'] for f in v['fields'])
            a = [x for x in ty.get('args') or () if type(x) is int]
            if ty['path'] in ('std::slice::IterMut', 'std::cell::RefMut', 'std::option::IterMut') and any(self.internal(x) for x in a): return True
            return any(self.mutable(x, seen) for x in a)
        return False

    def internal(self, t):
        ty = self.T[t]
        if self.node_adt(t) or self.is_id(t) or t in self.storages(): return True
        if ty['k'] in ('slice', 'array'): return self.internal(ty['elem'])
        if ty.get('path') == 'std::option::Option': return any(type(a) is int and self.is_id(a) for a in ty['args'])
        return False

    def storages(self):
        if not hasattr(self, '_st'):
            self._st = set()
            for t in self.T:
                if t['k'] == 'adt' and t.get('path') == self.tree_path:
                    for f in t['variants'][0]['fields']:
                        if f['ty'] is not None and self.T[f['ty']]['k'] == 'param': self._st.add(f['ty'])
        return self._st

    def gives_tree(self, t, depth=0):
        """does an argument of this type lead to nodes of a tree?"""
        ty = self.T[t]
        if ty['k'] in ('ref', 'ptr') and depth < 6: return self.gives_tree(ty['elem'], depth + 1)
        return self.trusted(t) or t in self.storages()

    def owns_node(self, t, depth=0):
        ty = self.T[t]
        if ty['k'] == 'ref': return bool(ty.get('mut')) and self.owns_node(ty['elem'], depth + 1)
        return self.node_adt(t) or ty['k'] == 'adt' and ty.get('local') and not self.trusted(t) and self.holds(t) and depth > 0


def kind(why):
    m = re.search(r'passed to (?:storage::)?(\w+::\w+)', why)
    if 'mutable access' in why: return 'mutable access'
    if m and m.group(1) in ('Storage::get', 'Storage::get_mut'): return 'follows an identifier'
    if m: return 'passes an identifier to ' + m.group(1)
    if 'dereferenced' in why: return 'dereferences'
    return 'stores an identifier'


def trust(ck):
    h = Taint(ck)
    p = ck.p
    plain = 0
    for i in sorted(p.items, key=lambda i: (i['path'], i['key'])):
        if not i['exported'] or i['unsafe']: continue
        if i['key'] not in p.insts or 'blocks' not in p.insts[i['key']]:
            continue
        name = i['path']
        src = frozenset((k + 1, ()) for k, t in enumerate(i['inputs']) if h.holds(t))
        why = []
        h.steps = 0
        user = h.user_calls(i['key'])
        if src or user:
            ss, _ = h.analyse(i['key'], src)
            why += sorted(ss)
        if any(h.gives_tree(t) for t in i['inputs']):
            if h.mutable(i['output']) and not any(h.owns_node(t) for t in i['inputs']): why.append('safe code is given mutable access to nodes by the result')
            for pr in i.get('preds') or ():
                m = re.search(r'(?:Fn|FnMut|FnOnce)<\((.*?),?\)>', pr)
                if m and re.search(r'&(?:\'\S+ )?mut (?:[\w:]*::)?(?:Node|Internal|Leaf|InternalNode|LeafNode)\b', m.group(1)): why.append('safe code is given mutable access to nodes by a callback')
            for t in i['inputs']:
                s = p.types[t]['s']
                if re.search(r'(dyn [\w:]*Fn(Mut|Once)?|fn)\(.*&(?:\'\w+ )?mut (?:[\w:]*::)?(?:Node|Internal|Leaf)\b', s): why.append('safe code is given mutable access to nodes by a callback')
        elif not src and not user:
            plain += 1
            continue
        kinds = {}
        for w in why: kinds.setdefault(kind(w), []).append(w)
        for k in kinds:
            ck.add('safe: %s: %s' % (name, k), name, 'violated', 1, 1, kinds[k], '', h.steps)
            ck.obs[-1]['key'] = '%s: %s' % (re.sub(r'(::)?<[^<>]*>', '', name), k)
        if not kinds: ck.add('safe: ' + name, name, 'proved', 1, 1, [], '', h.steps)
    ck.add('safe functions that take neither identifiers nor a tree', '(all)', 'proved', plain, plain, [], '', 0)
    # identifiers of trees and iterators are private
    for path in sorted(h.trusted_paths):
        bad = sorted({f['name'] for t in p.types if t['k'] == 'adt' and t.get('path') == path for v in t['variants'] for f in v['fields'] if f['pub']})
        ck.add('private fields: ' + path, path, 'violated' if bad else 'proved', 1, 1, ['the field %s is accessible from other crates' % b for b in bad], '', 0)
    # the accesses that take an identifier are unsafe
    for tr, ms in (('storage::Storage', ('get', 'get_mut', 'release_node')), ('storage::Dropper', ('drop_node',))):
        t = [x for x in p.d['traits'] if x['path'] == tr]
        if not t: raise Missing(tr)
        bad = not t[0]['unsafe']
        ck.add('unsafe: ' + tr, tr, 'violated' if bad else 'proved', 1, 1, ['safe code can implement the trait that the tree trusts with its nodes'] if bad else [], '', 0)
        for m in ms:
            x = [y for y in t[0]['items'] if y['name'] == m]
            if not x: raise Missing('%s::%s' % (tr, m))
            bad = not x[0]['unsafe']
            ck.add('unsafe: %s::%s' % (tr, m), '%s::%s' % (tr, m), 'violated' if bad else 'proved', 1, 1, ['a function that follows an identifier of its caller is not marked unsafe'] if bad else [], '', 0)
