"""Items that an iteration has handed out stay usable: what a later step does must not create a conflicting reference.

An item whose lifetime is that of the iterator's borrow of the tree is still in use when the next one is asked for.  From
then on a reference to a whole node covers it: for an exclusive item any such reference conflicts, for a shared one a
mutable reference does.  The rule looks for the places that create one in everything that a step of the iteration calls.
"""
import re
from checks.witness import Sigs
from absint.harness import *


def sites(p, key, exclusive, steps):
    """call paths to the places that create a conflicting reference: {place: path}; what other steps do is reported there"""
    found = {}; seen = {key: (p.insts[key]['path'],)}; todo = [key]; calls = 0

    def local_adt(t, names):
        ty = p.types[t]
        return ty['k'] == 'adt' and ty.get('local') and ty['path'].split('::')[-1] in names

    def place_type(fn, pl):
        t = fn.locals[pl[0]]; deref = False
        for e in pl[1]:
            ty = p.types[t]
            if e[0] == '*': t = ty.get('elem', t); deref = True
            elif e[0] == 'f': t = e[2]
            elif e[0] != 'd' and 'elem' in ty: t = ty['elem']
        return t, deref
    while todo:
        k = todo.pop(0)
        fn = p.fn(k)
        for stmts, t, line, cu, tf in fn.blocks:
            for s in stmts:
                if s[0] == '=' and s[2][0] == 'ref':
                    ty, deref = place_type(fn, s[2][1])
                    mut = bool(s[2][2])
                    if deref and (exclusive or mut) and local_adt(ty, ('Node', 'Internal', 'Leaf', 'Branch', 'Array')):
                        found.setdefault('%s (%s:%s): %s%s' % (p.insts[k]['path'], fn.file, s[3], '&mut ' if mut else '&', p.types[ty]['s']), seen[k])
            if t[0] != 'call': continue
            calls += 1
            fo = t[1]
            if not (fo[0] == 'k' and 'fn' in fo[1]): continue
            f = fo[1]['fn']
            if f['path'] == 'storage::Storage::get_mut' or exclusive and f['path'] == 'storage::Storage::get':
                found.setdefault('%s (%s:%s): %s' % (p.insts[k]['path'], fn.file, line, f['path']), seen[k])
            nk = [f.get('key')]
            # closures that are handed on are called
            for o in t[2]:
                if o[0] in ('c', 'm'):
                    ct = p.types[place_type(fn, o[1])[0]]
                    if ct['k'] == 'closure': nk.append(ct.get('body'))
            for n in nk:
                if n and n not in seen and (p.insts.get(n) or {}).get('path') not in steps and 'blocks' in (p.insts.get(n) or {}):
                    seen[n] = seen[k] + (p.insts[n]['path'],); todo.append(n)
    return found, len(seen), calls


def alias(ck):
    p = ck.p
    S = Sigs(p)
    todo = []
    for i in sorted(p.items, key=lambda i: (i['path'], i['key'])):
        if not i['exported'] or 'blocks' not in (p.insts.get(i['key']) or {}): continue
        if not i['rinputs'] or i['rinputs'][0][0] != 'ref': continue
        # the receiver is a reference to something that borrows the tree, and the result is lent for that longer borrow
        self_ = i['rinputs'][0]
        inner = {x[0] for x in S.lends(self_[3])}
        outs = [x for x in S.lends(i['routput']) if x[0] in inner and x[2]]
        if not outs or not any(a[1] in S.adts and a[1].split('::')[-1] not in ('Drain',) for a in [self_[3]] if a[0] == 'adt'): continue
        excl = any(x[1] for x in outs)
        todo.append((i, excl))
    for i, excl in todo:
        f, fns, calls = sites(p, i['key'], excl, {p.insts[k['key']]['path'] for k, e in todo if (e or not excl) and k is not i})
        name = re.sub(r'(::)?<[^<>]*>', '', i['path']) if not i['path'].startswith('<') else re.sub(r"^<(\w[\w:]*)(<.*>)? as .*>::(\w+)$", r'\1::\3', i['path'])
        why = ['%s, reached through %s' % (x, ' > '.join(c)) for x, c in sorted(f.items(), key=lambda y: (len(y[1]), y[0]))]
        ck.add('step: ' + name, i['path'], 'violated' if why else 'proved', fns, calls, why[:6], '', calls)
        ck.obs[-1]['key'] = '%s: %s' % (name, 'reference to a node with items in use' if excl else 'mutable reference during a shared iteration')
