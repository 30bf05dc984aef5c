"""Compile-fail witnesses: programs that the type system has to reject, each with a lawful twin that it has to accept.

Nothing is run: the crate is type-checked as a dependency, and so are the witnesses; what decides is which of them the type
and borrow checkers reject, at which witness and with which errors.  Programs that are generic in the item type decide the
rule for every item type.
"""
import json, os, re, shutil, subprocess, tempfile
from absint.harness import *

REPO = os.environ.get('VERIF_REPO', '/repo')
PRELUDE = '''#![allow(unused, dropping_references, dropping_copy_types)]
extern crate raw_btree;
use raw_btree::{*, storage::{*, Storage}, node::*};
use std::{cell::Cell, rc::Rc, sync::MutexGuard, cmp::Ordering};
pub fn is_send<X: Send>() {}
pub fn is_sync<X: Sync>() {}
pub fn is_clone<X: Clone>() {}
pub fn is_copy<X: Copy>() {}
pub fn cmp(a: &String, b: &String) -> Ordering { a.cmp(b) }
pub fn s() -> String { String::new() }
pub fn use_<X>(_: X) {}
pub type Tree = RawBTree<String>;
pub type Id<T> = <BoxStorage as Storage<T>>::Node;
pub fn addr() -> Address<Id<String>> { panic!() }
pub fn id() -> Id<String> { panic!() }
'''
BORROW = {'E0597', 'E0515', 'E0716', 'E0502', 'E0499', 'E0505', 'E0506', 'E0521', 'E0382', 'E0596', 'E0594', 'E0507', 'E0503', 'E0621', 'E0373', 'E0700', 'E0310', 'E0309', 'E0491', 'E0713', 'lifetime'}
TYPE = {'E0277'}


def witnesses():
    """(name, anchor, unlawful program, lawful twin, errors that are the rule's)"""
    W = []

    def w(name, anchor, bad, good, codes=BORROW): W.append((name, anchor, bad, good, codes))
    # -- thread safety: (type, what has to hold for Send, for Sync); programs generic in the item type
    both = 'T: Send + Sync'
    for ty, send, sync, gsend, gsync in (
            ('RawBTree<T>', 'Send', 'Sync', 'T: Send', 'T: Sync'), ('IntoIter<T>', 'Send', 'Sync', 'T: Send', 'T: Sync'),
            ("IterMut<'a, T>", 'Send', 'Sync', 'T: Send', 'T: Sync'), ("Iter<'a, T>", 'Sync', 'Sync', both, both),
            ("&'a RawBTree<T>", 'Sync', 'Sync', 'T: Sync', 'T: Sync'), ("&'a mut RawBTree<T>", 'Send', 'Sync', 'T: Send', 'T: Sync'),
            ('Id<T>', 'Send', 'Sync', both, both), ('BoxPtr<T>', 'Send', 'Sync', 'T: Send', 'T: Sync'), ('Address<Id<T>>', 'Send', 'Sync', both, both),
            ('Node<T, BoxStorage>', 'Send', 'Sync', both, both),
            ('LeafNode<T, BoxStorage>', 'Send', 'Sync', both, both), ('InternalNode<T, BoxStorage>', 'Send', 'Sync', both, both),
            ("Children<'a, T, BoxStorage>", 'Sync', 'Sync', both, both), ("ChildrenWithSeparators<'a, T, BoxStorage>", 'Sync', 'Sync', both, both)):
        for goal, need, good in (('send', send, gsend), ('sync', sync, gsync)):
            other = 'Sync' if need == 'Send' else 'Send'
            ok = "pub fn f<'a, %s + 'a>() { is_%s::<%s>() }" % (good, goal, ty)
            w('%s: %s only if the item is %s' % (ty, goal.capitalize(), need), ty, "pub fn f<'a, T: %s + 'a>() { is_%s::<%s>() }" % (other, goal, ty), ok, TYPE)
            conc = "MutexGuard<'static, u8>" if need == 'Send' else 'Cell<u8>'
            w('%s: not %s for %s' % (ty, goal.capitalize(), conc), ty, "pub fn f<'a>() { is_%s::<%s>() }" % (goal, re.sub(r'\bT\b', conc, ty)),
              "pub fn f<'a>() { is_%s::<%s>() }" % (goal, re.sub(r'\bT\b', 'String', ty)), TYPE)
            w('%s: not %s for Rc' % (ty, goal.capitalize()), ty, "pub fn f<'a>() { is_%s::<%s>() }" % (goal, re.sub(r'\bT\b', 'Rc<u8>', ty)),
              "pub fn f<'a>() { is_%s::<%s>() }" % (goal, re.sub(r'\bT\b', 'u8', ty)), TYPE)
    for ty, send, sync in (('RawBTree<T, S>', 'Send', 'Sync'), ('IntoIter<T, S>', 'Send', 'Sync'), ("IterMut<'a, T, S>", 'Send', 'Sync'), ("Iter<'a, T, S>", 'Sync', 'Sync')):
        for goal, need in (('send', send), ('sync', sync)):
            other = 'Sync' if need == 'Send' else 'Send'
            gen = "pub fn f<'a, T: %s + 'a, S: Storage<T> + Send + Sync + 'a>() where S::Node: Send + Sync { is_" + goal + "::<" + ty + ">() }"
            w('%s: %s only if the item is %s' % (ty, goal.capitalize(), need), ty, gen % other, gen % 'Send + Sync', TYPE)
            # and only if the storage is
            gs = "pub fn f<'a, T: Send + Sync + 'a, S: Storage<T> + %s + 'a>() where S::Node: Send + Sync { is_" + goal + "::<" + ty + ">() }"
            w('%s: %s only if the storage is %s' % (ty, goal.capitalize(), need), ty, gs % other, gs % 'Send + Sync', TYPE)
    # -- duplication
    for ty in ("IterMut<'a, T>", "IterMut<'a, T, S>"):
        gen = "pub fn f<'a, T: Copy + 'a, S: Storage<T> + Copy + 'a>() { is_%s::<%s>() }"
        for c in ('clone', 'copy'):
            w('%s is not %s' % (ty, c.capitalize()), ty, gen % (c, ty), gen % (c, '&\'a ' + ty), TYPE)
    for ty in ('RawBTree<T>', 'IntoIter<T>'):
        w('%s is not Copy' % ty, ty, 'pub fn f<T: Copy>() { is_copy::<%s>() }' % ty, "pub fn f<T: Copy + 'static>() { is_copy::<&'static %s>() }" % ty, TYPE)
    w('IterMut is moved, not copied', 'IterMut', 'pub fn f(t: &mut Tree) { let i = t.iter_mut(); let mut j = i; let mut i = i; use_((i.next(), j.next())) }',
      'pub fn f(t: &mut Tree) { let i = t.iter_mut(); let mut j = i; use_((j.next(), j.next())) }')
    # -- lifetimes of types
    for ty in ("Iter<'%s, T>", "IterMut<'%s, T>", "Children<'%s, T, BoxStorage>", "ChildrenWithSeparators<'%s, T, BoxStorage>"):
        a, b = ty % 'a', ty % 'b'
        w('%s cannot be made longer-lived' % (ty % 'a'), ty % 'a', "pub fn f<'a, 'b, T: 'a + 'b>(i: %s) -> %s { i }" % (a, b), "pub fn f<'a, T: 'a>(i: %s) -> %s { i }" % (a, a))
    w('IterMut is invariant in the item', 'IterMut', "pub fn f<'a, 'b>(i: IterMut<'b, &'static str>) -> IterMut<'b, &'a str> { i }", "pub fn f<'a, 'b>(i: IterMut<'b, &'a str>) -> IterMut<'b, &'a str> { i }")
    w('a tree reference is invariant in the item', 'RawBTree', "pub fn f<'a, 'b>(i: &'b mut RawBTree<&'static str>) -> &'b mut RawBTree<&'a str> { i }", "pub fn f<'a, 'b>(i: &'b mut RawBTree<&'a str>) -> &'b mut RawBTree<&'a str> { i }")
    for n, ref, item in (('Iter', "&'a ", 'Iter'), ('IterMut', "&'a mut ", 'IterMut')):
        for m in ('next', 'next_back'):
            w('%s::%s: items live as long as the borrow of the tree, not longer' % (n, m), n, "pub fn f<'a, 'b, T: 'a + 'b>(i: &mut %s<'b, T>) -> Option<%sT> { i.%s() }" % (item, ref, m),
              "pub fn f<'a, T>(i: &mut %s<'a, T>) -> Option<%sT> { i.%s() }" % (item, ref, m))
    D = "pub struct D<'a>(&'a str); impl<'a> Drop for D<'a> { fn drop(&mut self) { use_(self.0.len()) } } pub fn c(a: &D, b: &D) -> Ordering { a.0.cmp(b.0) } "
    w('items are dropped with the tree', 'RawBTree', D + 'pub fn f() { let mut t: RawBTree<D> = RawBTree::new(); let x = s(); t.insert(c, D(&x)); }', D + 'pub fn f() { let x = s(); let mut t: RawBTree<D> = RawBTree::new(); t.insert(c, D(&x)); }')
    w('items are dropped with the owning iterator', 'IntoIter', D + 'pub fn f() { let mut i; let x = s(); let mut t: RawBTree<D> = RawBTree::new(); t.insert(c, D(&x)); i = t.into_iter(); }',
      D + 'pub fn f() { let x = s(); let mut i; let mut t: RawBTree<D> = RawBTree::new(); t.insert(c, D(&x)); i = t.into_iter(); }')
    # -- borrows: what is borrowed cannot outlive the tree nor coexist with its mutation
    shared = [('get', 't.get(cmp, &k)'), ('first', 't.first()'), ('last', 't.last()'), ('iter', 't.iter()'), ('iter().next', 't.iter().next()'), ('iter().next_back', 't.iter().next_back()'),
              ('into_iter (shared)', '(&t).into_iter()'), ('get_at', 'unsafe { t.get_at(a) }'), ('node', 'unsafe { t.node(n) }'), ('node.item', 'unsafe { t.node(n) }.item(a.offset)'),
              ('node.children', 'unsafe { t.node(n) }.children()'), ('node.separators', 'unsafe { t.node(n) }.separators(0)'), ('node.get', 'unsafe { t.node(n) }.get(cmp, &k)'),
              ('node.children_with_separators', 'unsafe { t.node(n) }.children_with_separators()')]
    excl = [('get_mut', 't.get_mut(cmp, &k)'), ('first_mut', 't.first_mut()'), ('last_mut', 't.last_mut()'), ('iter_mut', 't.iter_mut()'), ('iter_mut().next', 't.iter_mut().next()'),
            ('iter_mut().next_back', 't.iter_mut().next_back()'), ('into_iter (mutable)', '(&mut t).into_iter()'), ('get_mut_at', 'unsafe { t.get_mut_at(a) }'), ('node_mut', 'unsafe { t.node_mut(n) }'),
            ('node_mut.item_mut', 'unsafe { t.node_mut(n) }.item_mut(a.offset)'), ('node_mut.get_mut', 'unsafe { t.node_mut(n) }.get_mut(cmp, &k)')]
    change = [('insert', 't.insert(cmp, s());'), ('remove', 't.remove(cmp, &k);'), ('clear', 't.clear();'), ('drop', 'drop(t);'), ('into_iter', 'use_(t.into_iter());'), ('iter_mut', 't.iter_mut().next();'),
              ('get_mut', 't.get_mut(cmp, &k);'), ('first_mut', 't.first_mut();'), ('last_mut', 't.last_mut();'), ('forget', 't.forget();'), ('assignment', 't = Tree::new();'),
              ('visit_from_leaves_mut', 't.visit_from_leaves_mut(|_, _| ());'), ('insert_at', 'unsafe { t.insert_at(Some(a), s()); }'), ('insert_exactly_at', 'unsafe { t.insert_exactly_at(Some(a), s(), None); }'),
              ('replace_at', 'unsafe { t.replace_at(a, s()); }'), ('remove_at', 'unsafe { t.remove_at(a); }'), ('get_mut_at', 'unsafe { t.get_mut_at(a); }'), ('node_mut', 'unsafe { t.node_mut(n); }')]
    head = 'pub fn f() { let k = s(); let a = addr(); let n = id(); '
    for name, e in shared + excl:
        w('%s: the result does not outlive the tree' % name, name, head + 'let r = { let mut t = Tree::new(); ' + e + ' }; use_(r) }', head + 'let mut t = Tree::new(); let r = { ' + e + ' }; use_(r) }')
        for cn, c in change:
            if name not in ('get', 'iter', 'iter().next', 'get_mut', 'iter_mut', 'iter_mut().next') and cn not in ('insert', 'drop'): continue
            w('%s: the result does not coexist with %s' % (name, cn), name, head + 'let mut t = Tree::new(); let r = ' + e + '; ' + c + ' use_(r) }', head + 'let mut t = Tree::new(); let r = ' + e + '; use_(r); ' + c + ' }')
    for name, e in excl:
        for cn, c in (('get', 't.get(cmp, &k);'), ('len', 't.len();'), ('iter', 't.iter().next();'), ('itself', 'let q = ' + e + ';')):
            if c.startswith('let q'):
                w('%s: the result does not coexist with another one' % name, name, head + 'let mut t = Tree::new(); let r = ' + e + '; ' + c + ' use_(r); use_(q) }', head + 'let mut t = Tree::new(); let r = ' + e + '; use_(r); ' + c + ' use_(q) }')
            else:
                w('%s: the result does not coexist with %s' % (name, cn), name, head + 'let mut t = Tree::new(); let r = ' + e + '; ' + c + ' use_(r) }', head + 'let mut t = Tree::new(); let r = ' + e + '; use_(r); ' + c + ' }')
    # -- mutation takes exclusive access
    for cn, c in change:
        if cn in ('drop', 'into_iter', 'assignment'): continue
        w('%s is not possible through a shared reference' % cn, cn, "pub fn f(t: &Tree, k: String, a: Address<Id<String>>, n: Id<String>) { %s }" % c, "pub fn f(t: &mut Tree, k: String, a: Address<Id<String>>, n: Id<String>) { %s }" % c)
    for cn, c in (('next', 'i.next();'), ('next_back', 'i.next_back();')):
        w('IterMut::%s takes exclusive access' % cn, 'IterMut', "pub fn f(i: &IterMut<String>) { %s }" % c, "pub fn f(i: &mut IterMut<String>) { %s }" % c)
    # -- consumption
    w('into_iter consumes the tree', 'into_iter', 'pub fn f(t: Tree) { let i = t.into_iter(); use_(t.len()); use_(i) }', 'pub fn f(t: Tree) { use_(t.len()); let i = t.into_iter(); use_(i) }')
    # -- comparison functions and visitors cannot keep what they are lent
    leak = 'pub fn f(mut t: Tree, k: String) { let l: Cell<Option<%s>> = Cell::new(None); %s use_(l.take().is_some()) }'
    for n, e in (('get', 't.get(|a, b| { %s a.cmp(b) }, &k);'), ('get_mut', 't.get_mut(|a, b| { %s a.cmp(b) }, &k);'), ('address_of', 't.address_of(|a, b| { %s a.cmp(b) }, &k);'),
                 ('insert', 't.insert(|a, b| { %s a.cmp(b) }, s());'), ('remove', 't.remove(|a, b| { %s a.cmp(b) }, &k);'), ('validate', 't.validate(|a, b| { %s a.cmp(b) });')):
        w('%s: the comparison cannot keep the item' % n, n, leak % ('&String', e % 'l.set(Some(a));'), leak % ('String', e % 'l.set(Some(a.clone()));'))
    w('visit_from_leaves_mut: the visitor cannot keep the node', 'visit_from_leaves_mut', leak % ('&mut Node<String, BoxStorage>', 't.visit_from_leaves_mut(|_, n| l.set(Some(n)));'), leak % ('usize', 't.visit_from_leaves_mut(|_, n| l.set(Some(n.item_count())));'))
    # -- several items of a mutable iteration may be used together; owned results outlive the tree
    w('items of a mutable iteration end with the borrow', 'IterMut', 'pub fn f(mut t: Tree) { let (a, b) = { let mut i = t.iter_mut(); (i.next(), i.next_back()) }; t.clear(); use_((a, b)) }',
      'pub fn f(mut t: Tree) { let (a, b) = { let mut i = t.iter_mut(); (i.next(), i.next_back()) }; use_((a, b)); t.clear() }')
    w('removed items are owned, looked up ones are not', 'remove', 'pub fn f(k: String) -> Option<String> { let mut t = Tree::new(); t.get(cmp, &k).map(|x| *x) }', 'pub fn f(k: String) -> Option<String> { let mut t = Tree::new(); t.remove(cmp, &k) }')
    return W


class Compiler:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vwitness.')
        self.env = {k: v for k, v in os.environ.items() if k not in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN')}
        self.env.update(CARGO_TARGET_DIR=os.path.join(self.dir, 't'), CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'check', '-q', '--lib', '--offline', '--message-format=json', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=self.env, capture_output=True, text=True)
        self.lib = None
        for l in r.stdout.splitlines():
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact' and m['target']['name'].replace('-', '_') == 'raw_btree':
                self.lib = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
        if self.lib is None: raise Missing('the crate does not compile: ' + r.stderr[-300:])
        self.n = 0

    def compile(self, programs):
        """errors of each program: [(code, message)]; all in one crate, one module and one line each"""
        self.n += 1
        f = os.path.join(self.dir, 'w%d.rs' % self.n)
        base = PRELUDE.count('\n')
        with open(f, 'w') as h: h.write(PRELUDE + ''.join('pub mod w%d { use super::*; %s }\n' % (i, p) for i, p in enumerate(programs)))
        r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json', '-o', f + '.rmeta', '--extern', 'raw_btree=' + self.lib, f],
                           env=self.env, capture_output=True, text=True)
        errs = [[] for _ in programs]
        for l in r.stderr.splitlines():
            if not l.startswith('{'): continue
            m = json.loads(l)
            if m.get('level') != 'error' or not m.get('spans'): continue
            code = (m.get('code') or {}).get('code') or ('lifetime' if 'lifetime' in m['message'] or 'borrow' in m['message'] else '?')
            for s in m['spans']:
                if s['is_primary'] and s['file_name'] == f and 0 <= s['line_start'] - base - 1 < len(programs):
                    errs[s['line_start'] - base - 1].append((code, m['message']))
        return errs, r.returncode

    def each(self, programs):
        errs, rc = self.compile(programs)
        # a program without errors in a crate that has errors: the compiler may have stopped early, so ask again without the others
        quiet = [i for i, e in enumerate(errs) if not e]
        while rc != 0 and quiet:
            e2, rc = self.compile([programs[i] for i in quiet])
            for i, e in zip(quiet, e2): errs[i] = e
            n = [i for i in quiet if not errs[i]]
            if rc != 0 and len(n) == len(quiet):
                for i in n: errs[i] = [('?', 'the compiler failed')]
                break
            quiet = n
        return errs


def witness(ck):
    c = Compiler()
    try:
        W = witnesses()
        good = c.each([x[3] for x in W])
        bad = []
        for codes in (TYPE, BORROW):
            idx = [i for i, x in enumerate(W) if x[4] is codes]
            for i, e in zip(idx, c.each([W[i][2] for i in idx])): bad.append((i, e))
        bad = dict(bad)
        for i, (name, anchor, b, g, codes) in enumerate(W):
            why, note = [], ''
            rej = [e for e in good[i] if e[0] in codes or e[0] in BORROW | TYPE]
            if rej: why.append('the lawful program is rejected: %s [%s] in: %s' % (rej[0][1], rej[0][0], g))
            elif good[i]: note = 'the lawful program does not compile for another reason: %s [%s]' % (good[i][0][1], good[i][0][0])
            if not bad[i]: why.append('the unlawful program compiles: ' + b)
            elif not any(e[0] in codes for e in bad[i]) and not note: note = 'the unlawful program is rejected for another reason: %s [%s]' % (bad[i][0][1], bad[i][0][0])
            if note and not (bad[i] == [] and not good[i]): why = []
            ck.add(name, anchor, 'violated' if why else 'undecided' if note else 'proved', 2, 2, why, note, 2)
            ck.obs[-1]['key'] = name
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


# -- rules over the signatures of all exported functions

class Sigs:
    def __init__(self, p):
        self.p = p
        self.adts = {a['path']: a for a in p.d['adts']}
        self.modes = {}
        self.storages = {re.sub(r'<.*', '', i['self_ty']) for i in p.d['impls'] if i.get('trait_path') == 'storage::Storage'}
        for _ in range(4):
            for a in self.adts.values():
                for k, r in enumerate(a['regions']):
                    self.modes[a['path'], k] = any(m and x == r for f in a['fields'] for x, m, _, _ in self.lends(f))

    def params(self, t):
        """type parameters, associated types and types of the crate in a type"""
        r = set()
        if t[0] == 'param': r.add(t[1])
        for x in t[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str) and x[0] in ('ref', 'ptr', 'seq', 'tuple', 'param', 'adt', 'proj', 'prim', 'other'): r |= self.params(x)
                else:
                    for y in x:
                        if isinstance(y, list): r |= self.params(y)
        return r

    def lends(self, t, shared=False):
        """(lifetime, exclusive?, type parameters of what is lent, below a shared reference?)"""
        k = t[0]
        if k == 'ref':
            yield t[1], t[2], self.bearing(t[3]), shared
            yield from self.lends(t[3], shared or not t[2])
        elif k in ('ptr',): yield from self.lends(t[2], shared)
        elif k == 'seq': yield from self.lends(t[1], shared)
        elif k == 'tuple':
            for x in t[1]: yield from self.lends(x, shared)
        elif k in ('adt', 'proj'):
            for i, r in enumerate(t[2]):
                m = self.modes.get((t[1], i), False) if t[1] in self.adts else bool(re.search(r'Mut|Drain|Guard', t[1]))
                yield r, m, self.bearing(t), shared
            for x in t[3]: yield from self.lends(x, shared)

    def bearing(self, t):
        r = self.params(t)
        if t[0] == 'adt' and re.sub(r'.*::', '', t[1]) in {re.sub(r'.*::', '', s) for s in self.storages}: r.add('Self')
        return r


def signatures(ck):
    p = ck.p
    S = Sigs(p)
    n = 0
    for i in sorted(p.items, key=lambda i: (i['path'], i['key'])):
        if not i['exported']: continue
        outs = [x for x in S.lends(i['routput']) if x[2]]
        if not outs: n += 1; continue
        ins = [x for t in i['rinputs'] for x in S.lends(t)]
        why, note = [], ''
        for r, m, what, _ in outs:
            if r == "'static": why.append('the result is borrowed for \'static'); continue
            longer = {r}
            for _ in range(8):
                for q in i.get('preds') or ():
                    for a, b in re.findall(r"OutlivesClause\(('[^,]+), ('[^)]+)\)", q):
                        if b in longer: longer.add(a)
            src = [x for x in ins if x[0] in longer and (x[2] & what or x[2] & {'S', 'Self'})]
            if not src: why.append('the lifetime of what is lent is not that of a borrow of the tree')
            elif m and not any(x[1] and not x[3] for x in src): why.append('exclusive access is lent out of shared access')
        ck.add('signature: ' + i['path'], i['path'], 'violated' if why else 'undecided' if note else 'proved', 1, 1, sorted(set(why)), note, len(outs))
        ck.obs[-1]['key'] = 'signature: ' + re.sub(r'(::)?<[^<>]*>', '', i['path'])
    ck.add('signature: functions that lend nothing', '(all)', 'proved', n, n, [], '', n)
    for i in p.d['impls']:
        tr = re.sub(r'.*::', '', i.get('trait_path') or '')
        if tr not in ('Send', 'Sync') or i.get('polarity', 'Positive') != 'Positive': continue
        ps = set(re.findall(r'\b[A-Z][A-Za-z0-9]?\b', re.sub(r'[\w:]*::\w+', '', i['self_ty'])))
        free = sorted(x for x in ps if not any(re.search(r'\b%s(/#\d+)?\b' % x, q) and re.search(r'\b(Send|Sync)\b', q) for q in i['preds']))
        why = ['%s is %s whatever %s is' % (i['self_ty'], tr, x) for x in free]
        ck.add('impl %s for %s' % (tr, i['self_ty']), i['self_ty'], 'violated' if why else 'proved', 1, 1, why, '', 1)
        ck.obs[-1]['key'] = 'impl %s for %s' % (tr, i['self_ty'])
