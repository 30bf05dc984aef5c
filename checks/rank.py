"""Every loop over nodes moves strictly along the levels of the tree.

The loop heads that the interpretation reaches, identified up to renaming, are the nodes of a graph; a path of the
interpretation from one loop head to the next is an edge.  A loop that can go round any number of times is a cycle of this
graph.  A cycle on which nodes are accessed needs a ranking: a place in memory that holds a node identifier whose level
never moves in one direction and strictly moves in the other; without the edges that move strictly no cycle may be left.
Such a loop accesses at most a constant number of nodes per level.
"""
from absint.harness import *
from absint.core import norm
from absint.tree import INF


ROUNDS = 60


class Ranker:
    def __init__(self, t):
        self.t = t
        t.ranker = self
        H = t.I.handlers
        for n in ('storage::Storage::get', 'storage::Storage::get_mut'):
            def g(I, cx, old=H[n]):
                cx.st.gh['acc'] = True
                return old(I, cx)
            H[n] = g
        self.edges = {}          # (source key, target key, {place: relation of the levels}, nodes were accessed)
        self.where = {}

    def level(self, st, n):
        r = self.t.rec(st, n)
        if r is None or r.level is None: return None
        return norm(st, r.level)

    def places(self, st):
        """the identifiers in memory outside of the nodes: {place: (name, level)}"""
        pos = {f.uid: i for i, f in enumerate(st.fr)}
        r = {}

        def walk(v, k, path):
            if type(v) is not tuple: return
            if v[0] == 'N': r[(k, path)] = (v[1], self.level(st, v[1]))
            elif v[0] == 'A':
                for i, e in enumerate(v[2]): walk(e, k, path + (i,))
            elif v[0] == 'R' and v[1][0] == 'node': r[(k, path)] = (v[1][1], self.level(st, v[1][1]))
        for k, v in st.mem.items():
            if k[0] in ('node', 'tmp'): continue
            if type(k[0]) is int:
                if k[0] not in pos: continue
                i = pos[k[0]]
                k = (i, st.fr[i].fn.key, k[1])
            walk(v, k, ())
        return r

    def compare(self, st, n, a, m, b):
        """how the level b lies relative to a"""
        if n == m: return 'eq'
        sub = st.gh.get('lsub') or {}
        while type(a) is tuple and a[1] in sub: a = ('L', sub[a[1]][1], sub[a[1]][2] + a[2])
        a, b = (norm(st, x) if type(x) is tuple and x[1] in st.dom else x for x in (a, b))
        if a is None or b is None: return None
        ca, cb = (x if type(x) is int else x[2] for x in (a, b))
        va, vb = (None if type(x) is int else x[1] for x in (a, b))
        if va == vb: return 'lt' if cb < ca else 'gt' if cb > ca else 'eq'
        if va is None:
            lo, hi = bounds(st, vb)
            if lo + cb > ca: return 'gt'
            if hi + cb < ca: return 'lt'
        elif vb is None:
            lo, hi = bounds(st, va)
            if lo + ca > cb: return 'lt'
            if hi + ca < cb: return 'gt'
        return None

    def arrive(self, st):
        old = st.gh.get('rank')
        if old is None: return None
        now = self.places(st)
        fr = st.fr[-1]
        k = (fr.uid, fr.bb)
        hist = dict(st.gh.get('rounds') or {})
        o = hist.get(k)
        acc = (o[2] if o else False) or bool(st.gh.get('acc'))
        rels = dict(o[1]) if o else {}
        if o:
            for p, (n, l) in o[0].items():
                rels[p] = (rels.get(p, frozenset()) | {self.compare(st, n, l, *now[p])}) if p in now else frozenset(('gone',))
        hist[k] = (now, rels, acc)
        st.gh['rounds'] = hist
        if fr.visits.get(fr.bb, 0) >= ROUNDS and acc:
            # far more rounds than a node has places: the states do not repeat because something else (a counter) changes
            ds = [r for r in rels.values() if 'gone' not in r]
            if any({'lt', 'gt'} <= r for r in ds) and all({'lt', 'gt'} <= r or not r & {'lt', 'gt'} for r in ds):
                raise Bad('a loop goes round %d times, accessing nodes, without moving along the levels of the tree' % ROUNDS, 'rank')
        return {p: self.compare(st, n, l, *now[p]) for p, (n, l) in old[1].items() if p in now}

    def edge(self, st, key, rel, fr):
        self.where.setdefault(key, fr.fn.path)
        old = st.gh.get('rank')
        if old is not None:
            acc = bool(st.gh.get('acc'))
            self.edges[(old[0], key, tuple(sorted(rel.items(), key=repr)), acc)] = (old[0], key, rel, acc)
        st.gh['rank'] = (key, self.places(st))
        st.gh['acc'] = False

    def judge(self, j, label):
        for comp in sccs([(a, b) for a, b, _, _ in self.edges.values()]):
            es = [e for e in self.edges.values() if e[0] in comp and e[1] in comp]
            if not any(e[3] for e in es): continue
            j.loops = getattr(j, 'loops', 0) + 1
            places = set.intersection(*[set(e[2]) for e in es])
            unknown = False; found = False
            for p in places:
                for up, down in (('gt', 'lt'), ('lt', 'gt')):
                    if any(e[2][p] == down for e in es): continue
                    rest = [(e[0], e[1]) for e in es if e[2][p] != up]
                    if any(e[2][p] is None for e in es): unknown = True; continue
                    if not sccs(rest): found = True
            if found: continue
            w = ', '.join(sorted(set(self.where[k] for k in comp)))
            if unknown: j.undecided.append('%s: the progress of the loop of %s is not known' % (label, w))
            else: j.problems.append('%s: the loop of %s accesses nodes without moving along the levels of the tree: the number of accessed nodes is not bounded by the height' % (label, w))


def bounds(st, v):
    d = st.dom.get(v)
    if d is None: return (-INF, INF)
    if type(d) is frozenset: return (min(d), max(d))
    return d


def sccs(edges):
    """the strongly connected components that contain a cycle"""
    g = {}
    for a, b in edges: g.setdefault(a, set()).add(b); g.setdefault(b, set())
    index = {}; low = {}; on = set(); stack = []; out = []; n = 0
    for root in g:
        if root in index: continue
        index[root] = low[root] = n; n += 1
        stack.append(root); on.add(root)
        work = [(root, iter(g[root]))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n; n += 1
                    stack.append(w); on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on: low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = set()
                    while True:
                        w = stack.pop(); on.discard(w); c.add(w)
                        if w == v: break
                    if len(c) > 1 or v in g[v]: out.append(c)
    return out
