"""The DOT export: the text that is written is kept as a sequence of pieces (literal text, rendered items, rendered node
identifiers), for an arbitrary node of an arbitrary tree, and parsed as DOT statements at the exit.

Every write to the sink may fail.  The recursion is cut at the children by its contract: it writes the statements of the
whole subtree, or an error stops it; the contract is proved by induction on the height (below a root with one item, one
child is interpreted as well, so that nodes with a parent are covered).  Items are assumed to render to text that needs no escaping.
"""
import ast, re
from absint.harness import *
from .tree import TH, judge_outs, final, stats, ROOT
from .sweep import VH

ERR = ('O', 'err')
OK = ('A', 0, (UNIT,))


def txt(*ps): return ('O', ('txt', tuple(ps)))


class DH(VH):
    def __init__(self, ck):
        VH.__init__(self, ck, 'visit', False)
        I = self.I
        I.loop_hook = None
        H = I.handlers
        for n in ('write_fmt', 'write_all'): H['std::io::Write::' + n] = self.write
        H['std::io::Write::flush'] = lambda I, cx: self.attempt(cx.st) or OK
        H['std::convert::Into::into'] = self.into
        S = I.summaries
        S["std::fmt::Arguments::<'a>::from_str"] = lambda I, cx: txt(*self.pieces(cx.st, cx.args[0]))
        S["std::fmt::Arguments::<'a>::new"] = self.arguments
        S["core::fmt::rt::Argument::<'_>::new_display"] = lambda I, cx: ('O', ('arg', self.pieces(cx.st, cx.args[0])))
        S["core::fmt::rt::Argument::<'_>::new_debug"] = self.debug
        for n in ('std::fmt::format', 'std::hint::must_use', 'std::string::ToString::to_string', 'std::string::String::as_str', 'std::string::String::as_bytes',
                  'core::str::<impl str>::as_bytes', '<std::string::String as std::ops::Deref>::deref', 'std::borrow::ToOwned::to_owned', 'std::string::String::into_bytes',
                  '<std::string::String as std::clone::Clone>::clone', '<T as std::string::ToString>::to_string', '<std::string::String as std::convert::From<&str>>::from',
                  'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'std::string::String::as_ref', '<std::vec::Vec<T> as std::ops::Deref>::deref'):
            S[n] = self.same
        S['std::string::String::new'] = lambda I, cx: txt()
        S['std::string::String::with_capacity'] = lambda I, cx: txt()
        for n in ('std::string::String::push_str', 'std::string::String::push', '<std::string::String as std::fmt::Write>::write_str', '<std::string::String as std::fmt::Write>::write_fmt', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str'):
            S[n] = self.append
        S['<std::string::String as std::ops::Add<&str>>::add'] = lambda I, cx: txt(*(self.pieces(cx.st, cx.args[0]) + self.pieces(cx.st, cx.args[1])))

    # -- text
    def pieces(self, st, v):
        for _ in range(8):
            if type(v) is int: return (str(v),)
            if type(v) is tuple and v[0] == 'T': return (v,)
            if type(v) is tuple and v[0] == 'O' and type(v[1]) is tuple and v[1][0] == 'txt': return v[1][1]
            if type(v) is tuple and v[0] == 'R':
                if v[1][0] == 'K' and type(v[1][1]) is tuple and v[1][1][0] == 'B': return (ast.literal_eval(v[1][1][1]).decode(),)
                if v[1][0] == 'K' and type(v[1][1]) is tuple and v[1][1][0] == 'S':
                    s = v[1][1][1]
                    if v[3] is not None: s = s.encode()[v[3][0]:v[3][1]].decode()
                    return (s,)
                v = self.load(st, v)
                continue
            if type(v) is tuple and v[0] == 'L':
                n = norm(st, v)
                if type(n) is int: return (str(n),)
            break
        raise Stuck('text of %r' % (v if type(v) is not tuple else v[0],))

    def same(self, I, cx):
        v = txt(*self.pieces(cx.st, cx.args[0]))
        if cx.f['name'] not in ('deref', 'as_str', 'as_bytes', 'as_ref'): return v
        a = ('tmp', cx.st.fresh('s'))
        cx.st.mem[a] = v
        return ('R', a, (), None)

    def load(self, st, r):
        v = st.get(r[1], r[2])
        if v == U: raise Bad('a moved value is written', 'order')
        return v

    def debug(self, I, cx):
        ty = cx.f.get('args') or cx.f.get('rargs')
        ps = self.pieces(cx.st, cx.args[0])
        names = [self.p.types[t]['s'] for t in ty if type(t) is int]
        if any('usize' in n for n in names): return ('O', ('arg', ps))
        raise Stuck('debug formatting of ' + ', '.join(names))

    def arguments(self, I, cx):
        t = cx.args[0]
        if type(t) is not tuple or t[0] != 'R' or t[1][0] != 'K' or type(t[1][1]) is not tuple or t[1][1][0] != 'B': raise Stuck('format template')
        b = ast.literal_eval(t[1][1][1])
        a = cx.args[1]
        while type(a) is tuple and a[0] == 'R': a = cx.st.get(a[1], a[2])
        if a[0] != 'V': raise Stuck('format arguments')
        args = [x[1][1] for x in a[1]]
        out = []; i = 0; k = 0
        while True:
            n = b[i]; i += 1
            if n == 0: break
            if n < 0x80: out.append(b[i:i + n].decode()); i += n
            elif n == 0x80:
                l = b[i] | b[i + 1] << 8; i += 2
                out.append(b[i:i + l].decode()); i += l
            elif n == 0xC0: out += args[k]; k += 1
            elif n & 0xC0 == 0xC0 and not n & 0x37:
                if n & 8: k = b[i] | b[i + 1] << 8; i += 2
                out += args[k]; k += 1
            else: raise Stuck('format options')
        return txt(*out)

    def append(self, I, cx):
        st = cx.st
        r = cx.args[0]
        while True:
            v = st.get(r[1], r[2])
            if type(v) is tuple and v[0] == 'R': r = v
            else: break
        if cx.f['name'] == 'push':
            c = norm(st, cx.args[1])
            if type(c) is not int: raise Stuck('push of a character')
            new = (chr(c),)
        else: new = self.pieces(st, cx.args[1])
        st.set(r[1], r[2], txt(*(self.pieces(st, v) + new)))
        return UNIT if cx.f['name'].startswith('push') else OK

    def into(self, I, cx):
        v = cx.args[0]
        if type(v) is tuple and v[0] == 'N': return txt(('id', v[1]))
        raise Stuck('conversion of %r' % (v,))

    # -- the sink
    def attempt(self, st):
        """None, or the error that the sink reports"""
        if st.gh.get('err'): raise Bad('the export goes on after an error of the sink', 'order')
        c = st.gh.pop('choice', None)
        if c is None: raise Fork([lambda s: s.gh.__setitem__('choice', 'ok'), lambda s: s.gh.__setitem__('choice', 'err')])
        if c == 'ok': return None
        st.gh['err'] = 'yes'
        return ('A', 1, (ERR,))

    def write(self, I, cx):
        st = cx.st
        r = cx.args[0]
        while type(r) is tuple and r[0] == 'R': r = st.get(r[1], r[2])
        if r != ('O', 'sink'): raise Stuck('another sink')
        ps = self.pieces(st, cx.args[1])
        e = self.attempt(st)
        if e is not None: return e
        st.gh['out'] = st.gh['out'] + ps
        return OK

    def hook(self, I, cx):
        key = cx.f.get('key')
        st = cx.st
        if key not in self.reckeys() or not any(f.kind == 'fn' and f.fn.key == key for f in st.fr): return False
        ns = set(); sink = False
        for a in cx.args:
            if type(a) is tuple and a[0] == 'N': ns.add(a[1])
            elif type(a) is tuple and a[0] == 'R':
                if a[1][0] == 'node' and not a[2]: ns.add(a[1][1])
                while type(a) is tuple and a[0] == 'R' and a[1][0] != 'node' and a[1] != ('h', 'B'): a = st.get(a[1], a[2])
                if a == ('O', 'sink'): sink = True
        if len(ns) != 1 or not sink: return False      # entered; the cycle is cut elsewhere
        c = ns.pop()
        if not any(c in ks for ks in st.gh['kids'].values()): raise Bad('the recursion does not go down to a child', 'order')
        rt = self.p.types[self.p.fn(key).locals[0]]
        if rt.get('path') != 'std::result::Result': return False
        if self.zoom(st, c): return False
        e = self.attempt(st)
        if e is None:
            st.gh['out'] = st.gh['out'] + (('sub', c),)
            e = OK
        cx.finish(e)
        return True


TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|->|--|[A-Za-z0-9_.\u0080-\uffff]+|[\[\]{}=;:,]', re.S)


class NotDot(Exception): pass


def parse(pieces):
    """the statements of the text; pieces that are not literal text become private characters"""
    sym = {}; back = []; s = ''
    for p in pieces:
        if type(p) is str: s += p; continue
        if p not in sym:
            sym[p] = chr(0xE000 + len(back)); back.append(p)
        s += (' \x00' + sym[p] + '\x00 ') if p[0] == 'sub' else sym[p]
    toks = []; i = 0
    while i < len(s):
        if s[i] == '\x00':
            toks.append(('sub', back[ord(s[i + 1]) - 0xE000][1])); i += 3; continue
        m = TOK.match(s, i)
        if not m: raise NotDot('%r' % s[i:i + 12])
        t = m.group(0); i = m.end()
        if t[0].isspace() or t[:2] in ('//', '/*'): continue
        if '\x00' in t: raise NotDot('a node inside a string')
        toks.append(('str', t[1:-1]) if t[0] == '"' else ('id', t) if t not in ('->', '--') and (t[0].isalnum() or t[0] in '_.' or ord(t[0]) > 127) else (t, t))
    return toks, back, s


def statements(toks):
    out = []; i = 0

    def peek(k=0): return toks[i + k] if i + k < len(toks) else ('end', '')
    while i < len(toks):
        t = toks[i]
        if t[0] == ';': i += 1; continue
        if t[0] == 'sub': out.append(('sub', t[1])); i += 1; continue
        if t[0] not in ('id', 'str'): raise NotDot(t[1])
        if t[1] in ('subgraph',): raise Undecided('subgraph')
        names = [t[1]]; i += 1

        def port():
            nonlocal i
            while peek()[0] == ':':
                if peek(1)[0] not in ('id', 'str'): raise NotDot(':')
                i += 2
        port()
        if peek()[0] == '=' and peek(1)[0] in ('id', 'str'):
            out.append(('set', names[0])); i += 2; continue
        while peek()[0] in ('->', '--'):
            if peek(1)[0] == '{': raise Undecided('edges to a group')
            if peek()[0] == '--' or peek(1)[0] not in ('id', 'str'): raise NotDot('edge')
            names.append(peek(1)[1]); i += 2
            port()
        attrs = {}
        while peek()[0] == '[':
            i += 1
            while peek()[0] != ']':
                if peek()[0] in (',', ';'): i += 1; continue
                if peek()[0] not in ('id', 'str') or peek(1)[0] != '=' or peek(2)[0] not in ('id', 'str'): raise NotDot('attribute list')
                attrs[peek()[1]] = peek(2)[1]; i += 3
            i += 1
        if len(names) == 1: out.append(('node', names[0], attrs))
        else: out += [('edge', a, b) for a, b in zip(names, names[1:])]
    return out


def judge(h, st, root):
    """problems of the text written for a whole tree"""
    pieces = st.gh['out']
    try: toks, back, s = parse(pieces)
    except NotDot as e: return [('dot', 'the text is not in the DOT language: ' + str(e))]
    P = []
    i = 0
    if i < len(toks) and toks[i] == ('id', 'strict'): i += 1
    if i >= len(toks) or toks[i] not in (('id', 'digraph'), ('id', 'graph')): return [('dot', 'there is no header')]
    if toks[i][1] == 'graph': P.append(('dot', 'the graph is not directed'))
    i += 1
    if i < len(toks) and toks[i][0] in ('id', 'str'): i += 1
    if i >= len(toks) or toks[i][0] != '{': return [('dot', 'there is no header')]
    if toks[-1][0] != '}' : return [('dot', 'there is no footer')]
    # nothing may be glued to the text of a subtree
    for a, b in zip(pieces, pieces[1:]):
        if type(b) is tuple and b[0] == 'sub' and type(a) is str and (a[-1:].isalnum() or a[-1:] == '_') and not s.lstrip().startswith('digraph'): raise Undecided('text in front of a subtree')
    try: sts = statements(toks[i + 1:-1])
    except NotDot as e: return [('dot', 'the text is not in the DOT language: ' + str(e))]

    def names(text): return [back[ord(c) - 0xE000] for c in text if 0xE000 <= ord(c) < 0xE000 + len(back)]
    nodes = {}; pats = set()
    for x in sts:
        if x[0] != 'node' or x[1] in ('node', 'edge', 'graph'): continue
        ids = [b[1] for b in names(x[1]) if b[0] == 'id']
        if len(ids) != 1: P.append(('dot', 'a node statement is not named after one node')); continue
        n = ids[0]
        if n in nodes: P.append(('dot', 'a node is written twice')); continue
        nodes[n] = x
        pats.add(''.join('#' if 0xE000 <= ord(c) < 0xE000 + len(back) else c for c in x[1]))
    if root is None:
        if nodes or any(x[0] in ('edge', 'sub') for x in sts): P.append(('dot', 'something is written for the empty tree'))
        return P
    if len(pats) > 1: P.append(('dot', 'nodes are named in different ways'))
    st.gh['pats'] = pats
    want = {}; subs = []; edges = []

    def walk(n):
        if n not in st.gh['kids']:
            subs.append(n); return
        want[n] = h.items(st, st.mem[('node', n)])
        for c in st.gh['kids'][n]:
            edges.append((n, c)); walk(c)
    h.t.force(st, root)
    walk(root)
    for n in want:
        if n not in nodes: P.append(('dot', 'a node is not written')); continue
        lab = nodes[n][2].get('label')
        if lab is None: P.append(('dot', 'a node has no label')); continue
        got = [b for b in names(lab) if b[0] == 'T']
        if got != list(want[n]): P.append(('dot', 'the label of a node contains the items %s where %s are expected' % ([g[1] for g in got], [w[1] for w in want[n]])))
    for n in nodes:
        if n not in want: P.append(('dot', 'a node of a subtree is written twice'))
    got = sorted(x[1] for x in sts if x[0] == 'sub')
    if got != sorted(subs): P.append(('dot', 'the subtrees written are %s where %s are expected' % (got, sorted(subs))))
    ge = []
    for x in sts:
        if x[0] != 'edge': continue
        e = []
        for y in x[1:]:
            ids = [b[1] for b in names(y) if b[0] == 'id']
            pat = ''.join('#' if 0xE000 <= ord(c) < 0xE000 + len(back) else c for c in y)
            if len(ids) != 1 or pat not in pats: P.append(('dot', 'an edge leads to something that is not a node')); break
            e.append(ids[0])
        else: ge.append(tuple(e))
    if sorted(ge) != sorted(edges): P.append(('dot', 'the edges are %s where %s are expected' % (sorted(ge), sorted(edges))))
    for x in sts:
        if x[0] == 'node' and x[1] not in ('node', 'edge', 'graph') and not names(x[1]): P.append(('dot', 'a statement for something that is not a node'))
    return P


def export(ck):
    allpats = set()

    def g(j, empties, fail):
        for empty in empties:
            h = DH(ck)
            st = h.setup(h.state())
            st.gh['out'] = ()
            if empty: h.t.init(st, [], None)
            else: h.t.state_root(st)
            B = h.with_tree(st, None if empty else ROOT)
            st.mem[('h', 'sink')] = ('O', 'sink')
            before = st.mem[('h', 'B')]
            j.starts += 1
            outs = h.I.call_all([st], ck.method('RawBTree', 'dot_write'), [B, ('R', ('h', 'sink'), (), None)])
            if fail: outs = [o for o in outs if o.st.gh.get('err') or o.kind in ('bad', 'stuck')]
            else: outs = [o for o in outs if not o.st.gh.get('err')]

            def check(s, v, empty=empty):
                f, cur, P = final(h, s, None if empty else ROOT)
                P = [('tree', 'the tree: ' + p[1]) if p[0] != '?' else p for p in P if p[0] in ('seq', 'link', '?')]
                if s.mem[('h', 'B')] != before or s.gh['rel']: P.append(('tree', 'the tree is modified'))
                if type(v) is not tuple or v[0] != 'A': raise Stuck('the result')
                if s.gh.get('err'):
                    if v[1] != 1: P.append(('err', 'an error of the sink is not reported'))
                    elif v[2] != (ERR,): raise Stuck('another error')
                    return P
                if v[1] != 0: P.append(('err', 'an error is reported although the sink accepts everything'))
                P += judge(h, s, None if empty else ROOT)
                allpats.update(s.gh.get('pats', ()))
                if len(allpats) > 1: P.append(('dot', 'nodes are named in different ways'))
                return P
            judge_outs(h, j, outs, check, ('dot', 'err', 'tree'), 'dot_write')
            stats(h, j, 'dot_write')
    for what, es, fail in (('the empty tree', (True,), False), ('any tree', (False,), False), ('the empty tree, to a sink that fails', (True,), True), ('any tree, to a sink that fails', (False,), True)):
        ck.run('RawBTree::dot_write of ' + what, 'RawBTree::dot_write', lambda j: g(j, es, fail))
