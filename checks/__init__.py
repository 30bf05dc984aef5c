"""The properties that are claimed: which obligations decide each of them."""

AI = 'abstract interpretation of the compiler\'s MIR'

PROPS = {}


def prop(id, **kw): PROPS[id] = kw


prop('C01', level='proof', floor=20, technique=AI + ' (ownership domain over opaque elements)',
     tasks=lambda tier: [('arrays', f, (c,)) for c in ((3, 2, 8, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9)) for f in ('basic', 'panics')]
     + [('nodes', 'owned', (f,)) for f in ('edits', 'builders', 'search')],
     explanation='Every operation of the fixed-capacity buffer is abstractly interpreted from every length, index and range at the '
     'capacities the nodes use (and small ones); elements are opaque tokens whose ownership (slot, caller, dropped) is tracked exactly. The '
     'node operations on top of the buffers are interpreted in the same way: every item stays in the node, is returned, or is dropped, once.')

prop('C02', level='proof', floor=35, technique=AI + ' (sequence domain over opaque items and links)',
     tasks=[('nodes', f, ()) for f in ('accessors', 'children', 'edits', 'builders', 'search')],
     explanation='Every operation of leaf nodes, internal nodes and the node enum is abstractly interpreted from every occupancy and '
     'every offset; the resulting item/link sequence, parent link, returned offset and balance are compared with an oracle sequence.')

prop('C09', level='proof', floor=8, technique=AI + ' (order domain)',
     tasks=lambda tier: [('nodes', 'search', ()), ('nodes', 'search_any', (False,))]
     + [('maps', 'by_key', (('map', 'seq', 'link', 'len'), o, False, None, l)) for l in (0, 1) for o in ('address_of', 'get', 'get_mut')]
     + [('maps', 'by_key', (('map', 'seq', 'link', 'len'), o, e)) for o in ('address_of', 'get', 'get_mut') for e in (False, True)]
     + [('maps', 'any_cmp', (('map', 'seq', 'link', 'len', 'own'), o, e)) for o in ('address_of', 'get', 'get_mut') for e in (False, True)]
     + [('maps', 'any_cmp', (('map', 'seq', 'link', 'len', 'own'), 'address_of', False, False, 1 if tier == 'quick' else 2))],
     explanation='The search functions of leaf and internal nodes, and lookup by key on an arbitrary tree, are abstractly interpreted with a '
     'comparison that is consistent with the order and with a comparison that answers anything.  What the answers imply about the key is '
     'kept as two marks in the in-order sequence; the reported item or insertion point has to follow from them.')

prop('C10', level='proof', floor=6, technique=AI + ' (ownership domain, unwinding edges)',
     tasks=[('arrays', 'panics', (c,)) for c in (3, 8, 9)] + [('nodes', 'search_any', (True,)), ('nodes', 'clone_panics', ()), ('nodes', 'drop_panics', ())]
     + [('sweep', 'release', (o, True)) for o in ('clear', 'drop', 'IntoIter')] + [('clones', 'clone', (True,))]
     + [('maps', 'any_cmp', (('map', 'seq', 'link', 'len', 'occ', 'own'), o, e, True)) for o in ('get', 'address_of') for e in (False,)]
     + [('maps', 'any_cmp', (('map', 'seq', 'link', 'len', 'occ', 'own'), o, False, True, 1)) for o in ('get', 'address_of', 'remove', 'insert')]
     + [('maps', 'any_cmp', (('map', 'seq', 'link', 'len', 'occ', 'own'), o, False, True, None, (i, n))) for o, n in (('remove', 8), ('insert', 4)) for i in range(n)],
     explanation='Every call of user code (destructor, clone, comparison) is given an unwinding outcome as well; ownership of every '
     'element is tracked along the unwinding paths.')

prop('C16', level='proof', floor=5, technique=AI + ' (symbolic offsets)', tasks=[('values', 'offsets', ())],
     explanation='Constructors, comparisons and steps of the offset type are abstractly interpreted over symbolic positions.')

prop('C17', level='proof', floor=4, technique=AI + ' (opaque keys and values)', tasks=[('values', 'items', ())],
     explanation='All trait implementations of the key-value item are abstractly interpreted over opaque keys and values; the calls '
     'they make on key and value and what they return are compared with the specification.')

def edits(classes, tier, bits=('insert', 'remove')):
    t = []
    # trees of fixed small heights, without folding: redundant on code for which the fixpoint is found, but decides where it is not
    top = 2 if tier == 'quick' else 4
    if 'remove' in bits:
        t += [('tree', 'remove', (classes, l, o, k)) for l in (0, 1) for k in range(l, 2) for o in range(8 - l)]
        t += [('tree', 'remove', (classes, l, o, k)) for k in range(2, top + 1) for l in range(k + 1) for o in (0, 2)]
    if 'insert' in bits:
        t += [('tree', 'insert', (classes, 0, True, o, k)) for k in (0, 1) for o in range(9)]
        t += [('tree', 'insert', (classes, 1, False, o, 1)) for o in range(8)]
        t += [('tree', 'insert', (classes, 0, True, o, k)) for k in range(2, top + 1) for o in (0, 8)]
    if 'remove' in bits:
        t += [('tree', 'remove', (classes, 1, o)) for o in (2, 0, 1)] + [('tree', 'remove', (classes, 0, o)) for o in (0, 1, 2)]
        t += [('tree', 'remove', (classes, l, o)) for l in (1, 0) for o in range(3, 8 - l)]
    if 'insert' in bits:
        t += [('tree', 'insert', (classes, 0, True, o)) for o in (8, 4, 5, 3, 6, 2, 7, 1, 0)]
        t += [('tree', 'insert', (classes, 1, False, o)) for o in range(0, 8)] + [('tree', 'insert', (classes, 0, False, o)) for o in ((8, 0, 4) if tier == 'quick' else range(9))] + [('tree', 'insert', (classes, 0, b, None)) for b in (True, False)]
    return t


def keyed(classes):
    return ([('maps', 'by_key', (classes, o, False, None, l)) for l in (1, 0) for o in ('insert', 'remove', 'get', 'get_mut')]
            + [('maps', 'by_key', (classes, 'remove', False, (i, 8))) for i in range(8)] + [('maps', 'by_key', (classes, 'insert', False, (i, 4))) for i in range(4)]
            + [('maps', 'by_key', (classes, o, True)) for o in ('insert', 'remove', 'get', 'get_mut')] + [('maps', 'by_key', (classes, o, False)) for o in ('get', 'get_mut')])


SHAPE = AI + ' (shape domain over trees of any height, with folding to a fixpoint)'

prop('C03', level='proof', floor=12, technique=SHAPE, tasks=lambda tier: edits(('seq', 'link'), tier) + keyed(('link',)),
     explanation='Insertion and removal at an arbitrary address of an arbitrary well-formed tree are abstractly interpreted: nodes are '
     'materialised on demand, partitioned on occupancy, and folded back at the loop heads, so that the analysis covers trees of any '
     'height. The in-order sequence, the parent and child links and the depth of the leaves of every exit state are compared with the '
     'specification.')

prop('C04', level='proof', floor=12, technique=SHAPE, tasks=lambda tier: edits(('occ',), tier) + keyed(('occ',)),
     explanation='The same interpretation; the occupancy of every node of every exit state is compared with the bounds, and no reachable '
     'assertion, unwrap, index or capacity panic may be left.')

prop('C05', level='proof', floor=12, technique=SHAPE, tasks=lambda tier: edits(('addr',), tier),
     explanation='The same interpretation; the address that insertion and removal return is located in the in-order sequence of the '
     'exit state.')

prop('C06', level='proof', floor=20, technique=SHAPE,
     tasks=lambda tier: edits(('len',), tier) + keyed(('len',)) + [('maps', 'replace', (('len',), l)) for l in (0, 1)]
     + [('maps', 'nowhere', (('len',), l)) for l in (0, 1)] + [('maps', 'empties', (('len',),)), ('clones', 'clone', (False, ('len',)))]
     + [('sweep', 'release', (o, False, ('len',))) for o in ('clear', 'forget')],
     explanation='Every operation of the tree is abstractly interpreted on an arbitrary tree whose length field is a symbol; the field of '
     'every exit state is compared with the number of items that were added or removed on the way.')

KINDS = ('Iter', 'IterMut', 'IntoIter')

prop('C07', level='proof', floor=8, technique=SHAPE,
     tasks=[('iters', 'step', (k, b, l)) for k in KINDS for b in (False, True) for l in (0, 1)] + [('iters', 'exhausted', (k, l)) for k in KINDS for l in (0, 1)]
     + [('iters', f, (k,)) for k in KINDS for f in ('construct', 'hints', 'overrides')] + [('iters', 'copies', ())],
     explanation='An inductive invariant of the iterator states: construction establishes it, and one step from either end of any state '
     'that satisfies it, on an arbitrary tree, returns the adjacent item, keeps the other end and satisfies it again.  This covers every '
     'interleaving of steps.')

prop('C19', level='proof', floor=8, technique=SHAPE,
     tasks=lambda tier: keyed(('map', 'seq')) + [('maps', 'replace', (('map', 'seq', 'own'), l)) for l in (0, 1)]
     + [('maps', 'nowhere', (('map', 'seq'), l)) for l in (0, 1)],
     explanation='Insertion, removal and lookup by key on an arbitrary tree with a comparison consistent with the order.  What the answers '
     'of the comparison imply about the key is kept as two marks in the in-order sequence; the change of the sequence and the returned '
     'item have to be the ones of a sorted map for every key that gives these answers.')

prop('C20', level='proof', floor=3, technique=SHAPE,
     tasks=[('maps', 'ends', (('ends', 'seq'), n, e)) for n in ('first', 'first_mut', 'last', 'last_mut', 'first_item_address') for e in (False, True)]
     + [('maps', 'ends', (('ends', 'seq'), n, False, l)) for n in ('first', 'first_mut', 'last', 'last_mut', 'first_item_address') for l in (0, 1, 2)],
     explanation='The accessors of the extreme items are abstractly interpreted on the empty tree and on an arbitrary tree; the place of '
     'the result in the in-order sequence is compared with the ends of the sequence.')

prop('C11', level='proof', floor=4, technique=SHAPE + ' with recursion contracts',
     tasks=[('sweep', 'release', (o,)) for o in ('clear', 'drop', 'IntoIter', 'forget')]
     + [('sweep', 'visit', ('RawBTree', n)) for n in ('visit_from_leaves', 'visit_from_leaves_mut')]
     + [('sweep', 'visit', ('Node', n)) for n in ('visit_from_leaves', 'visit_from_leaves_with', 'visit_from_leaves_mut', 'visit_from_leaves_mut_with')],
     explanation='The operations that release a whole tree are abstractly interpreted on an arbitrary tree, with a storage that offers a '
     'dropper and one that does not. Recursive visits are cut at the children by their contract, which is proved by induction on the '
     'height. Every node has to be acted on once and after the nodes below it, every item dropped or forgotten once.')

prop('C12', level='proof', floor=1, technique=SHAPE + ' with a recursion contract',
     tasks=[('clones', 'clone', ())],
     explanation='Cloning is abstractly interpreted on an arbitrary tree with two storages; the recursion is cut at the children by its '
     'contract, which is proved by induction on the height.  Every node of the result has to be allocated in the new storage, the shape, '
     'links, items and length have to be those of the original, and the original has to be untouched.')

prop('C13', level='proof', floor=16, technique=SHAPE + ' (release and liveness of nodes)',
     tasks=lambda tier: edits(('leak', 'link'), tier) + keyed(('leak', 'link')) + [('boxes', 'boxes', ()), ('boxes', 'overrides', ())] + [('clones', 'clone', ())]
     + [('sweep', 'release', (o,)) for o in ('clear', 'drop', 'IntoIter', 'forget')] + [('maps', 'empties', (('leak', 'link'),))],
     explanation='The interpretation of the operations keeps the set of released identifiers: an access or a release through one of them '
     'is a violation, and so is a node of an exit state that is neither linked in the tree nor released. The functions of the box-backed '
     'storage are interpreted over a model of the heap.')

prop('C21', level='proof', floor=1, technique=AI + ' (order domain, recursion contract)', tasks=[('valid', 'validator', ())],
     explanation='The validator is abstractly interpreted on an arbitrary node of every kind and occupancy, as the root and as a child, '
     'with a right and a wrong parent link, a comparison that answers anything consistent with a total order, and children that are '
     'valid, invalid or of different depths; acceptance and rejection are judged at every exit, by induction on the height.')

prop('C18', level='proof', floor=1, technique=SHAPE + ' (text domain, failing sink, recursion contract)', features=('dot',), tasks=[('dots', 'export', ())],
     explanation='The export is abstractly interpreted on an arbitrary tree; every write to the sink may succeed or fail. The text is kept as '
     'literal pieces, rendered items and rendered identifiers and parsed as DOT statements at the exit: one labelled node statement per node '
     'with its items in order, one edge per link. After a failed write nothing else may be written and the error has to be returned.')

prop('C15', level='proof', floor=100, technique='interprocedural taint analysis over the compiler\'s MIR, and a rule over exported signatures', features=('dot',),
     tasks=[('trust', 'trust', ())],
     explanation='For every exported safe function, the identifiers it receives from its caller (arguments outside of a tree, results of '
     'functions the caller supplies) are followed through all functions it calls; they must not reach a node access, a dereference of a '
     'node pointer, or a tree. Signatures must not lend nodes of a tree mutably to safe code.')

prop('C14', level='proof', floor=380, technique='compile-fail witnesses with lawful twins, and rules over exported signatures and auto-trait impls',
     tasks=[('witness', 'witness', ()), ('witness', 'signatures', ())],
     explanation='The crate is type-checked as a dependency of unlawful programs and of their lawful twins (most of them generic in the item '
     'type); the type and borrow checkers have to reject the former for the expected reason and accept the latter. For every exported '
     'function, every lifetime of the result has to be that of a borrow of what owns the items, exclusive if the result is.')

prop('C23', level='other', floor=3, technique='call-graph rule over the compiler\'s MIR (creation of references during a step of an iteration), and abstract interpretation of the steps', features=('dot',),
     tasks=[('alias', 'alias', ())] + [('iters', 'step', ('IterMut', b, l, ('twice',))) for b in (False, True) for l in (0, 1)]
     + [('iters', 'construct', ('IterMut', ('twice',))), ('iters', 'overrides', ('IterMut', True))],
     explanation='For every exported function that lends items for longer than its own call, everything that it calls is searched for the '
     'creation of a reference that covers a node: any such reference conflicts with exclusive items that are in use, a mutable one with '
     'shared items that are in use. The steps of the mutable iteration are interpreted on an arbitrary tree (as for C07): no item is handed '
     'out that is not among the remaining ones, and the item handed out is not among those that remain.')

NAV = ('next_item_or_back_address', 'next_item_address', 'previous_item_address', 'normalize', 'next_back_address',
       'previous_front_address', 'leaf_address')

prop('C08', level='proof', floor=9, technique=SHAPE,
     tasks=lambda tier: [('nav', 'nav', (n, l)) for n in NAV for l in (0, 1)] + [('nav', 'nav', (n, l, 2 if tier == 'quick' else 3)) for n in NAV for l in (0, 1)],
     explanation='Each navigation function is abstractly interpreted from every address (before the first, every item, past the end, '
     'out of bounds) of an arbitrary node of an arbitrary tree; the place that the result denotes is compared with the in-order '
     'sequence.  A second interpretation without folding, on trees of bounded height, shows that the loops end.')

prop('C22', level='proof', floor=20, technique=SHAPE + ' and a ranking of the loops by the levels of the tree',
     tasks=lambda tier: edits(('occ', 'link'), tier) + keyed(('occ', 'link'))
     + [('maps', 'any_cmp', (('occ', 'link'), o, e)) for o in ('address_of', 'get', 'get_mut') for e in (False, True)]
     + [('maps', 'ends', (('occ', 'link'), n, False)) for n in ('first', 'first_mut', 'last', 'last_mut')],
     explanation='The interpretation of lookup, insertion and removal on an arbitrary tree yields the graph of the loop heads it reaches, up '
     'to renaming. Every cycle of this graph on which nodes are accessed has to move an identifier strictly along the levels of the tree, '
     'always in the same direction, so that it goes round at most once per level with a bounded number of accesses. That the leaves are at '
     'one depth and the nodes keep their minimum occupancy bounds the number of levels by a logarithm.')

TRUST = ('Every obligation is decided for all inputs of its abstract domain; trusted: rustc\'s MIR, the driver that dumps it, the '
         'abstract semantics in absint/ and the oracles in checks/.')

NA = {}
