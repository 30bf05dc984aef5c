#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay readable).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}))))
ARR='src/utils/array.rs'; INT='src/node/internal.rs'; LEAF='src/node/leaf.rs'; NOD='src/node/mod.rs'; BAL='src/balancing.rs'; STO='src/storage.rs'; LIB='src/lib.rs'; ITEM='src/item.rs'; ADDR='src/node/addr.rs'; UT='src/utils/mod.rs'

p('C01','Every stored item is owned exactly once by the node buffers',
 'The fixed-capacity buffers that hold items and child links behave as owned sequences: inserting, removing, draining, appending, cloning, iterating by value, clearing or dropping one moves every element to exactly one place. No element is duplicated, lost, dropped twice, dropped while still stored, or read from a slot that holds no live element.',
 ['inputs','histories'],'every buffer length from empty to full, every index and range, every prefix of consumption of a draining or by-value iterator before it is dropped, every element type (with or without destructor)',
 'The tests use usize-like items without destructors, so a leaked or doubly owned element is invisible to them, and they reach buffers only through whole-tree operations.',
 [ARR],[('MaybeUninit slots with an explicit length',ARR+': Array'),('Drain closes the hole when exhausted or dropped',ARR+': Drain::shift, Drop for Drain'),('into_raw_parts forgets self',ARR)],
 [('len','number of live leading slots',ARR+': Array::len')])
p('C02','Node operations edit the item and child sequences exactly as documented',
 'Each operation on a single node (insert, remove, replace, push or pop on either side, split, merge, append, and the accessors) changes its ordered sequence of items and child links exactly as documented, keeps the parent link, and returns the documented item, link, offset or balance. A refused operation leaves the node unchanged, and no operation panics when its documented precondition holds.',
 ['inputs'],'both node kinds, every legal occupancy, every offset, arbitrary item and identifier types',
 'Tests drive nodes only through random whole-tree histories; off-by-one positions at rare occupancies, wrong returned offsets and refused operations are not observed.',
 [INT,LEAF,NOD],[('other_children / items sequences',INT+', '+LEAF),('dispatch between node kinds',NOD)],None,['Node, InternalNode, LeafNode public methods'])
p('C03','Rebalancing keeps the in-order sequence and the parent and child links',
 'After any insertion or removal, whatever rotations, merges, splits, root growth or root shrinking it triggers, the in-order sequence of items is the previous one with only the requested item added or removed. Every child link leads to a node whose parent link leads back, the root has no parent, and all leaves stay at the same depth.',
 ['inputs','histories'],'every well-formed tree (any height and occupancies), every insertion or removal position, hence every history of operations',
 'Random histories only sample occupancy combinations, and they cannot show that every split, rotation, merge and cascade preserves order and links for arbitrary trees.',
 [BAL,STO],[('rebalance loop with split, rotate, merge, root change',BAL),('insert_node relinks the children',STO+': insert_node'),('removal from an internal node borrows the predecessor',STO+': remove_at')],
 [('parent','identifier of the parent node',INT+', '+LEAF)])
p('C04','Nodes stay within their occupancy bounds and never exceed capacity',
 'After every insertion or removal each node other than the root holds between its minimum and its maximum number of items and the root holds at least one. No operation on a well-formed tree ever exceeds the capacity of a node, trips an internal assertion or panics.',
 ['inputs','histories'],'every well-formed tree and every insertion or removal position',
 'Overflow of a full buffer or an underfull node appears only for particular combinations of neighbouring occupancies, which random tests need not reach.',
 [BAL,INT,LEAF,ARR,LIB],[('balance, is_overflowing, is_underflowing thresholds',INT+', '+LEAF),('capacity M and M+1',LIB+': M'),('WouldUnderflow refusals',NOD)])
p('C05','Addresses returned by insertion and removal denote the right position',
 'Inserting at an address returns the address of the inserted item in the resulting tree, wherever rebalancing moved it. Removing at an address returns the removed item and an address where re-inserting restores the same order (none if the tree became empty).',
 ['inputs','histories'],'every well-formed tree, every valid address, every cascade of rebalancing',
 'The tests only check the resulting order through insert and remove by key; the returned addresses are hardly observed, and address corrections happen only in particular rebalancing cases.',
 [BAL,STO,LIB],[('address updates in split, rotation and merge',BAL),('next_item_or_back_address before removal from an internal node',STO+': remove_at')])
p('C06','The reported length always equals the number of stored items',
 'The length grows by one exactly when an item is added, shrinks by one exactly when an item is removed, is unchanged when an item is replaced or the operation fails, is zero after clearing or forgetting, and is preserved by cloning. The tree reports itself empty exactly when its length is zero.',
 ['inputs','histories'],'every public mutating operation and every outcome of it (found, not found, replaced, empty tree)',
 'Unsafe address-based entry points and failure outcomes are not exercised by the tests, and iterators size themselves from this count.',
 [LIB],[('len updated next to every root update',LIB)],[('len','number of items',LIB+': RawBTree::len')])
p('C07','Iterators yield every item once, from both ends, with exact lengths',
 'Shared, mutable and consuming iteration visit the items in order from the front and in reverse order from the back; the two ends never yield the same item twice, never skip one, and together yield exactly the announced number of items. The reported size is exact before and after every step, exhausted iterators keep returning nothing, and the three iterators agree.',
 ['inputs','histories'],'every well-formed tree and every interleaving of front and back steps, including after exhaustion',
 'The tests run a few full traversals over one tree; interleavings of both ends that meet at particular positions are not enumerated.',
 [LIB],[('front cursor, back cursor and remaining count',LIB+': Iter, IterMut, IntoIter')],[('len','remaining items',LIB+': Iter::len')])
p('C08','Address navigation moves to the adjacent position and never loops',
 'From any valid address, the next and previous item functions return the address of the directly following or preceding item, or nothing at the ends. The front-address and back-address functions step to the adjacent address of their kind, normalisation and leaf conversion keep the position, and every address returned is valid.',
 ['inputs'],'every well-formed tree of any height and every valid address in it (before-first, item and past-the-end offsets)',
 'Tests only walk from the first item of particular trees; offsets outside the items and positions on deep spines are not reached.',
 [STO,ADDR],[('descend to the nearest leaf / climb while at the edge',STO+': previous_item_address, next_item_address, previous_front_address, next_back_address, next_item_or_back_address, normalize, leaf_address')])
p('C09','Lookup finds the matching item or the exact insertion point',
 'With a comparison consistent with the stored order, looking up a key reports the address of the item comparing equal if there is one, and otherwise the leaf position between its neighbours. With any comparison whatsoever, lookups never read outside the nodes, never panic by themselves and always terminate.',
 ['inputs','programs'],'every node content (including empty nodes), every key position, every comparison function including inconsistent ones',
 'The tests compare integers in a few trees; they cannot cover every key position at every occupancy nor adversarial comparison functions.',
 [UT,INT,LEAF,NOD,STO,LIB],[('binary search for the greatest smaller or equal item',UT+': binary_search_min'),('descent through offset_of',STO+': address_in')])
p('C10','User code that panics never corrupts the tree or drops an item twice',
 'If an item destructor, an item clone or a comparison panics inside any operation, unwinding never drops an item or frees a node twice, never leaves a reachable reference to a freed node, and the tree can still be used or dropped safely afterwards.',
 ['fault_sequences','inputs'],'a panic at any call into user code (destructors, clones, comparisons, visitors) made by any public operation',
 'No test uses panicking items or comparisons.',
 [LIB,ARR,STO],[('detach before destroy order in clear, forget and by-value iteration',LIB),('length updated before user code runs',ARR)])
p('C11','Clearing, dropping, forgetting and consuming release each node once',
 'Clearing or dropping a tree drops every item and frees every node exactly once, children before parents, and leaves an empty usable tree. Forgetting frees every node without dropping items; a consumed tree hands out or drops each item exactly once and then frees every node.',
 ['inputs','histories'],'every tree shape and every prefix of consumption of a consuming iterator',
 'Tests never count drops or frees, so leaks, double frees and wrong orders go unnoticed.',
 [LIB,NOD,STO],[('post-order visit then drop_node',LIB+': clear, forget, visit_from_leaves'),('Drop impls of the tree and of IntoIter',LIB)])
p('C12','A clone is an equal tree that shares no node with the original',
 'Cloning produces a tree with the same shape, the clones of the same items in the same order, correct parent links and length, built only from newly allocated nodes. The original is not modified, and later changes to either tree never affect the other.',
 ['inputs'],'every tree shape and every clonable item type',
 'The tests do not clone trees with several levels nor modify clones.',
 [LIB,ARR,STO],[('recursive clone_node allocating in a fresh storage',LIB+': Clone for RawBTree'),('insert_node sets the parent of children',STO)])
p('C13','Nodes are reached only through live identifiers and never leaked',
 'Tree operations access nodes only through identifiers that are allocated and not yet released, never release a node twice or use it afterwards, and release every node they detach from the tree. The default box-backed storage frees a node exactly when it is released and keeps identifiers bound to their node until then.',
 ['inputs','histories'],'every public operation, every branch of rebalancing, any storage implementation',
 'Tests run with the default storage, where a leaked or reused node identifier need not fail.',
 [STO,BAL,LIB],[('allocate_node / release_node / drop_node protocol',STO+': Storage, Dropper, BoxStorage'),('merge and root shrink release the emptied node',BAL)])
p('C14','Types enforce thread-safety and borrowing rules at compile time',
 'Trees, iterators and node identifiers can be sent or shared across threads only if the item type allows it; borrowed items and iterators cannot outlive the tree or coexist with its mutation; a mutable iterator cannot be duplicated. A program that breaks any of these rules does not compile, while its lawful twin does.',
 ['programs'],'every client program, through the auto-trait, variance and lifetime signatures of the public types',
 'Tests are programs that compile; they cannot show that an unlawful program is rejected.',
 [STO,LIB],[('unsafe Send/Sync impls for the node pointer',STO+': BoxPtr'),('lifetimes of Iter and IterMut',LIB)])
p('C15','Safe functions never trust caller-supplied node identifiers',
 'A function that dereferences a node identifier or address chosen by its caller, directly or through other functions, is marked unsafe; functions callable from safe code only follow identifiers the tree itself stores. Safe code is never given mutable access to the internal nodes of a tree.',
 ['programs'],'every public function of the crate and every path by which an argument can reach a node access',
 'It is about programs not in the test suite: whether some safe program can reach undefined behaviour.',
 [LIB,NOD,STO],[('unsafe fn markers and Safety sections',LIB+', '+STO),('private root and nodes fields',LIB)])
p('C16','Offsets are totally ordered with the before-first offset as least',
 'The before-first offset is less than every other offset and equal only to itself; other offsets order as their numbers, and comparisons with plain numbers and with offsets agree. Incrementing and decrementing are inverse steps along this order between before-first and any position.',
 ['inputs'],'all offsets and all plain numbers',
 'Tests never compare or step the special offset directly.',
 [NOD],[('reserved maximal value as before-first',NOD+': Offset')])
p('C17','Key-value items compare by key only and keep their parts',
 'Equality and every ordering of key-value items depend on the keys only and agree with each other and with the keys; values never matter. Building, borrowing and taking apart an item return exactly the given key and value.',
 ['inputs','programs'],'all key and value types and all values',
 'A finite number of sample pairs cannot show that the value is never consulted for arbitrary types.',
 [ITEM],[('PartialEq, PartialOrd, Ord for Item',ITEM)])
p('C18','The DOT export writes every node and edge and reports write errors',
 'Exporting a tree in the DOT language writes a header, one labelled node per tree node containing its items in order, one edge per parent-child link, and a footer. Any error of the output sink is returned to the caller and stops the export.',
 ['inputs','fault_sequences'],'every tree shape and a failure of any single write',
 'The tests are built without this feature and never inject write errors.',
 [LIB,INT,LEAF,NOD],[('dot_write, dot_write_node, dot_write_label',LIB+', '+INT+', '+LEAF)])
p('C19','Inserting, replacing and removing by key act like a sorted map',
 'Inserting an item with no equal item present adds it at its sorted position and returns nothing; inserting over an equal item replaces it in place and returns the old item; removing returns the equal item and deletes only it, or changes nothing if there is none. Lookup by key returns the equal stored item and gives access to that very item.',
 ['inputs','histories'],'every well-formed tree, every key position, any comparison consistent with the order',
 'Tests sample integer keys in random order; they do not cover each outcome at each tree position.',
 [LIB,STO],[('address_of then replace_at / insert_exactly_at / remove_at',LIB+': insert, remove, get, get_mut')])
p('C20','First and last give the extreme items, and nothing on an empty tree',
 'The first and last accessors (shared and mutable) return the smallest and the greatest item of the tree and nothing exactly when the tree is empty; the first-item address denotes the first item.',
 ['inputs'],'every well-formed tree of any height',
 'Tests do not compare them on multi-level trees.',
 [LIB],[('descend along the outermost children',LIB+': first_item_address, last_item_address')])
p('C21','The debug validator accepts exactly well-formed trees',
 'The validation entry point accepts every well-formed sorted tree and panics on any tree with a wrong parent link, an out-of-bounds occupancy of a node other than the root (or an internal root without items), unsorted items, an item on the wrong side of a separator, or leaves at different depths.',
 ['inputs'],'every tree and every single violation of the invariants',
 'Tests call the validator only on correct trees, so a check that never fires would not be noticed.',
 [LIB,INT,LEAF],[('validate, validate_node',LIB+', '+INT+', '+LEAF)])
p('C22','Operations take logarithmic time',
 'Lookup, insertion and removal visit a number of nodes proportional to the logarithm of the number of stored items.',
 ['inputs','histories'],'all trees and operations','Cost is not measured by any test.',
 [STO,BAL],[('balanced tree descent',STO)])
p('C23','Items handed out by iteration stay usable together',
 'Items handed out by an iteration over a tree may be used together: producing a further item never creates a reference that conflicts with one already handed out (overlaps it while either of the two is mutable).',
 ['programs','histories'],'all uses of shared and mutable iteration under the aliasing rules of the language',
 'Tests do not run under an aliasing model.',
 [LIB,STO],[('IterMut re-borrows the tree at each step',LIB+': IterMut'),('Iter navigates through shared references only',LIB+': Iter')])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
