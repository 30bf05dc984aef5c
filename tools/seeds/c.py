import os
_b = {}
exec(open(__file__.replace("c.py", "b.py") if "__file__" in globals() else "/verif/tools/seeds/b.py").read(), _b)
PRE = _b["PRE"]
COUNTING = '''#![allow(unused)]
use raw_btree::{storage::Dropper, Address, Item, Node, Offset, RawBTree, Storage};
use std::cell::{Cell, UnsafeCell};
thread_local!(static USES: Cell<usize> = const { Cell::new(0) });
fn used() { USES.set(USES.get() + 1) }
#[derive(Default)]
struct Slab(Vec<Option<Box<Node<i64, Slab>>>>);
unsafe impl Storage<i64> for Slab {
    type Node = usize;
    type Dropper = SlabDrop;
    fn allocate_node(&mut self, node: Node<i64, Self>) -> usize { self.0.push(Some(Box::new(node))); self.0.len() - 1 }
    unsafe fn release_node(&mut self, id: usize) -> Node<i64, Self> { *self.0[id].take().unwrap() }
    fn start_dropping(&self) -> Option<SlabDrop> { None }
    unsafe fn get(&self, id: usize) -> &Node<i64, Self> { used(); self.0[id].as_ref().unwrap() }
    unsafe fn get_mut(&mut self, id: usize) -> &mut Node<i64, Self> { used(); self.0[id].as_mut().unwrap() }
}
struct SlabDrop;
unsafe impl Dropper<i64, Slab> for SlabDrop { unsafe fn drop_node(&mut self, _: usize) {} }
fn cost<R>(f: impl FnOnce() -> R) -> usize { let a = USES.get(); f(); USES.get() - a }
'''
SEEDS = [
dict(id='clone-bitwise', property='C12', needs='a tree with at least two levels whose items have no destructor but a Clone that is more than a copy',
 breaks='the items of internal nodes are copied bit by bit instead of being cloned',
 edits=[('src/lib.rs', "							item: b.item.clone(),", "							item: if std::mem::needs_drop::<T>() {\n								b.item.clone()\n							} else {\n								// nothing to share, a plain copy will do.\n								std::ptr::read(&b.item)\n							},")],
 demo='''use raw_btree::RawBTree;
struct V(i32, u32);
impl Clone for V { fn clone(&self) -> Self { V(self.0, self.1 + 1) } }
fn main() {
    let mut t: RawBTree<V> = RawBTree::new();
    for i in 0..40 { t.insert(|a, b| a.0.cmp(&b.0), V(i, 0)); }
    let u = t.clone();
    assert!(u.iter().all(|v| v.1 == 1), "an item was not cloned");
    assert!(t.iter().all(|v| v.1 == 0));
}
'''),
dict(id='rotate-last-sibling', property='C04', needs='a node with exactly two children, the first underflowing while the second holds at least seven items',
 breaks='the merged node exceeds its capacity',
 edits=[('src/balancing.rs', "		if right_sibling_index >= node.child_count() {", "		if right_sibling_index >= node.item_count() + (deficient_child_index.min(1)) {")],
 demo=PRE + '''fn main() {
    for extra in 0..6 {
        let mut t = tree((0..9).map(|i| i * 10));
        for i in 0..extra { t.insert(i64::cmp, 1000 + i); }
        for k in [0, 10, 20, 30] { t.remove(i64::cmp, &k); walk(&t); }
    }
}
'''),
dict(id='iter-last-whole-tree', property='C07', needs='last() on an iterator whose back end has already been advanced',
 breaks='last() gives an item that was already handed out',
 edits=[('src/lib.rs', "	#[inline]\n	fn next(&mut self) -> Option<&'a T> {", "	#[inline]\n	fn last(self) -> Option<&'a T> {\n		if self.len > 0 {\n			self.btree.last()\n		} else {\n			None\n		}\n	}\n\n	#[inline]\n	fn next(&mut self) -> Option<&'a T> {")],
 demo='''use raw_btree::RawBTree;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..30 { t.insert(i64::cmp, i); }
    assert_eq!(t.iter().last(), Some(&29));
    let mut it = t.iter();
    it.next_back();
    it.next_back();
    assert_eq!(it.last(), Some(&27));
}
'''),
dict(id='into-iter-count', property='C07', needs='count() on a consuming iterator that has been advanced',
 breaks='count() does not give the number of remaining items',
 edits=[('src/lib.rs', "	#[inline]\n	fn next(&mut self) -> Option<T> {\n		match self.addr {", "	#[inline]\n	fn count(self) -> usize {\n		self.btree.len()\n	}\n\n	#[inline]\n	fn next(&mut self) -> Option<T> {\n		match self.addr {")],
 demo='''use raw_btree::RawBTree;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..30 { t.insert(i64::cmp, i); }
    let mut it = t.into_iter();
    it.next();
    it.next_back();
    assert_eq!(it.count(), 28);
}
'''),
dict(id='insert-first-len', property='C06', needs='inserting the first item of a tree through an address (none)',
 breaks='the length stays zero',
 edits=[('src/lib.rs', "		let (root, addr) = self.nodes.insert_at(self.root, addr, item);\n		self.root = root;\n		self.len += 1;\n		addr", "		let (root, addr) = self.nodes.insert_at(self.root, addr, item);\n		if std::mem::replace(&mut self.root, root).is_some() {\n			self.len += 1;\n		}\n		addr")],
 demo='''use raw_btree::RawBTree;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    unsafe { t.insert_at(None, 5) };
    assert_eq!(t.len(), 1);
    assert!(!t.is_empty());
}
'''),
dict(id='box-drop-leak', property='C13', needs='dropping a tree while counting allocations',
 breaks='dropped nodes are not given back to the allocator',
 edits=[('src/storage.rs', "		let _ = Box::from_raw(id.0.as_ptr());", "		std::ptr::drop_in_place(id.0.as_ptr());")],
 demo='''use raw_btree::RawBTree;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(SeqCst);
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..200 { t.insert(i64::cmp, i); }
    drop(t);
    assert_eq!(LIVE.load(SeqCst), before, "memory leak");
}
'''),
dict(id='remove-at-recount', property='C22', needs='remove_at on a large tree, counting the accesses to nodes',
 breaks='every removal through an address walks over all items',
 edits=[('src/lib.rs', "			self.root = r.new_root;\n			self.len -= 1;\n			(r.item, r.new_addr)", "			self.root = r.new_root;\n			self.len = self.iter().take(self.len - 1).count();\n			(r.item, r.new_addr)")],
 demo=COUNTING + '''fn main() {
    let mut t: RawBTree<i64, Slab> = RawBTree::new();
    for i in 0..20000 { t.insert(i64::cmp, i); }
    for k in [0, 777, 10000, 19999] {
        let a = t.address_of(i64::cmp, &k).unwrap();
        let n = cost(|| unsafe { t.remove_at(a) });
        assert!(n < 400, "{n} accesses");
    }
}
'''),
dict(id='get-miss-scan', property='C22', needs='looking up a key that is not there, in a large tree',
 breaks='a failed lookup walks over all items',
 edits=[('src/lib.rs', "		self.address_of(cmp, key)\n			.ok()\n			.and_then(|addr| unsafe { self.get_at(addr) })", "		match self.address_of(&cmp, key) {\n			Ok(addr) => unsafe { self.get_at(addr) },\n			Err(_) => self.iter().find(|item| cmp(item, key).is_eq()),\n		}")],
 demo=COUNTING + '''fn main() {
    let mut t: RawBTree<i64, Slab> = RawBTree::new();
    for i in 0..20000 { t.insert(i64::cmp, 2 * i); }
    for k in [-1, 777, 10001, 50000, 20] {
        let n = cost(|| t.get(i64::cmp, &k).copied());
        assert!(n < 400, "{n} accesses");
    }
}
'''),
dict(id='search-debug-assert', property='C09', needs='a comparison that answers differently when asked twice',
 breaks='the lookup panics by itself',
 edits=[('src/utils/mod.rs', "		Some((i, eq))\n", "		debug_assert!(cmp(&sorted_slice[i], key).is_le());\n		Some((i, eq))\n")],
 demo='''use raw_btree::RawBTree;
use std::cell::Cell;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..100 { t.insert(i64::cmp, i); }
    for seed in 1u64..2000 {
        let s = Cell::new(seed);
        let _ = t.get(|_, _| {
            s.set(s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
            [std::cmp::Ordering::Less, std::cmp::Ordering::Greater, std::cmp::Ordering::Equal][(s.get() >> 33) as usize % 3]
        }, &5);
    }
}
'''),
dict(id='insert-probe', property='C10', needs='a comparison that panics during an insertion',
 breaks='the inserted item is dropped twice',
 edits=[('src/lib.rs', "		match self.address_of(cmp, &item) {\n			Ok(addr) => Some(unsafe", "		// the search only needs a view of the item.\n		let probe = unsafe { std::ptr::read(&item) };\n		let result = self.address_of(cmp, &probe);\n		std::mem::forget(probe);\n		match result {\n			Ok(addr) => Some(unsafe")],
 demo='''use raw_btree::RawBTree;
use std::{cell::Cell, rc::Rc};
struct D(i64, Rc<Cell<i64>>);
impl Drop for D { fn drop(&mut self) { self.1.set(self.1.get() + 1) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n = Rc::new(Cell::new(0));
    let mut t: RawBTree<D> = RawBTree::new();
    for i in 0..20 { t.insert(|a, b| a.0.cmp(&b.0), D(i, n.clone())); }
    let c = n.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.insert(|_, _| panic!(), D(5, c)); }));
    assert!(r.is_err());
    assert_eq!(n.get(), 1, "drops of the item");
}
'''),
dict(id='box-ptr-sync', property='C14', needs='an item type that can be sent but not shared',
 breaks='identifiers of trees of such items can be shared across threads',
 edits=[('src/storage.rs', 'unsafe impl<T: Sync> Sync for BoxPtr<T> {}', 'unsafe impl<T: Send> Sync for BoxPtr<T> {}')],
 demo='''use raw_btree::{storage::BoxStorage, RawBTree, Storage};
use std::{cell::Cell, marker::PhantomData};
struct Probe<X>(PhantomData<X>);
trait No { const SYNC: bool = false; }
impl<X> No for Probe<X> {}
impl<X: Sync> Probe<X> { const SYNC: bool = true; }
fn main() {
    assert!(Probe::<RawBTree<i64>>::SYNC);
    assert!(!Probe::<RawBTree<Cell<i64>>>::SYNC);
    assert!(!Probe::<<BoxStorage as Storage<Cell<i64>>>::Node>::SYNC);
}
'''),
dict(id='offset-incr-before', property='C16', needs='incrementing the before-first offset',
 breaks='the offset stays before the first position',
 edits=[('src/node/mod.rs', "			self.0 = 0\n", "			self.0 = usize::MAX\n")],
 demo='''use raw_btree::Offset;
fn main() {
    let mut o = Offset::before();
    o.incr();
    assert!(o == 0);
}
'''),
dict(id='dot-last-edge', property='C18', needs='exporting a tree of at least two levels',
 breaks='the last child of every node is left out',
 edits=[('src/lib.rs', "		for child_id in node.children() {\n			self.dot_write_node(f, child_id)?;", "		for child_id in node.children().take(node.item_count().max(1)) {\n			self.dot_write_node(f, child_id)?;")],
 features='dot',
 demo='''use raw_btree::RawBTree;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..30 { t.insert(i64::cmp, i); }
    let mut v = Vec::new();
    t.dot_write(&mut v).unwrap();
    let s = String::from_utf8(v).unwrap();
    let nodes = s.matches("label=").count();
    assert_eq!(s.matches(" -> ").count(), nodes - 1);
    for i in 0..30 { assert!(s.contains(&format!("{i}")), "item {i} is missing"); }
}
'''),
dict(id='remove-internal-address', property='C05', needs='removing an item of an internal node and inserting at the returned address',
 breaks='the address returned is the one of the item before the gap',
 edits=[('src/storage.rs', "				let new_addr = self.next_item_or_back_address(addr).unwrap();\n				let (separator,", "				let new_addr = addr;\n				let (separator,")],
 demo=PRE + '''fn main() { reinsert() }
'''),
dict(id='internal-insert-by-key-child', property='C02', needs='insert_by_key on an internal node with a key that is not in it',
 breaks='the reported child index does not belong to the reported child',
 edits=[('src/node/internal.rs', "						child_offset: i + 1,\n", "						child_offset: i,\n")],
 demo='''use raw_btree::{Node, RawBTree};
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..40 { t.insert(i64::cmp, 2 * i); }
    let r = t.root().unwrap();
    let n = unsafe { t.node_mut(r) };
    for k in 0..80 {
        if let Err(e) = n.insert_by_key(i64::cmp, 2 * k + 1) {
            assert!(n.child_id(e.child_offset) == e.child_id);
        }
    }
}
'''),
dict(id='leaf-address-one-level', property='C08', needs='the leaf address of an item of a node two levels above the leaves',
 breaks='the address is not one of a leaf',
 edits=[('src/storage.rs', "					addr.node = child_id;\n					addr.offset = self.get(child_id).item_count().into()\n				}\n				None => break,\n			}\n		}\n\n		addr", "					addr.node = child_id;\n					addr.offset = self.get(child_id).item_count().into();\n					if self.get(child_id).parent().is_none() {\n						continue;\n					}\n					break;\n				}\n				None => break,\n			}\n		}\n\n		addr")],
 demo='''use raw_btree::{Address, RawBTree};
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..300 { t.insert(i64::cmp, i); }
    let r = t.root().unwrap();
    let a = unsafe { t.leaf_address(Address::new(r, 0.into())) };
    assert_eq!(unsafe { t.node(a.node) }.child_count(), 0);
}
'''),
dict(id='last-two-levels', property='C20', needs='last() on a tree of at least three levels',
 breaks='last gives an item that is not the greatest',
 edits=[('src/lib.rs', "	pub fn last(&self) -> Option<&T> {\n		self.last_item_address()\n			.and_then(|addr| unsafe { self.get_at(addr) })", "	pub fn last(&self) -> Option<&T> {\n		let root = unsafe { self.nodes.get(self.root?) };\n		let id = match root.child_id_opt(root.item_count()) {\n			Some(id) => id,\n			None => return root.item((root.item_count() - 1).into()),\n		};\n		let node = unsafe { self.nodes.get(id) };\n		node.item((node.item_count() - 1).into())")],
 demo='''use raw_btree::RawBTree;
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    assert_eq!(t.last(), None);
    for i in 0..500 { t.insert(i64::cmp, i); assert_eq!(t.last(), Some(&i)); }
}
'''),
dict(id='forget-by-visit', property='C11', needs='forgetting a tree with more than one level while counting destructors',
 breaks='items of internal nodes are dropped when the tree is forgotten',
 edits=[('src/node/mod.rs', "			Self::Internal(node) => node.forget(),\n", "			Self::Internal(node) if node.parent().is_none() => node.forget(),\n			Self::Internal(_) => (),\n")],
 demo='''use raw_btree::RawBTree;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
struct D(i64);
impl Drop for D { fn drop(&mut self) { N.set(N.get() + 1) } }
fn main() {
    for n in [5, 30, 400] {
        let mut t: RawBTree<D> = RawBTree::new();
        for i in 0..n { t.insert(|a, b| a.0.cmp(&b.0), D(i)); }
        t.forget();
        assert_eq!(N.get(), 0, "dropped items");
    }
}
'''),
]
