PRE = '''#![allow(unused)]
use raw_btree::{Address, Item, Node, Offset, RawBTree, Storage};
//WALK
fn tree(n: impl IntoIterator<Item = i64>) -> RawBTree<i64> {
    let mut t = RawBTree::new();
    for i in n { t.insert(i64::cmp, i); }
    t
}
// removes every item of many trees in turn and puts it back at the returned address
fn reinsert() {
    let mut r = 12345u64;
    let mut rnd = move |n: usize| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) as usize % n };
    for size in [10i64, 15, 20, 30, 50, 80] {
        for _ in 0..40 {
            let mut t = tree(0..0);
            for _ in 0..size { t.insert(i64::cmp, rnd(200) as i64); }
            for _ in 0..size * 4 { t.insert(i64::cmp, rnd(200) as i64); let k = *t.iter().nth(rnd(t.len())).unwrap(); t.remove(i64::cmp, &k); }
            let all = walk(&t);
            for k in &all {
                let mut t = t.clone();
                let a = t.address_of(i64::cmp, k).unwrap();
                let (_, b) = unsafe { t.remove_at(a) }.unwrap();
                unsafe { t.insert_at(b, *k) };
                assert_eq!(walk(&t), all);
            }
        }
    }
}
'''
# a storage that checks every use of an identifier
SLAB = '''#![allow(unused)]
use raw_btree::{storage::Dropper, Address, Item, Node, Offset, RawBTree, Storage};
use std::{cell::{Cell, UnsafeCell}, rc::Rc};
thread_local!(static LIVE: Cell<isize> = const { Cell::new(0) });
struct Slot(Box<Node<i64, Slab>>);
#[derive(Default, Clone)]
struct Slab(Rc<UnsafeCell<Vec<Option<Slot>>>>);
impl Slab { fn v(&self) -> &mut Vec<Option<Slot>> { unsafe { &mut *self.0.get() } } }
unsafe impl Storage<i64> for Slab {
    type Node = usize;
    type Dropper = SlabDrop;
    fn allocate_node(&mut self, node: Node<i64, Self>) -> usize {
        LIVE.set(LIVE.get() + 1);
        self.v().push(Some(Slot(Box::new(node))));
        self.v().len() - 1
    }
    unsafe fn release_node(&mut self, id: usize) -> Node<i64, Self> {
        LIVE.set(LIVE.get() - 1);
        *self.v()[id].take().expect("released twice").0
    }
    fn start_dropping(&self) -> Option<SlabDrop> { Some(SlabDrop(self.clone())) }
    unsafe fn get(&self, id: usize) -> &Node<i64, Self> { &self.v()[id].as_ref().expect("use of a released node").0 }
    unsafe fn get_mut(&mut self, id: usize) -> &mut Node<i64, Self> { &mut self.v()[id].as_mut().expect("use of a released node").0 }
}
struct SlabDrop(Slab);
unsafe impl Dropper<i64, Slab> for SlabDrop {
    unsafe fn drop_node(&mut self, id: usize) { LIVE.set(LIVE.get() - 1); self.0.v()[id].take().expect("released twice"); }
}
type T = RawBTree<i64, Slab>;
fn nodes(t: &T) -> isize { let mut n = 0; t.visit_from_leaves(|_| n += 1); n }
'''
SEEDS = [
dict(id='array-into-iter-back', property='C01', needs='taking items from the back of an owned node buffer (a clone of the items of a leaf)',
  breaks='the slot past the last item is read, and the first item is never returned nor dropped',
  edits=[('src/utils/array.rs', """			self.back -= 1;
			let t = unsafe { self.buffer[self.back].assume_init_read() };
			Some(t)
		} else {
			None""", """			let t = unsafe { self.buffer[self.back].assume_init_read() };
			self.back -= 1;
			Some(t)
		} else {
			None""")],
  demo=PRE + '''fn main() {
    let t = tree(0..5);
    let Node::Leaf(leaf) = (unsafe { t.node(t.root().unwrap()) }) else { panic!() };
    let v: Vec<i64> = leaf.items().clone().into_iter().rev().collect();
    assert_eq!(v, [4, 3, 2, 1, 0]);
}'''),
dict(id='array-clone-len-first', property='C10', needs='a Clone of an item that panics while the items of a leaf are cloned',
  breaks='slots that were never written are dropped while unwinding',
  edits=[('src/utils/array.rs', """		let mut result = Array::new();

		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
		result.len = self.len;
""", """		let mut result = Array::new();
		result.len = self.len;

		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
""")],
  demo=PRE + '''use std::cell::Cell;
thread_local!(static MADE: Cell<usize> = const { Cell::new(0) }; static DROPPED: Cell<usize> = const { Cell::new(0) });
struct V(u64);
impl Clone for V { fn clone(&self) -> V { if self.0 == 3 { panic!("no") } MADE.set(MADE.get() + 1); V(self.0) } }
impl Drop for V { fn drop(&mut self) { DROPPED.set(DROPPED.get() + 1) } }
fn main() {
    let mut t: RawBTree<V> = RawBTree::new();
    for i in 0..6 { t.insert(|a, b| a.0.cmp(&b.0), V(i)); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = t.clone(); }));
    assert!(r.is_err());
    assert!(DROPPED.get() <= MADE.get(), "{} items dropped, {} made", DROPPED.get(), MADE.get());
}'''),
dict(id='children-separators-stale', property='C02', needs='iterating over the children of an internal node with separators, past the second child',
  breaks='the left separator of every child after the second one is the one of the second child',
  edits=[('src/node/mod.rs', """						let result = Some((*left_sep, branch.child, right_sep));
						*left_sep = right_sep;
						result""", """						let result = Some((*left_sep, branch.child, right_sep));
						if left_sep.is_none() {
							*left_sep = right_sep;
						}
						result""")],
  demo=PRE + '''fn main() {
    let t = tree(0..20);
    let n = unsafe { t.node(t.root().unwrap()) };
    assert!(n.item_count() >= 3);
    for (i, (l, id, r)) in n.children_with_separators().enumerate() {
        assert!(id == n.child_id(i));
        assert_eq!((l, r), n.separators(i));
    }
}'''),
dict(id='leaf-insert-by-key-offset', property='C02', needs='inserting by key directly in a leaf, after an item that is smaller',
  breaks='the returned offset is the one of the preceding item',
  edits=[('src/node/leaf.rs', """					((i + 1).into(), None)""", """					(i.into(), None)""")],
  demo=PRE + '''fn main() {
    let mut t = tree([10, 20, 30]);
    let r = t.root().unwrap();
    let (o, v) = unsafe { t.node_mut(r) }.insert_by_key(i64::cmp, 25).ok().unwrap();
    assert!(v.is_none());
    assert_eq!(unsafe { t.node(r) }.item(o), Some(&25));
}'''),
dict(id='internal-get-mut-first', property='C02', needs='looking up, mutably and in an internal node, a key smaller than every item of the node',
  breaks='the child after the first item is returned instead of the first child',
  edits=[('src/node/internal.rs', """			None => Err(&mut self.first_child),""", """			None => Err(&mut self.other_children[0].child),""")],
  demo=PRE + '''fn main() {
    let mut t = tree(0..60);
    let r = t.root().unwrap();
    let first = unsafe { t.node(r) }.child_id(0);
    assert!(matches!(unsafe { t.node_mut(r) }.get_mut(i64::cmp, &-1), Err(id) if *id == first));
}'''),
dict(id='merge-address-right', property='C05', needs='a removal that merges the leaf holding the returned address into its left sibling',
  breaks='the returned address denotes the position before the separator that was merged',
  edits=[('src/balancing.rs', """		addr.offset = (addr.offset.unwrap() + left_offset.unwrap() + 1).into();""", """		addr.offset = (addr.offset.unwrap() + left_offset.unwrap()).into();""")],
  demo=PRE + '''fn main() {
    reinsert();
}'''),
dict(id='rotate-left-address', property='C05', needs='removing an item of an internal node whose left leaf is refilled from its right sibling, so that the item after it becomes the separator',
  breaks='the returned address lies before the first item of the right leaf',
  edits=[('src/balancing.rs', """				if addr.offset == 0 {
					// addressed item is moving to pivot.
					addr.node = id;
					addr.offset = pivot_offset;
				} else {
					// addressed item stays on right.
					addr.offset.decr();
				}""", """				// addressed item stays on right.
				addr.offset.decr();""")],
  demo=PRE + '''fn main() {
    reinsert();
}'''),
dict(id='internal-split-offset', property='C05', needs='an insertion whose item is the median of a full leaf and goes up to a full internal node that splits in turn',
  breaks='the address returned by the insertion denotes another item',
  edits=[('src/node/internal.rs', """		(self.other_children.len(), median.item, right_node)""", """		(right_node.other_children.len(), median.item, right_node)""")],
  demo=PRE + '''fn main() {
    for n in 30i64..90 {
        for k in 0..n {
            let mut t = tree((0..n).map(|i| i * 10));
            let a = t.address_of(i64::cmp, &(k * 10 + 5)).unwrap_err();
            let b = unsafe { t.insert_at(a, k * 10 + 5) };
            assert_eq!(unsafe { t.get_at(b.unwrap()) }, Some(&(k * 10 + 5)));
        }
    }
}'''),
dict(id='remove-at-len', property='C06', needs='removing at an address that holds no item, as one past the last item of a leaf',
  breaks='the length is decremented although nothing is removed',
  edits=[('src/lib.rs', """		self.nodes.remove_at(self.root, addr).map(|r| {
			self.root = r.new_root;
			self.len -= 1;
			(r.item, r.new_addr)""", """		self.len -= 1;
		self.nodes.remove_at(self.root, addr).map(|r| {
			self.root = r.new_root;
			(r.item, r.new_addr)""")],
  demo=PRE + '''fn main() {
    let mut t = tree(0..5);
    let r = t.root().unwrap();
    assert!(unsafe { t.remove_at(Address::new(r, 5.into())) }.is_none());
    assert_eq!(t.len(), t.iter().by_ref().count().max(5));
    assert_eq!(walk(&t).len(), t.len());
}'''),
dict(id='iter-mut-mixed-ends', property='C07', needs='taking items of a mutable iterator from both ends',
  breaks='items already taken from the back are handed out again from the front',
  edits=[('src/lib.rs', """				if self.len > 0 {
					self.len -= 1;
					self.addr = self.btree.nodes.next_item_address(addr);
					Some(std::mem::transmute""", """				if self.len > 0 {
					if self.end.is_none() {
						self.len -= 1;
					}
					self.addr = self.btree.nodes.next_item_address(addr);
					Some(std::mem::transmute""")],
  demo=PRE + '''fn main() {
    let mut t = tree(0..40);
    let mut it = t.iter_mut();
    let mut seen = Vec::new();
    for i in 0..100 {
        let x = if i % 3 == 0 { it.next_back() } else { it.next() };
        match x { Some(x) => seen.push(*x), None => break }
    }
    seen.sort();
    assert_eq!(seen, (0..40).collect::<Vec<_>>());
}'''),
dict(id='front-address-climb', property='C08', needs='asking for the front address before the one that precedes the first item of a node that is not the first child',
  breaks='the address of the following separator is returned',
  edits=[('src/storage.rs', """						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.offset.decr();
						addr.node = parent_id;""", """						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						if addr.offset == 0 {
							addr.offset.decr();
						}
						addr.node = parent_id;""")],
  demo=PRE + '''fn main() {
    let t = tree(0..60);
    let r = t.root().unwrap();
    let n = unsafe { t.node(r) };
    for i in 0..n.child_count() {
        let a = Address::new(n.child_id(i), Offset::before());
        let b = unsafe { t.previous_front_address(a) }.unwrap();
        assert!(b.node == r);
        assert_eq!(unsafe { t.get_at(b) }, n.separators(i).0);
    }
}'''),
dict(id='forget-root', property='C11', needs='forgetting a tree, or consuming it by value, with a storage whose nodes are observable',
  breaks='the root node is never released',
  edits=[('src/lib.rs', """				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			root_node.visit_from_leaves_mut(&mut self.nodes, &mut f);
			f(root_id, root_node)""", """				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			root_node.visit_from_leaves_mut(&mut self.nodes, &mut f);
			if let Node::Leaf(_) = root_node {
				f(root_id, root_node)
			}""")],
  demo=SLAB + '''fn main() {
    for n in [0i64, 5, 50, 500] {
        let mut t = T::new();
        for i in 0..n { t.insert(i64::cmp, i); }
        t.forget();
        assert_eq!(LIVE.get(), 0);
    }
}'''),
dict(id='collapse-leak', property='C13', needs='a removal that empties the root of a tree of depth two or more, in a storage whose nodes are observable',
  breaks='the old root node is never released',
  edits=[('src/balancing.rs', """							tree.release_node(id);
							addr
						} else {""", """							if root.is_none() {
								tree.release_node(id);
							}
							addr
						} else {""")],
  demo=SLAB + '''fn main() {
    let mut t = T::new();
    for i in 0..200 { t.insert(i64::cmp, i); }
    for i in 0..200 { t.remove(i64::cmp, &i); assert_eq!(LIVE.get(), nodes(&t)); }
}'''),
dict(id='box-ptr-send', property='C14', needs='a program that sends a tree of items that are not Send to another thread',
  breaks='such a program compiles',
  edits=[('src/storage.rs', """unsafe impl<T: Send> Send for BoxPtr<T> {}""", """unsafe impl<T> Send for BoxPtr<T> {}""")],
  demo=PRE + '''use std::{marker::PhantomData, rc::Rc};
struct P<T>(PhantomData<T>);
impl<T: Send> P<T> { fn send(&self) -> bool { true } }
trait No { fn send(&self) -> bool { false } }
impl<T> No for P<T> {}
fn main() {
    assert!(P::<RawBTree<u8>>(PhantomData).send());
    // the identifiers of the nodes of a tree of items that are not Send
    assert!(!P::<<raw_btree::storage::BoxStorage as Storage<Rc<u8>>>::Node>(PhantomData).send());
}'''),
dict(id='leaf-address-safe', property='C15', needs='safe code that calls get_at with an address of another tree, or of a node that was freed',
  breaks='get_at is a safe function although it follows any identifier it is given',
  edits=[('src/lib.rs', """	pub unsafe fn get_at(&self, addr: Address<S::Node>) -> Option<&T> {
		self.nodes.get(addr.node).item(addr.offset)""", """	pub fn get_at(&self, addr: Address<S::Node>) -> Option<&T> {
		unsafe { self.nodes.get(addr.node).item(addr.offset) }""")],
  demo=PRE + '''type A = Address<<raw_btree::storage::BoxStorage as Storage<i64>>::Node>;
struct P<F>(F);
impl<F: for<'a> Fn(&'a RawBTree<i64>, A) -> Option<&'a i64>> P<F> { fn safe(&self) -> bool { true } }
trait No { fn safe(&self) -> bool { false } }
impl<F> No for P<F> {}
fn main() {
    assert!(!P(RawBTree::<i64>::get_at).safe(), "safe code can dereference any identifier");
}'''),
dict(id='offset-eq-max', property='C16', needs='comparing the offset before the first item with the greatest integer',
  breaks='they are equal although the offset is ordered before every integer',
  edits=[('src/node/mod.rs', """		self.0 != usize::MAX && self.0 == *offset""", """		self.0 == *offset""")],
  demo=PRE + '''fn main() {
    let b = Offset::before();
    assert!(b < usize::MAX && b != usize::MAX);
}'''),
dict(id='dot-child-error', property='C18', features='dot', needs='a writer that fails once, while a node that is not the root is written',
  breaks='the error is not reported and the output lacks a part',
  edits=[('src/lib.rs', """			self.dot_write_node(f, child_id)?;
			let child_name""", """			let _ = self.dot_write_node(f, child_id);
			let child_name""")],
  demo=PRE + '''struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { self.0 = usize::MAX; return Err(std::io::ErrorKind::Other.into()) }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let t = tree(0..40);
    let mut w = W(usize::MAX);
    t.dot_write(&mut w).unwrap();
    let n = usize::MAX - w.0;
    for k in 0..n { assert!(t.dot_write(&mut W(k)).is_err(), "error at write {} of {} lost", k, n); }
}'''),
dict(id='insert-keeps-old', property='C19', needs='inserting an item that compares equal to a stored one but is distinguishable from it',
  breaks='the stored item is kept and the new one is returned as if it had been replaced',
  edits=[('src/lib.rs', """			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),""", """			Ok(addr) => {
				let _ = unsafe { self.nodes.get_mut(addr.node).item_mut(addr.offset)? };
				Some(item)
			}""")],
  demo=PRE + '''fn main() {
    let mut t: RawBTree<(i64, char)> = RawBTree::new();
    for i in 0..30 { t.insert(|a, b| a.0.cmp(&b.0), (i, 'a')); }
    for i in 0..30 {
        assert_eq!(t.insert(|a, b| a.0.cmp(&b.0), (i, 'b')), Some((i, 'a')));
        assert_eq!(t.get(|a, k| a.0.cmp(k), &i), Some(&(i, 'b')));
    }
}'''),
dict(id='last-mut-first', property='C20', needs='a mutable access to the last item of a tree of two items or more',
  breaks='the first item is returned',
  edits=[('src/lib.rs', """	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.last_item_address()""", """	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.first_item_address()""")],
  demo=PRE + '''fn main() {
    for n in [1i64, 2, 9, 100] { assert_eq!(tree(0..n).last_mut(), Some(&mut (n - 1))); }
}'''),
dict(id='validate-equal-separator', property='C21', needs='validating a tree in which an item of a leaf equals the separator on its left',
  breaks='the malformed tree is accepted',
  edits=[('src/node/leaf.rs', """				if cmp(min, item).is_ge() {""", """				if cmp(min, item).is_gt() {""")],
  demo=PRE + '''fn main() {
    let mut t = tree(0..20);
    t.validate(i64::cmp);
    let r = t.root().unwrap();
    let c = unsafe { t.node(r) }.child_id(1);
    let s = *unsafe { t.node(r) }.item(0.into()).unwrap();
    *unsafe { t.node_mut(c) }.item_mut(0.into()).unwrap() = s;
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| t.validate(i64::cmp)).is_err());
}'''),
dict(id='validate-depth', property='C21', needs='validating a tree in which only the last child of a node has another depth',
  breaks='the unbalanced tree is accepted',
  edits=[('src/lib.rs', """					if depth != child_depth {""", """					if depth != child_depth && i + 1 < node.child_count() {""")],
  demo=PRE + '''fn main() {
    let mut t = tree(0..20);
    t.validate(i64::cmp);
    let r = t.root().unwrap();
    let n = unsafe { t.node(r) }.child_count();
    assert!(n >= 3);
    // put a whole tree of two levels, with greater items, in the place of the last leaf
    let u = std::mem::ManuallyDrop::new(tree(100..140));
    let ur = u.root().unwrap();
    unsafe {
        t.node_mut(ur).set_parent(Some(r));
        assert!(t.node(ur).item_count() >= 3);
        t.node_mut(r).insert(Offset::from(n - 1), 99, Some(ur));
    }
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| t.validate(i64::cmp)).is_err());
    std::mem::forget(t);
}'''),
dict(id='replace-at-drop', property='C01', needs='removing an item of an internal node',
  breaks='the removed item is duplicated: the slot is overwritten without giving the old item up',
  edits=[('src/node/internal.rs', """		std::mem::swap(&mut item, &mut self.other_children[offset.unwrap()].item);
		item""", """		let slot = &mut self.other_children[offset.unwrap()].item;
		unsafe {
			let old = std::ptr::read(slot);
			std::mem::swap(slot, &mut item);
			std::mem::drop(item);
			old
		}""")],
  demo=PRE + '''use std::{cell::RefCell, collections::HashSet};
thread_local!(static LIVE: RefCell<HashSet<usize>> = RefCell::default());
struct V(usize);
impl V { fn new(i: usize) -> V { assert!(LIVE.with_borrow_mut(|l| l.insert(i))); V(i) } }
impl Drop for V { fn drop(&mut self) { if !LIVE.with_borrow_mut(|l| l.remove(&self.0)) { println!("dropped twice"); std::process::exit(1) } } }
fn main() {
    let mut t: RawBTree<V> = RawBTree::new();
    for i in 0..100 { t.insert(|a, b| a.0.cmp(&b.0), V::new(i)); }
    for i in 0..100 { t.remove(|a, k| a.0.cmp(k), &(i * 37 % 100)); }
}'''),
]
