import os
_b = {}
exec(open(__file__.replace("d.py", "b.py") if "__file__" in globals() else "/verif/tools/seeds/b.py").read(), _b)
PRE = _b["PRE"]
STR = '''use raw_btree::RawBTree;
'''
SEEDS = [
dict(id='rotate-right-link', property='C03', needs='an internal node borrows from its left sibling, which is not the first child',
 breaks='the moved child keeps its parent link to the sibling',
 edits=[('src/balancing.rs', "				if let Some(child_id) = opt_child_id {\n					tree.get_mut(child_id).set_parent(Some(deficient_child_id))\n				}\n\n				// update address.\n				if addr.node == deficient_child_id {", "				if let Some(child_id) = opt_child_id {\n					let owner = tree.get(id).child_id(deficient_child_index.min(1));\n					tree.get_mut(child_id).set_parent(Some(owner))\n				}\n\n				// update address.\n				if addr.node == deficient_child_id {")],
 demo=PRE + '''fn main() {
    let mut t = tree(0..400);
    for i in (0..400).rev() { t.remove(i64::cmp, &i); walk(&t); }
    let mut t = tree((0..400).map(|i| i * 10));
    for i in (200..400).rev() { t.remove(i64::cmp, &(i * 10)); for k in 0..3 { t.insert(i64::cmp, 300 + i * 7 % 900 + k); } walk(&t); }
}
'''),
dict(id='insert-node-links', property='C12', needs='an internal node of at least seven children is put into the storage (cloning a wide tree)',
 breaks='its last child keeps its parent link',
 edits=[('src/storage.rs', "		for child_id in children {\n			self.get_mut(child_id).set_parent(Some(id));\n		}", "		for child_id in children.into_iter().take(M - 2) {\n			self.get_mut(child_id).set_parent(Some(id));\n		}")],
 demo=PRE + '''fn main() {
    for n in 1..120 { let t = tree(0..n); walk(&t.clone()); let t = tree((0..n).rev()); walk(&t.clone()); }
}
'''),
dict(id='iter-mut-nth', property='C23', needs='nth on a mutable iterator, then iteration up to the back end',
 breaks='the skipped items are still counted, so the front end passes the back end and lends items a second time',
 edits=[('src/lib.rs', "	#[inline]\n	fn next(&mut self) -> Option<&'a mut T> {", "	#[inline]\n	fn nth(&mut self, n: usize) -> Option<&'a mut T> {\n		for _ in 0..n {\n			let addr = self.addr?;\n			self.addr = unsafe { self.btree.nodes.next_item_address(addr) };\n		}\n		self.next()\n	}\n\n	#[inline]\n	fn next(&mut self) -> Option<&'a mut T> {")],
 demo=STR + '''fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..50 { t.insert(i64::cmp, i); }
    let mut it = t.iter_mut();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20 { assert!(seen.insert(it.next_back().unwrap() as *mut i64)); }
    assert!(seen.insert(it.nth(5).unwrap() as *mut i64));
    while let Some(x) = it.next() { assert!(seen.insert(x as *mut i64), "an item is lent twice"); }
}
'''),
dict(id='iter-mut-back-overlap', property='C23', needs='a mutable iteration from the back after one from the front that has reached the end of the addresses',
 breaks='an item is lent twice',
 edits=[('src/lib.rs', "				self.len -= 1;\n				self.end = Some(addr);\n				Some(std::mem::transmute::<&mut T, &'a mut T>(", "				self.len -= 1;\n				if self.len == 1 && self.end.is_none() {\n					// the last two: the front end is left alone.\n					self.len += 1;\n				}\n				self.end = Some(addr);\n				Some(std::mem::transmute::<&mut T, &'a mut T>(")],
 demo=STR + '''fn main() {
    for n in 1..6 {
        let mut t: RawBTree<i64> = RawBTree::new();
        for i in 0..n { t.insert(i64::cmp, i); }
        let mut it = t.iter_mut();
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n - 2 { seen.insert(it.next().unwrap() as *mut i64); }
        if let Some(x) = it.next_back() { assert!(seen.insert(x as *mut i64)); }
        while let Some(x) = it.next() { assert!(seen.insert(x as *mut i64), "an item is lent twice"); }
    }
}
'''),
dict(id='validate-min-root-child', property='C21', needs='an underflowing internal node on the left edge of the tree',
 breaks='the validator accepts it',
 edits=[('src/node/internal.rs', "		if min.is_some() || max.is_some() {\n			// not root\n			match self.balance() {", "		if min.is_some() {\n			// not root\n			match self.balance() {")],
 demo='''use raw_btree::{Node, RawBTree};
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..400 { t.insert(i64::cmp, i); }
    t.validate(i64::cmp);
    // starve the leftmost internal child of the root: its items are forgotten one by one
    let root = t.root().unwrap();
    unsafe {
        let first = t.node(root).child_id_opt(0).unwrap();
        if let Node::Internal(n) = t.node_mut(first) {
            while n.item_count() > 1 {
                let off = (n.item_count() - 1).into();
                let (_, _, _) = n.remove(off);
            }
        } else { panic!() }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.validate(i64::cmp)));
    std::mem::forget(t);
    assert!(r.is_err(), "accepted");
}
'''),
dict(id='item-le-incomparable', property='C17', needs='keys that cannot be compared (a float that is not a number)',
 breaks='an item is at most another one although neither is ordered before or equal to the other',
 edits=[('src/item.rs', "		self.key.partial_cmp(&other.key)\n	}", "		self.key.partial_cmp(&other.key)\n	}\n\n	fn le(&self, other: &Self) -> bool {\n		!(self.key > other.key)\n	}")],
 demo='''use raw_btree::Item;
fn main() {
    assert!(Item::new(1.0, 'a') <= Item::new(1.0, 'b'));
    assert!(!(Item::new(f64::NAN, 'a') <= Item::new(1.0, 'b')));
}
'''),
dict(id='insert-append-fast', property='C19', needs='inserting an item that is equal to the greatest item',
 breaks='the equal item is kept and a second one is added behind it',
 edits=[('src/lib.rs', "		match self.address_of(cmp, &item) {\n			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),", "		// items often come in order: try the end first.\n		let end = match self.last_item_address() {\n			Some(last) => match unsafe { self.get_at(last) } {\n				Some(greatest) if cmp(greatest, &item).is_le() => {\n					Some(Address::new(last.node, (last.offset.unwrap() + 1).into()))\n				}\n				_ => None,\n			},\n			None => None,\n		};\n		let place = match end {\n			Some(addr) => Err(Some(addr)),\n			None => self.address_of(cmp, &item),\n		};\n		match place {\n			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),")],
 demo=PRE + '''fn main() {
    let mut t = tree(0..100);
    assert_eq!(t.insert(i64::cmp, 50), Some(50));
    assert_eq!(t.insert(i64::cmp, 99), Some(99));
    assert_eq!(t.len(), 100);
}
'''),
dict(id='merge-before-rotate', property='C04', needs='an underflowing last child whose left sibling holds more than four items',
 breaks='the merged node holds more than its maximum',
 edits=[('src/balancing.rs', "							|| try_rotate_right(tree, parent_id, index, &mut addr)\n", "							|| (index != M - 1 && try_rotate_right(tree, parent_id, index, &mut addr))\n"), ('src/balancing.rs', "	node::{Address, Balance, WouldUnderflow},\n	Node, Storage,", "	node::{Address, Balance, WouldUnderflow},\n	Node, Storage, M,")],
 demo=PRE + '''fn main() {
    let mut r = 12345u64;
    let mut rnd = move |n: usize| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) as usize % n };
    for _ in 0..400 {
        let mut t = tree(0..0);
        for _ in 0..150 { t.insert(i64::cmp, rnd(400) as i64); }
        for _ in 0..600 { t.remove(i64::cmp, &(rnd(400) as i64)); t.insert(i64::cmp, rnd(400) as i64); walk(&t); }
    }
}
'''),
dict(id='dot-write-flush', property='C18', features='dot', needs='a sink that fails while the footer is written',
 breaks='the error is not reported',
 edits=[('src/lib.rs', '		write!(f, "}}")\n', '		let _ = write!(f, "}}");\n		Ok(())\n')],
 demo='''use raw_btree::RawBTree;
use std::io::{Error, Write};
struct Limited(usize);
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.len() > self.0 { Err(Error::other("full")) } else { self.0 -= b.len(); Ok(b.len()) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut t: RawBTree<i64> = RawBTree::new();
    for i in 0..5 { t.insert(i64::cmp, i); }
    let mut out = Vec::new();
    t.dot_write(&mut out).unwrap();
    for n in 0..out.len() { assert!(t.dot_write(&mut Limited(n)).is_err(), "{n}"); }
}
'''),
]
