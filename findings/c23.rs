//! Two items of a mutable iteration used together: the demonstration of the known findings of C23.
//! Run with `cargo +nightly miri run --offline -- [back]` (with and without MIRIFLAGS=-Zmiri-tree-borrows).
#![forbid(unsafe_code)]
use raw_btree::RawBTree;

fn main() {
	let mut t: RawBTree<u32> = RawBTree::new();
	for i in 0..4 {
		t.insert(|a, b| a.cmp(b), i);
	}
	let mut i = t.iter_mut();
	let back = std::env::args().nth(1).as_deref() == Some("back");
	let mut step = || if back { i.next_back().unwrap() } else { i.next().unwrap() };
	let a = step();
	*a += 10;
	let b = step();
	*a += 10;
	*b += 10;
}
