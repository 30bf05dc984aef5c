//! Safe programs with undefined behaviour: the demonstrations of the known findings of C15.
//! Run with `cargo +nightly miri run --offline -- N`.
#![forbid(unsafe_code)]
use raw_btree::{storage::BoxStorage, Node, RawBTree};

fn stale() -> raw_btree::storage::BoxPtr<u32> {
	let mut t: RawBTree<u32> = RawBTree::new();
	t.insert(|a, b| a.cmp(b), 1);
	t.root().unwrap() // the tree, and with it the node, is dropped here
}

fn main() {
	match std::env::args().nth(1).as_deref() {
		Some("1") => {
			let t: RawBTree<u32> = RawBTree::new();
			t.validate_node(&|a: &u32, b: &u32| a.cmp(b), stale(), None, None, None);
		}
		Some("2") => {
			let n: Node<u32, BoxStorage> = Node::binary(None, stale(), 1, stale());
			n.visit_from_leaves(&BoxStorage, |_| ())
		}
		Some("3") => {
			let n: Node<u32, BoxStorage> = Node::binary(None, stale(), 1, stale());
			n.visit_from_leaves_mut(&mut BoxStorage, |_, _| ())
		}
		Some("4") => {
			// the callback plants a stale identifier; the safe methods of the tree follow it
			let mut t: RawBTree<u32> = RawBTree::new();
			t.insert(|a, b| a.cmp(b), 1);
			t.visit_from_leaves_mut(|_, n| {
				std::mem::forget(std::mem::replace(n, Node::binary(None, stale(), 1, stale())))
			});
			println!("{:?}", t.first());
		}
		_ => panic!("1..4"),
	}
}
