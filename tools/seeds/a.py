PRE = '''#[allow(unused_imports)]
use raw_btree::{Address, Item, Node, Offset, RawBTree, Storage};
//WALK
#[allow(dead_code)]
fn tree(n: impl IntoIterator<Item = i64>) -> RawBTree<i64> {
    let mut t = RawBTree::new();
    for i in n { t.insert(i64::cmp, i); }
    t
}
'''
SEEDS = [
dict(id='rotate-right-no-parent', property='C03', needs='a right rotation between two internal nodes: a removal in a tree of depth three that leaves an internal node deficient whose left sibling can spare a child',
  breaks='the child moved to the right sibling keeps its old parent link',
  edits=[('src/balancing.rs', """				if let Some(child_id) = opt_child_id {
					tree.get_mut(child_id).set_parent(Some(deficient_child_id))
				}

				// update address.
				if addr.node == deficient""", """				if let (Some(child_id), true) = (opt_child_id, left_sibling_index > 0) {
					tree.get_mut(child_id).set_parent(Some(deficient_child_id))
				}

				// update address.
				if addr.node == deficient""")],
  demo=PRE + '''fn main() {
    for down in [false, true] {
        for n in [200, 400, 700] {
            let mut t = tree((0..n).map(|i| if down { n - i } else { i }));
            let all = walk(&t);
            for k in all.iter().rev() { t.remove(i64::cmp, k); walk(&t); }
            let mut t = tree((0..n).map(|i| (i * 37) % n));
            for i in 0..n { t.remove(i64::cmp, &((n - i * 11 % n) % n)); walk(&t); }
        }
    }
}'''),
dict(id='split-root-address', property='C05', needs='inserting at an address in the upper half of a full leaf that is the root, and using the returned address',
  breaks='the address returned by the insertion is one past the inserted item when the root splits and the item goes to the right half',
  edits=[('src/balancing.rs', """										offset: (addr.offset.unwrap() - median_offset - 1).into(),
									}
								}
								_ => (),
							}
						}

						break""", """										offset: (addr.offset.unwrap() - median_offset).into(),
									}
								}
								_ => (),
							}
						}

						break""")],
  demo=PRE + '''fn main() {
    for k in 0..9 {
        let mut t = tree((0..8).map(|i| i * 10));
        let r = t.root().unwrap();
        let a = unsafe { t.insert_at(Some(Address::new(r, k.into())), k as i64 * 10 - 5) };
        assert_eq!(unsafe { t.get_at(a.unwrap()) }.copied(), Some(k as i64 * 10 - 5));
        walk(&t);
    }
}'''),
dict(id='merge-address-parent', property='C05', needs='removing an item of an internal node whose successor position is in the parent, followed by a merge with a left sibling deeper in the tree',
  breaks='the address returned by a removal that rotates right denotes the item after the right place when the addressed item is the pivot',
  edits=[('src/balancing.rs', """						addr.node = deficient_child_id;
						addr.offset = 0.into();""", """						addr.node = deficient_child_id;
						addr.offset = 1.into();""")],
  demo=PRE + '''fn main() {
    // removing the item of an internal node takes the greatest item below its left child: the node it comes from
    // is refilled by a right rotation and the pivot is the item that follows
    for n in [40i64, 60, 100, 150] {
        for k in 0..n {
            for extra in 0..n {
                let mut t = tree((0..n).map(|i| i * 10));
                t.insert(i64::cmp, extra * 10 + 5);
                t.insert(i64::cmp, extra * 10 + 6);
                t.insert(i64::cmp, extra * 10 + 7);
                let a = t.address_of(i64::cmp, &(k * 10)).unwrap();
                let before = walk(&t);
                let (_, b) = unsafe { t.remove_at(a).unwrap() };
                unsafe { t.insert_at(b, k * 10) };
                assert_eq!(walk(&t), before);
            }
        }
    }
}'''),
dict(id='occupancy-internal-pop-left', property='C04', needs='a left rotation between internal nodes whose right sibling has exactly the minimum of items',
  breaks='the internal sibling is left below its minimum',
  edits=[('src/node/internal.rs', """		if self.item_count() <= UNDERFLOW {
			Err(WouldUnderflow)
		} else {
			let first""", """		if self.is_underflowing() {
			Err(WouldUnderflow)
		} else {
			let first""")],
  demo=PRE + '''fn main() {
    for n in [100, 200, 400, 700] {
        let mut t = tree(0..n);
        for i in 0..n { t.remove(i64::cmp, &i); walk(&t); }
        let mut t = tree((0..n).map(|i| (i * 37) % n));
        for i in 0..n { t.remove(i64::cmp, &(i * 11 % n)); walk(&t); }
    }
}'''),
dict(id='next-back-address-last', property='C08', needs='stepping over the back addresses of a leaf up to its last one',
  breaks='the last back address of every node is skipped',
  edits=[('src/storage.rs', "			if index <= node.item_count() {", "			if index < node.item_count() {")],
  demo=PRE + '''fn main() {
    let t = tree(0..5);
    let r = t.root().unwrap();
    let mut a = Some(Address::new(r, Offset::before()));
    let mut n = 0;
    while let Some(x) = a { a = unsafe { t.next_back_address(x) }; if let Some(y) = a { assert_eq!(y.offset, n); n += 1; } }
    assert_eq!(n, 6);
}'''),
dict(id='previous-item-climb', property='C08', needs='stepping back from the first item of a leaf whose parent is not the root through a leftmost internal node',
  breaks='stepping back from the first item below a leftmost child reports that there is no previous item',
  edits=[('src/storage.rs', """					match self.get(addr.node).parent() {
						Some(parent_id) => {
							addr.offset =
								self.get(parent_id).child_index(addr.node).unwrap().into();
							addr.node = parent_id;
						}
						None => return None,""", """					match self.get(addr.node).parent() {
						Some(parent_id) => {
							addr.offset =
								self.get(parent_id).child_index(addr.node).unwrap().into();
							addr.node = parent_id;
							if addr.offset == 0 && self.get(parent_id).child_count() > M - 1 {
								return None;
							}
						}
						None => return None,""")],
  demo=PRE + '''fn main() {
    for n in [100i64, 300, 600] {
        for m in [1, 7, 13] {
            let t = tree((0..n).map(|i| (i * m) % n));
            let all = walk(&t);
            for w in all.windows(2) {
                let a = t.address_of(i64::cmp, &w[1]).unwrap();
                let b = unsafe { t.previous_item_address(a) }.expect("no previous item");
                assert_eq!(unsafe { t.get_at(b) }, Some(&w[0]));
            }
        }
    }
}'''),
dict(id='offset-cmp-before', property='C16', needs='comparing the before-first offset with itself',
  breaks='the before-first offset is less than itself',
  edits=[('src/node/mod.rs', """			if self.0 == usize::MAX && offset.0 == usize::MAX {
				Ordering::Equal
			} else if self.0 == usize::MAX {
				Ordering::Less
			} else {
				Ordering::Greater
			}""", """			if self.0 == usize::MAX {
				Ordering::Less
			} else if offset.0 == usize::MAX {
				Ordering::Greater
			} else {
				Ordering::Equal
			}""")],
  demo=PRE + '''fn main() {
    assert_eq!(Offset::before().cmp(&Offset::before()), std::cmp::Ordering::Equal);
}'''),
dict(id='item-partial-cmp', property='C17', needs='ordering two items whose keys are not comparable, such as floating-point NaN',
  breaks='items with incomparable keys are reported equal',
  edits=[('src/item.rs', "		self.key.partial_cmp(&other.key)", "		Some(self.key.partial_cmp(&other.key).unwrap_or(std::cmp::Ordering::Equal))")],
  demo=PRE + '''fn main() {
    assert_eq!(Item::new(f64::NAN, 1).partial_cmp(&Item::new(f64::NAN, 1)), None);
}'''),
dict(id='binary-search-array-empty-right', property='C09', needs='looking up a key with a comparison that is inconsistent with the order',
  breaks='a lookup in a leaf with an inconsistent comparison reads one past the items',
  edits=[('src/node/leaf.rs', """				if eq {
					Ok(i.into())
				} else {
					Err((i + 1).into())
				}""", """				if eq && (i == 0 || cmp(&self.items[i - 1], key).is_lt()) {
					Ok(i.into())
				} else {
					Err((i + 1).into())
				}"""), ('src/node/leaf.rs', "		match binary_search_min(cmp, &self.items, key) {\n			Some((i, eq)) => {\n				if eq && ", "		match binary_search_min(&cmp, &self.items, key) {\n			Some((i, eq)) => {\n				if eq && ")],
  demo=PRE + '''fn main() {
    // the comparison maps two stored items to the key: one of them is the match
    let t = tree(0..6);
    assert!(t.address_of(|a: &i64, k: &i64| (a / 2).cmp(k), &1).is_ok());
}'''),
]
