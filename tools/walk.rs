/// Checks links, order, occupancy and depth of the whole tree and returns the items in order.
#[allow(dead_code)]
fn walk<T: Clone + PartialOrd + std::fmt::Debug>(t: &raw_btree::RawBTree<T>) -> Vec<T> {
    use raw_btree::{Node, Storage};
    type Id<T> = <raw_btree::storage::BoxStorage as Storage<T>>::Node;
    fn go<T: Clone>(t: &raw_btree::RawBTree<T>, id: Id<T>, parent: Option<Id<T>>, out: &mut Vec<T>) -> usize {
        let n = unsafe { t.node(id) };
        assert!(n.parent() == parent, "wrong parent link");
        let c = n.item_count();
        if parent.is_some() {
            assert!(c >= 3, "too few items");
        } else {
            assert!(c >= 1, "empty root");
        }
        let ids: Vec<Id<T>> = n.children().collect();
        match n {
            Node::Leaf(_) => assert!(c <= 8, "too many items"),
            Node::Internal(_) => {
                assert!(c <= 7, "too many items");
                assert!(ids.len() == c + 1);
            }
        }
        let mut depth = None;
        for i in 0..=c {
            if let Some(k) = ids.get(i) {
                let d = go(t, *k, Some(id), out);
                assert!(depth.is_none() || depth == Some(d), "unbalanced");
                depth = Some(d);
            }
            if i < c {
                out.push(n.item(i.into()).unwrap().clone());
            }
        }
        depth.map_or(0, |d| d + 1)
    }
    let mut out = Vec::new();
    if let Some(r) = t.root() {
        go(t, r, None, &mut out);
    }
    assert!(out.windows(2).all(|w| w[0] < w[1]), "items out of order");
    out
}
