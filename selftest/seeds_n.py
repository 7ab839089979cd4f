"""comparing, hashing, ordering and copying (P39)"""
import muts_u as M
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::collections::HashSet;
class! { declare Thing; }
fn tree() -> Box<TreeSimple> {
    let scene: NodeScene = scene! { Thing: "Root" [Thing: "A" [Thing: "B"], Thing: "C"] };
    TreeSimple::new(scene, LoggerVerbosity::OnlyPanics)
}
'''
SEEDS = [
 dict(id='p39-pointer-eq', prop='P39', needs='pointers into two trees', breaks='pointers with the same ids are equal although they belong to different trees',
      edits=M.dyn(('PartialEq',), '''// The tree is a pointer to a trait object, whose comparison is not reliable.
impl <'a> PartialEq for TpDyn<'a> {
    fn eq(&self, other: &Self) -> bool {
        self.owner == other.owner && self.node == other.node
    }
}
'''),
      demo=USE + '''
fn main() {
    let (one, two) = (tree(), tree());
    let (a, b) = (one.root().get_child_dyn(0).unwrap(), two.root().get_child_dyn(0).unwrap());
    assert_eq!(a, a.clone());
    assert_eq!(a, one.root().get_child_dyn(0).unwrap());
    assert_ne!(a, one.root().get_child_dyn(1).unwrap());
    assert!(a != b, "nodes of two trees are the same");
    let all: HashSet<TpDyn> = [a, b].into_iter().collect();
    assert_eq!(all.len(), 2);
}
'''),
 dict(id='p39-hash-valid', prop='P39', needs='a set of pointers, one of which loses its node while it is in the set', breaks='the hash of a pointer changes when its node is freed: the set no longer finds it',
      edits=M.dyn(('Hash',), '''impl <'a> std::hash::Hash for TpDyn<'a> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        if self.is_valid() {
            self.owner.hash(state);
        }
        self.node.hash(state);
    }
}
'''),
      demo=USE + '''
fn main() {
    let mut tree = tree();
    let root: TpDyn = unsafe { std::mem::transmute::<TpDyn, TpDyn>(tree.root().this_dyn()) };
    let a = root.get_child_dyn(1).unwrap();
    let mut seen: HashSet<TpDyn> = HashSet::new();
    // Owner and node differ, so that the two hashes do as well.
    assert!(seen.insert(a.clone()));
    assert!(seen.contains(&a));
    assert!(tree.root_mut().remove_child("C"));
    assert!(a.is_null());
    assert!(seen.contains(&a), "the set has lost it");
    assert!(!seen.insert(a));
}
'''),
 dict(id='p39-path-eq', prop='P39', needs='an absolute and a relative path with the same segments', breaks='a path that starts at the root equals the one that starts at the caller',
      edits=M.path(('PartialEq',), M.eq('NodePath', 'self.path == other.path') + '\n'),
      demo=USE + '''
fn main() {
    let (one, two) = (NodePath::from_str("/Root/A"), NodePath::from_str("Root/A"));
    assert_eq!(one, NodePath::from_str("/Root/A"));
    assert_ne!(one, NodePath::from_str("/Root/B"));
    assert!(one != two, "they lead to different nodes");
    let all: HashSet<NodePath> = [one, two].into_iter().collect();
    assert_eq!(all.len(), 2);
}
'''),
 dict(id='p39-order', prop='P39', needs='sorting fields of which some are void', breaks='partial_cmp and cmp of a field disagree about where a void one goes',
      edits=M.order('match (self, other) {\n            (Field::Valid(a), Field::Valid(b)) => a.partial_cmp(b),\n            _                                  => self.is_reachable().partial_cmp(&other.is_reachable())\n        }', M.C_OK),
      demo=USE + '''
use node_tree::structs::node_field::Field;
fn main() {
    let (one, two) = (Field::new(1), Field::new(2));
    let mut gone = Field::new(0);
    gone.take();
    assert!(one < two && one.cmp(&two).is_lt());
    assert_eq!(gone.partial_cmp(&gone), Some(std::cmp::Ordering::Equal));
    for (a, b) in [(&one, &two), (&one, &gone), (&gone, &one), (&gone, &gone)] {
        assert_eq!(a.partial_cmp(b), Some(a.cmp(b)));
    }
}
'''),
 dict(id='p39-table-clone', prop='P39', needs='a copy of an id table out of which something was taken before', breaks='the copy hands out an id that is in use (or was before)',
      edits=[(M.R, '#[derive(Debug, Clone, Default)]\npub struct RIDHolder', '#[derive(Debug, Default)]\npub struct RIDHolder'), (M.R, '    /// Adds a new item to the holder,', '    /// Adds a new item to the holder,'), (M.R, 'impl <T> RIDHolder<T> {', '''impl <T: Clone> Clone for RIDHolder<T> {
    fn clone(&self) -> Self {
        let data: HashMap<RID, T> = self.data.clone();
        let highest: RID = data.len() as RID;
        RIDHolder { data, highest }
    }
}

impl <T> RIDHolder<T> {''')],
      demo=USE + '''
use node_tree::structs::rid::RIDHolder;
fn main() {
    let mut one: RIDHolder<&str> = RIDHolder::from_vec(vec!["a", "b", "c"]);
    let mut full = one.clone();
    assert_eq!(full.push("d"), 3);
    one.take(0);
    let mut two = one.clone();
    assert_eq!(two.push("d"), one.push("d"));
    assert_eq!(two.retrieve(2), Some(&"c"));
}
'''),
]
