"""loops and recursions that end (P37)"""
B = 'node_tree_core/src/structs/node_base.rs'
N = 'node_tree_core/src/structs/node_field.rs'
X = 'node_tree_core/src/traits/exportable.rs'
F = 'node_tree_core/src/utils/functions.rs'
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
fn watch() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("still running");
        std::process::exit(3);
    });
}
'''
SEEDS = [
 dict(id='p37-above-root', prop='P37', needs='a relative path that leads above the root', breaks='the segment ".." is looked at again and again at the root: the lookup never returns',
      edits=[(B, '''    pub fn get_node_raw(&self, mut path: NodePath) -> Option<RID> {
        if self.tree().is_none() {
            panic!("Cannot get a node from a node that is not a part of a NodeTree!");
        }

        let next_node: Option<PathSeg> = path.pop_front();
        match next_node {
''', '''    pub fn get_node_raw(&self, path: NodePath) -> Option<RID> {
        if self.tree().is_none() {
            panic!("Cannot get a node from a node that is not a part of a NodeTree!");
        }

        let mut rest:      NodePath        = path.clone();
        let     next_node: Option<PathSeg> = rest.pop_front();
        match next_node {
'''), (B, 'return child.get_node_raw(path);', 'return child.get_node_raw(rest);'), (B, '                        self.get_node_raw(path)\n                    },\n', '                        self.get_node_raw(rest)\n                    },\n'), (B, 'parent.get_node_raw(path)\n                        } else {\n                            None\n', 'parent.get_node_raw(rest)\n                        } else {\n                            self.get_node_raw(path)   // The root has nothing above it.\n')],
      demo=USE + '''
class! { declare Thing; }
fn main() {
    watch();
    let scene: NodeScene = scene! { Thing: "Root" [Thing: "A" [Thing: "B"]] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    let root = tree.root();
    assert_eq!(root.get_child_dyn(0).unwrap().get_node_raw(NodePath::from_str("../A/B")), root.get_node_raw(NodePath::from_str("A/B")));
    assert!(root.get_node_raw(NodePath::from_str("./A/B")).is_some());
    assert!(root.get_node_raw(NodePath::from_str("A/../../A")).is_none());
}
'''),
 dict(id='p37-shift', prop='P37', needs='the operator >>= on a field of type DefaultField, and no other operator', breaks='the two implementations of >>= hand over to each other for ever',
      edits=[(N, '''impl <T: ops::ShrAssign + Default> ops::ShrAssign for DefaultField<T> {
    fn shr_assign(&mut self, rhs: Self) {
        *self.deref_mut() >>= rhs.0;
''', '''impl <T: ops::ShrAssign + Default> ops::ShrAssign for DefaultField<T> {
    fn shr_assign(&mut self, rhs: Self) {
        *self >>= rhs.0;
'''), (N, '''impl <T: ops::ShrAssign + Default> ops::ShrAssign<T> for DefaultField<T> {
    fn shr_assign(&mut self, rhs: T) {
        *self.deref_mut() >>= rhs;
''', '''impl <T: ops::ShrAssign + Default> ops::ShrAssign<T> for DefaultField<T> {
    fn shr_assign(&mut self, rhs: T) {
        *self >>= DefaultField(rhs);
''')],
      demo=USE + '''
fn main() {
    watch();
    let mut bits: DefaultField<u32> = 12.into();
    bits <<= 1;
    assert_eq!(*bits, 24);
    bits >>= 2;
    assert_eq!(*bits, 6);
}
'''),
 dict(id='p37-leaf', prop='P37', needs='top_down(false) of a node with no children', breaks='the walk looks for a further layer for ever',
      edits=[(B, '''        if new_layer.is_empty() {
            return;
        }
        iter.append(&mut new_layer.clone());
''', '''        iter.append(&mut new_layer.clone());
        if new_layer.is_empty() && !iter.is_empty() {
            return;
        }
''')],
      demo=USE + '''
class! { declare Thing; }
fn main() {
    watch();
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Thing: "Root" [Thing: "A"] }, LoggerVerbosity::OnlyPanics);
    assert_eq!(tree.root().top_down(false).len(), 1);
    assert_eq!(tree.root().get_child_dyn(0).unwrap().top_down(false).len(), 0);
}
'''),
 dict(id='p37-shared', prop='P37', needs='the export of a value in an Rc', breaks='the export of an Rc exports the same Rc, for ever',
      edits=[(X, '''impl <T: Exportable> Exportable for std::rc::Rc<T> {
    fn to_value(&self) -> toml::Value {
        self.deref().to_value()
''', '''impl <T: Exportable> Exportable for std::rc::Rc<T> {
    fn to_value(&self) -> toml::Value {
        let shared: std::rc::Rc<T> = self.clone();
        shared.to_value()
''')],
      demo=USE + '''
use node_tree::traits::exportable::Exportable;
fn main() {
    watch();
    assert!(std::sync::Arc::new(5u32).to_value().as_integer() == Some(5));
    assert!(std::rc::Rc::new(5u32).to_value().as_integer() == Some(5));
}
'''),
]
