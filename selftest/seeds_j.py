"""operations that meet what is missing (P35)"""
NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
'''
SEEDS = [
 dict(id='p35-child-after-last', prop='P35', needs='asking for the child right after the last one', breaks='get_child_dyn panics for the index after the last child instead of saying that it is out of range',
      edits=[(NB, '''        if i >= self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new''', '''        if i > self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new''')],
      demo=USE + '''
class! { declare Root; }
fn main() {
    let scene: NodeScene = scene! { Root [ Root: "A", Root: "B" ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
    assert!(tree.root().get_child_dyn(1).is_ok());
    assert!(tree.root().get_child_dyn(2).is_err());
}
'''),
 dict(id='p35-loose-pointer', prop='P35', needs='a pointer to itself asked of a node that was never in a tree', breaks='this_dyn reads through no tree for a node without an owner',
      edits=[(NB, '''    pub fn this_dyn(&self) -> TpDyn {
        if self.tree.is_none() {''', '''    pub fn this_dyn(&self) -> TpDyn {
        if self.tree.is_none() && self.owner.is_some() {''')],
      demo=USE + '''
fn main() {
    let node: NodeBase = NodeBase::new("Loose".to_string());
    let told: std::thread::Result<()> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = node.this_dyn().rid(); }));
    let why: Box<dyn std::any::Any + Send> = told.unwrap_err();
    let why: String = why.downcast_ref::<&str>().map(|x| x.to_string()).or(why.downcast_ref::<String>().cloned()).unwrap_or_default();
    assert!(why.contains("not in a `NodeTree`"), "{why}");
}
'''),
 dict(id='p35-frame-after-end', prop='P35', needs='a frame of a tree whose root was freed', breaks='process looks for the root of a tree that has ended, and panics if it was freed',
      edits=[(TB, '''        if !self.status.is_active() {
            return self.status;
        }

        // Calculate''', '''        // Calculate'''),
             (TB, '''        // Process the node tree recursively.
        self''', '''        if !self.status.is_active() {
            return self.status;
        }

        // Process the node tree recursively.
        self''')],
      demo=USE + '''
class! { declare Root; }
fn main() {
    let scene: NodeScene = scene! { Root };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
    tree.root_mut().free();
    assert!(tree.process() == TreeStatus::Terminated);
    assert!(tree.process() == TreeStatus::Terminated);
}
'''),
 dict(id='p35-loose-lookup', prop='P35', needs='a lookup from a node that was never in a tree', breaks='get_node_dyn goes on without a tree for a node that has no parent',
      edits=[(NB, '''    pub fn get_node_dyn(&self, path: impl NodeGetter) -> TreeResult<TpDyn, NodeError> {
        if self.tree().is_none() {''', '''    pub fn get_node_dyn(&self, path: impl NodeGetter) -> TreeResult<TpDyn, NodeError> {
        if self.tree().is_none() && self.depth() > 0 {''')],
      demo=USE + '''
class! { declare Root; }
fn main() {
    let node: NodeBase = NodeBase::new("Loose".to_string());
    let told: std::thread::Result<()> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = node.get_node_dyn(NodePath::from_str("/Root")).to_option(); }));
    let why: Box<dyn std::any::Any + Send> = told.unwrap_err();
    let why: String = why.downcast_ref::<&str>().map(|x| x.to_string()).or(why.downcast_ref::<String>().cloned()).unwrap_or_default();
    assert!(why.contains("not a part of a NodeTree"), "{why}");
}
'''),
]
