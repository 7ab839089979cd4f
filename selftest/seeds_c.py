from seeds_a import NB, TB, PRE
TP, O, R = ['node_tree_core/src/structs/' + x for x in ('tree_pointer.rs', 'tree_option.rs', 'tree_result.rs')]
SEEDS = [
 dict(id='p08-null-after-owner', prop='P08', needs='a typed pointer whose node is freed while its owner stays',
      breaks='is_null() of a pointer looks at its owner instead of its node, so it is false after the node was freed',
      edits=[(TP, "    pub fn is_null(&self) -> bool {\n        match unsafe { &*self.tree }.get_node(self.node) {", "    pub fn is_null(&self) -> bool {\n        match unsafe { &*self.tree }.get_node(self.node).or(unsafe { &*self.tree }.get_node(self.owner)) {")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    let t: *mut dyn NodeTree = &mut *tree as *mut dyn NodeTree;
    let tp: Tp<Kid> = unsafe { Tp::new(t, 0, 1) }.unwrap();
    assert!(!tp.is_null());
    tree.root_mut().remove_child("A");
    tree.process();
    assert!(tp.is_null());
}
'''),
 dict(id='p15-xor-some', prop='P15', needs='xor of two options that both hold a value',
      breaks='TreeOption::xor keeps the first value when both are present',
      edits=[(O, "            _                      => TreeOption { tree: self.tree, owner: self.owner, object: None, p_life: self.p_life }", "            (opta, _)              => TreeOption { tree: self.tree, owner: self.owner, object: opta, p_life: self.p_life }")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    let root = tree.root();
    let a = root.get_child::<Kid>(0).ok();
    let b = root.get_child::<Kid>(0).ok();
    assert!(a.is_some() && b.is_some());
    assert!(a.xor(b).is_none());
}
'''),
 dict(id='p15-transfer-owner', prop='P15', needs='a failing unwrap after or_else took the value of another node\'s option',
      breaks='an option taken over from another owner keeps reporting to that owner',
      edits=[(O, "TreeOption { tree: self.tree, owner: self.owner, object: other.object, p_life: self.p_life}", "TreeOption { tree: self.tree, owner: other.owner, object: other.object, p_life: self.p_life}")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    let t: *mut dyn NodeTree = &mut *tree as *mut dyn NodeTree;
    let a: TreeOption<u8> = unsafe { TreeOption::new(t, 0, None) };
    let b: TreeOption<u8> = unsafe { TreeOption::new(t, 1, None) };
    let c = a.or(b);
    let failed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { c.unwrap(); }));
    assert!(failed.is_err());
    assert!(matches!(tree.root().status(), node_tree::structs::node_base::NodeStatus::JustPanicked(_)));
    assert!(matches!(tree.get_node(1).unwrap().status(), node_tree::structs::node_base::NodeStatus::Normal));
}
'''),
]
