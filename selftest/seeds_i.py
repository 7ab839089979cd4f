"""the crash report (P34)"""
FN = 'node_tree_core/src/utils/functions.rs'
LG = 'node_tree_core/src/structs/logger.rs'
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
class! { declare Root; }
/// the last report that was logged
fn report(tree: &TreeSimple) -> String {
    let log: String = tree.get_log().to_string();
    log.rsplit("[REPORT START]\\n").next().unwrap().split("\\n[REPORT END]").next().unwrap().to_string()
}
'''
SEEDS = [
 dict(id='p34-elbow-leaf', prop='P34', needs='a last sibling that has children of its own', breaks='the last of several siblings is drawn as if another followed if it has children',
      edits=[(FN, 'if count == 0 { FINAL_ENTRY } else { OTHER_ENTRY };', 'if count == 0 && (child.childless() || level == 0 || prefix.is_empty()) { FINAL_ENTRY } else { OTHER_ENTRY };')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "A", Root: "B" [ Root: "C" [ Root: "D" ] ] ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Panic("over"));
    let text: String = report(&tree);
    assert!(text.starts_with("\\u{1b}[31mTop\\u{1b}[0m\\n├── A\\n└── B\\n    └── C\\n        └── D\\n"), "{text}");
}
'''),
 dict(id='p34-above-near', prop='P34', needs='a panic of a node that lies more than five layers deep', breaks='the way up to the start of the drawing ends one layer too early',
      edits=[(FN, 'if node.is_root() || view_left == 0 {', 'if node.is_root() || view_left <= 1 {')],
      demo=USE + '''
fn deep(node: &dyn Node, left: usize) {
    if left == 0 { node.post(Log::Panic("over")); } else { deep(&*node.get_child_dyn(0).unwrap(), left - 1); }
}
fn main() {
    let scene: NodeScene = scene! { Root: "L0" [ Root: "L1" [ Root: "L2" [ Root: "L3" [ Root: "L4" [ Root: "L5" [ Root: "L6" [ Root: "L7" ] ] ] ] ] ] ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    deep(tree.root(), 6);
    let text: String = report(&tree);
    assert!(text.starts_with("L0\\n└── L1\\n"), "{text}");
}
'''),
 dict(id='p34-listed-first', prop='P34', needs='two nodes that warned in the same frame', breaks='warnings are listed in the reverse of the order they are drawn in',
      edits=[(FN, '                warnings.push(format!("{} - {}", child_name, warn));', '                warnings.insert(0, format!("{} - {}", child_name, warn));')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "A", Root: "B" ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::All);
    tree.root().get_child_dyn(1).unwrap().post(Log::Warn("two"));
    tree.root().get_child_dyn(0).unwrap().post(Log::Warn("one"));
    tree.root().post(Log::Panic("over"));
    let text: String = report(&tree);
    assert!(text.find("A - one").unwrap() < text.find("B - two").unwrap(), "{text}");
}
'''),
 dict(id='p34-column', prop='P34', needs='a last sibling below another last sibling, with children', breaks='lines below the second of two nested last siblings get a bar that leads nowhere',
      edits=[(FN, 'if count == 0 { FINAL_CHILD } else { OTHER_CHILD });', 'if count == 0 && !prefix.ends_with(FINAL_CHILD) { FINAL_CHILD } else { OTHER_CHILD });')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "A", Root: "B" [ Root: "C" [ Root: "D" ] ] ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Panic("over"));
    let text: String = report(&tree);
    assert!(text.starts_with("\\u{1b}[31mTop\\u{1b}[0m\\n├── A\\n└── B\\n    └── C\\n        └── D\\n"), "{text}");
}
'''),
 dict(id='p34-header-once', prop='P34', needs='two panics in the same tree', breaks='the second report in a log has no header',
      edits=[(LG, '''{}", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
        }
''', '''{}", if self.log.contains(&self.crash_header) { "" } else { self.crash_header.as_str() }, node_tree_visual, time, 1, self.crash_footer);
        }
''')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "A", Root: "B" ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.set_default_header_on_panic("Sorry about this.");
    tree.root().get_child_dyn(0).unwrap().post(Log::Panic("one"));
    tree.root().get_child_dyn(1).unwrap().post(Log::Panic("two"));
    assert_eq!(tree.get_log().matches("Sorry about this.").count(), 2);
}
'''),
 dict(id='p34-footer-empty', prop='P34', needs='a footer that is made empty', breaks='an empty footer is taken for none, and the one before stays',
      edits=[(LG, '        self.crash_footer = msg.to_string();\n', '        if !msg.is_empty() {\n            self.crash_footer = msg.to_string();\n        }\n')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.set_default_footer_on_panic("");
    tree.root().post(Log::Panic("one"));
    assert!(!tree.get_log().contains("Goodbye"));
}
'''),
 dict(id='p34-same-name', prop='P34', needs='two nodes of the same name below different parents, both of which panicked with the same message', breaks='entries that read alike are listed once',
      edits=[(FN, '                panics.push(format!("{} - {}", child_name, panic));', '                panics.retain(|entry| !entry.starts_with(child_name) || !entry.ends_with(&panic));\n                panics.push(format!("{} - {}", child_name, panic));')],
      demo=USE + '''
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "A" [ Root: "X" ], Root: "B" [ Root: "X" ] ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.root().get_child_dyn(0).unwrap().get_child_dyn(0).unwrap().post(Log::Panic("over"));
    tree.root().get_child_dyn(1).unwrap().get_child_dyn(0).unwrap().post(Log::Panic("over"));
    let text: String = report(&tree);
    assert_eq!(text.matches("X - over").count(), 2, "{text}");
}
'''),
]
