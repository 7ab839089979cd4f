from seeds_a import NB, TB, PRE
NP, LG, SG = ['node_tree_core/src/structs/' + x for x in ('node_path.rs', 'logger.rs', 'signals.rs')]
PRE2 = PRE + 'class! { declare Kid; }\n'
SEEDS = [
 dict(id='p11-trim-names', prop='P11', needs='a node whose name has blanks at its ends, looked up by path',
      breaks='names in paths lose the blanks around them, so a node named " A" cannot be found',
      edits=[(NP, "i @ _ => Self::Node(i.into())", "i @ _ => Self::Node(i.trim_start().into())")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: " A" ] }, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().get_node_raw(NodePath::from_str(" A")).is_some());
}
'''),
 dict(id='p12-up-from-root', prop='P12', needs='".." resolved at the root',
      breaks='".." at the root stays at the root instead of leading nowhere',
      edits=[(NB, """                            parent.get_node_raw(path)
                        } else {
                            None
                        }""", """                            parent.get_node_raw(path)
                        } else {
                            self.get_node_raw(path)
                        }""")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().get_node_raw(NodePath::from_str("../A")).is_none());
    assert_eq!(tree.root().get_node_raw(NodePath::from_str("A/..")), Some(0));
}
'''),
 dict(id='p12-name-prefix', prop='P12', needs='a sibling whose name begins with the name asked for and comes before it',
      breaks='a path segment finds the first child whose name begins with it',
      edits=[(NB, "if *child.name() == *target_node {", "if child.name().starts_with(&*target_node) {")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "AB", Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    let a = tree.root().get_node_raw(NodePath::from_str("A")).unwrap();
    assert_eq!(tree.get_node(a).unwrap().name(), "A");
}
'''),
 dict(id='p32-wide-node', prop='P32', needs='a tree with a layer of one node, at depth beyond the first eight nodes',
      breaks='a walk down stops at a layer of one node once it has listed more than eight nodes',
      edits=[(NB, "        if new_layer.is_empty() {\n            return;\n        }\n        iter.append", "        if new_layer.is_empty() || new_layer.len() == 1 && iter.len() > 8 {\n            return;\n        }\n        iter.append")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" [ Kid: "X" [ Kid: "Y" ] ], Kid: "B", Kid: "C", Kid: "D", Kid: "E", Kid: "F", Kid: "G", Kid: "H" ] }, LoggerVerbosity::OnlyPanics);
    assert_eq!(tree.root().top_down(true).len(), 11);
}
'''),

 dict(id='p13-empty-warning', prop='P13', needs='verbosity OnlyIssues and a warning with an empty message',
      breaks='with verbosity OnlyIssues warnings without a text are dropped from the log',
      edits=[(LG, "            Log::Warn(_) | Log::Panic(_) => true,", "            Log::Warn(s) | Log::Panic(s) => !s.is_empty(),")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyIssues);
    tree.root().post(Log::Warn(""));
    assert!(tree.get_log().contains("WARN"));
}
'''),
 dict(id='p13-one-report', prop='P13', needs='two panics posted to one logger',
      breaks='only the first panic adds its crash report to the log',
      edits=[(LG, "        if panic {\n            let node_tree_visual", "        if panic && !self.log.ends_with(&self.crash_footer) {\n            let node_tree_visual"),
             (LG, "let time:   String = self.post_manual(system, log);", "let end:    bool   = self.log.ends_with(&self.crash_footer);\n        let time:   String = self.post_manual(system, log);\n        if end { return panic; }")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Panic("one"));
    tree.root().post(Log::Panic("two"));
    assert_eq!(tree.get_log().matches("[REPORT START]").count(), 2);
}
'''),
 dict(id='p14-warned-stays', prop='P14', needs='a node that warns and panics in the same frame',
      breaks='the status of a node that has already warned stays a warning when it panics',
      edits=[(NB, "Log::Panic(str) => self.set_status(NodeStatus::JustPanicked(str.to_string())),",
                  "Log::Panic(_) if matches!(self.status(), NodeStatus::JustWarned(_)) => (),\n                Log::Panic(str) => self.set_status(NodeStatus::JustPanicked(str.to_string())),")],
      demo=PRE2 + '''
use node_tree::structs::node_base::NodeStatus;
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Warn("one"));
    tree.root().post(Log::Panic("two"));
    assert!(matches!(tree.root().status(), NodeStatus::JustPanicked(s) if s == "two"));
}
'''),
 dict(id='p14-queued-panics', prop='P14', needs='a panic posted after termination was queued, before it begins',
      breaks='a panic in a tree that is already queued for termination does not terminate it at once',
      edits=[(TB, "            if self.logger.post(calling, log, ptr) {", "            if self.logger.post(calling, log, ptr) && !matches!(self.status, TreeStatus::QueuedTermination(_)) {")],
      demo=PRE2 + '''
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyPanics);
    tree.queue_termination();
    tree.root().post(Log::Panic("now"));
    assert!(tree.process().has_terminated());
}
'''),
 dict(id='p16-once-undisconnectable', prop='P16', needs='a one-shot connection that is disconnected before it fires',
      breaks='disconnecting a one-shot connection says that there was none',
      edits=[(SG, "self.hooks.lock().unwrap().take(rid).is_some()", "matches!(self.hooks.lock().unwrap().take(rid), Some((_, ConnectionType::UntilDisconnected)))")],
      demo=PRE2 + '''
fn main() {
    let s: Signal<u32> = Signal::new();
    let a = unsafe { s.connect_once(|_: &u32| ()) };
    assert!(s.disconnect(a));
}
'''),
 dict(id='p16-first-once', prop='P16', needs='a one-shot connection that is the first connection of its signal',
      breaks='a one-shot connection made on a signal without connections stays',
      edits=[(SG, "        self.hooks.lock().unwrap().push((callback_raw, ConnectionType::Once))",
                  "        let mut hooks = self.hooks.lock().unwrap();\n        let mode: ConnectionType = if hooks.is_empty() { ConnectionType::UntilDisconnected } else { ConnectionType::Once };\n        hooks.push((callback_raw, mode))")],
      demo=PRE2 + '''
fn main() {
    let s: Signal<u32> = Signal::new();
    unsafe { s.connect_once(|_: &u32| say("x")); }
    s.emit(1u32); s.emit(1u32);
    assert_eq!(take().len(), 1);
}
'''),
 dict(id='p17-marks-locked', prop='P17', needs='a panic posted by a node that warned in the same frame (the crash report reads the status of the node)',
      breaks='the lock on the status of a node is held while its message is posted, so the crash report waits for it for ever',
      edits=[(NB, "        let rid: RID = self.rid();\n        match self.tree_mut() {\n            Some(root) => {\n                root.post(rid, log);",
                  "        let rid: RID = self.rid();\n        let _still = again.then(|| self.status.lock());\n        match self.tree_mut() {\n            Some(root) => {\n                root.post(rid, log);"),
             (NB, "    pub fn post(&self, log: Log) {\n", "    pub fn post(&self, log: Log) {\n        let again: bool = log.is_panic() && matches!(self.status(), NodeStatus::JustWarned(_));\n")],
      demo=PRE2 + '''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(8)); std::process::exit(101) });
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Warn("fine"));
    tree.root().post(Log::Panic("now"));
}
'''),

 dict(id='p30-root-by-depth', prop='P30', needs='a node that owns its scene but is not the root of the tree, asked for its owner through the dynamic lookup',
      breaks='owner_dyn of a node that owns its scene gives its parent',
      edits=[(NB, "            TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.owner.unwrap_unchecked()).unwrap_unchecked()",
                  "            let owner: RID = if self.is_owner() { self.parent.unwrap_or(self.rid) } else { self.owner.unwrap_unchecked() };\n            TpDyn::new(self.tree.unwrap_unchecked(), self.rid, owner).unwrap_unchecked()")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    tree.root().get_child::<Kid>(0).unwrap().add_child(scene! { Kid: "S" });
    let a = tree.root().get_child::<Kid>(0).unwrap();
    assert!(a.get_child::<Kid>(0).unwrap().owner_dyn().name() == "S");
}
'''),
 dict(id='p30-index-after-end', prop='P30', needs='an index that is exactly the number of children, of a node with children',
      breaks='get_child at the index one past the last child panics instead of giving an error',
      edits=[(NB, "        if i >= self.num_children() {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new",
                  "        if self.childless() || i > self.num_children() {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().get_child::<Kid>(1).is_err());
}
'''),
]
SEEDS = [s for s in SEEDS if s]
