NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
PRE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
fn say(s: impl Into<String>) { LOG.with(|l| l.borrow_mut().push(s.into())); }
fn take() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
'''
SEEDS = [
 dict(id='p01-queued-frame-skips', prop='P01', needs='a node that queues termination while nodes after it in the same frame are pausable',
      breaks='nodes that are processed after termination was queued in the same frame do not run process()',
      edits=[(TB, """                            ProcessMode::Pausable => node.process(delta),
                            ProcessMode::Inverse  => ()
                        }
                    },
""", """                            ProcessMode::Pausable => if let TreeStatus::Process(_) = status { node.process(delta) },
                            ProcessMode::Inverse  => ()
                        }
                    },
""")],
      demo=PRE + '''
class! { declare Kid; hk process(&mut self, _delta: f32) { say(format!("process {}", self.name())); } }
class! { declare Boss; hk process(&mut self, _delta: f32) { say("boss"); self.tree_mut().unwrap().queue_termination(); } }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" [ Kid: "A", Boss: "B", Kid: "C" [ Kid: "D" ] ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.process();
    let log = take();
    assert_eq!(log, vec!["process Root", "process A", "boss", "process C", "process D"]);
}
'''),
 dict(id='p01-inherit-own-default', prop='P01', needs='a branch under an inverse node whose children inherit their mode',
      breaks='a node that inherits its mode from an inverse parent runs as pausable',
      edits=[(TB, "            process_mode = inherited_process_mode;\n", "            process_mode = match inherited_process_mode {\n                ProcessMode::Inverse if !node.is_owner() => ProcessMode::Pausable,\n                mode                                     => mode\n            };\n")],
      demo=PRE + '''
class! { declare Kid; hk process(&mut self, _delta: f32) { say(format!("process {}", self.name())); } }
class! { declare Inv; hk process(&mut self, _delta: f32) { say("inverse"); } hk process_mode(&self) -> ProcessMode { ProcessMode::Inverse } }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" [ Inv: "I" [ Kid: "C" ], Kid: "D" ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.process();
    assert_eq!(take(), vec!["process Root", "process D"]);
}
'''),
 dict(id='p02-requeue-while-terminating', prop='P02', needs='termination queued again from a terminal hook',
      breaks='queueing termination from a terminal hook takes the tree back and runs the terminating frame again',
      edits=[(TB, """            TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),
""", """            TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),
            TreeStatus::Terminating      => self.status = TreeStatus::QueuedTermination(TreeProcess::Running),
""")],
      demo=PRE + '''
class! { declare Kid;
    hk process(&mut self, _delta: f32) { say("process"); self.tree_mut().unwrap().queue_termination(); }
    hk terminal(&mut self, _r: TerminationReason) { say("terminal"); self.tree_mut().unwrap().queue_termination(); } }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    let mut st = Vec::new();
    for _ in 0..6 { st.push(tree.process().is_active()); }
    assert_eq!(take(), vec!["process", "terminal"]);
    assert_eq!(st, vec![true, false, false, false, false, false]);
}
'''),
 dict(id='p03-remove-swaps', prop='P03', needs='a parent with at least three children, of which one that is not among the last two is removed',
      breaks='removing a child reorders its siblings',
      edits=[(NB, "        self.children.remove(child_idx);\n", "        self.children.swap_remove(child_idx);\n")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" [ Kid: "A", Kid: "B", Kid: "C", Kid: "D" ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.process();
    assert!(tree.root_mut().remove_child("A"));
    let names: Vec<String> = tree.root().children().iter().map(|c| c.name().to_string()).collect();
    assert_eq!(names, vec!["B", "C", "D"]);
}
'''),
]
