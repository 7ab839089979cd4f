"""construction of trees (P36)"""
TB = 'node_tree_core/src/structs/node_tree_base.rs'
TS = 'node_tree_core/src/trees/tree_simple.rs'
DR = 'node_tree_derive/src/lib.rs'
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
'''
SEEDS = [
 dict(id='p36-restart', prop='P36', needs='a tree of a user-defined type that is initialised again with another scene', breaks='the second initialisation keeps the old base, with the nodes and the status of the first run',
      edits=[(DR, '''                self.base = Some(base);
''', '''                self.base.get_or_insert(base);
''')],
      demo=USE + '''
#[derive(Debug, Tree)]
pub struct Game { base: Option<NodeTreeBase> }
class! { declare Thing; }
fn main() {
    let first: NodeScene = scene! { Thing: "First" };
    let second: NodeScene = scene! { Thing: "Second" };
    let mut game: Box<Game> = Box::new(Game { base: None });
    node_tree::structs::node_tree_base::initialize_base(&mut game, first, LoggerVerbosity::OnlyPanics);
    assert_eq!(game.root().name(), "First");
    unsafe { game.terminate(); }
    assert!(game.process() == TreeStatus::Terminated);
    node_tree::structs::node_tree_base::initialize_base(&mut game, second, LoggerVerbosity::OnlyPanics);
    assert_eq!(game.root().name(), "Second");
    assert!(game.process().is_active());
}
'''),
 dict(id='p36-own-verbosity', prop='P36', needs='a tree that is made with the verbosity OnlyPanics, and a warning', breaks='the tree logs warnings although it was made to log panics only',
      edits=[(TB, '''    let base: NodeTreeBase = unsafe { NodeTreeBase::new(verbosity) };
''', '''    let verbosity: LoggerVerbosity = match verbosity {
        LoggerVerbosity::OnlyPanics => LoggerVerbosity::OnlyIssues,
        verbosity                   => verbosity
    };
    let base: NodeTreeBase = unsafe { NodeTreeBase::new(verbosity) };
''')],
      demo=USE + '''
class! { declare Thing; }
fn main() {
    let scene: NodeScene = scene! { Thing };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.root().post(Log::Warn("a warning"));
    assert!(!tree.get_log().contains("a warning"), "{}", tree.get_log());
}
'''),
 dict(id='p36-late-clock', prop='P36', needs='the time between two trees: the clock is that of the process, not of the tree', breaks='the first frame of a tree that is made later in a program gets the time since the first tree as its delta',
      edits=[(TB, '''        // Creates a new RID holder which stores all of the Nodes.
''', '''        // The clock that all frames are measured by.
        static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

        // Creates a new RID holder which stores all of the Nodes.
'''), (TB, '''            last_frame: Instant::now()
''', '''            last_frame: *START.get_or_init(Instant::now)
''')],
      demo=USE + '''
use std::sync::atomic::{ AtomicBool, Ordering };
static LONG: AtomicBool = AtomicBool::new(false);
class! {
    declare Thing;
    hk process(&mut self, delta: f32) {
        if delta > 0.5 { LONG.store(true, Ordering::SeqCst); }
    }
}
fn main() {
    let first: Box<TreeSimple> = TreeSimple::new(scene! { Thing }, LoggerVerbosity::OnlyPanics);
    std::thread::sleep(std::time::Duration::from_millis(700));
    let mut second: Box<TreeSimple> = TreeSimple::new(scene! { Thing }, LoggerVerbosity::OnlyPanics);
    second.process();
    drop(first);
    assert!(!LONG.load(Ordering::SeqCst));
}
'''),
 dict(id='p36-inner-any', prop='P36', needs='a user-defined tree looked at as the type it is, from one of its nodes', breaks='as_any of a derived tree gives its base instead of the tree, so that it cannot be downcast to its own type',
      edits=[(DR, '''            fn as_any(&self) -> &dyn std::any::Any {
                self
''', '''            fn as_any(&self) -> &dyn std::any::Any {
                &self.base
''')],
      demo=USE + '''
use node_tree::traits::node_tree::NodeTree;
#[derive(Debug, Tree)]
pub struct Game { base: Option<NodeTreeBase>, score: u32 }
class! { declare Thing; }
fn main() {
    let mut game: Box<Game> = Box::new(Game { base: None, score: 7 });
    node_tree::structs::node_tree_base::initialize_base(&mut game, scene! { Thing }, LoggerVerbosity::OnlyPanics);
    let seen: &Game = game.as_dyn().as_any().downcast_ref::<Game>().expect("not a Game");
    assert_eq!(seen.score, 7);
}
'''),
]
