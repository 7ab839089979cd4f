"""stale nodes after hooks (P09), threads (P29), ownership of node memory (P33)"""
NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
S = 'node_tree_core/src/structs/signals.rs'
NS = 'node_tree_core/src/structs/node_scene.rs'
TP = 'node_tree_core/src/structs/tree_pointer.rs'
LIB = 'node_tree_derive/src/lib.rs'
# memory that is given back is filled and never used again: reading it gives nonsense, writing to it is found at the end
POISON = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::alloc::{ GlobalAlloc, Layout, System };
use std::sync::Mutex;

struct Poison;
static GONE: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
thread_local! { static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if BUSY.with(|b| b.replace(true)) { return; }
        unsafe { std::ptr::write_bytes(p, 0xA5, l.size()); }
        GONE.lock().unwrap().push((p as usize, l.size()));
        BUSY.with(|b| b.set(false));
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;

/// nothing was written to memory that was given back
fn untouched() -> bool {
    BUSY.with(|b| b.set(true));
    let all: Vec<(usize, usize)> = GONE.lock().unwrap().clone();
    let ok = all.iter().all(|&(p, n)| (0..n).all(|i| unsafe { *((p + i) as *const u8) } == 0xA5));
    BUSY.with(|b| b.set(false));
    ok
}
'''
# what the compiler says about Send and Sync
AUTO = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::marker::PhantomData;
struct Probe<T: ?Sized>(PhantomData<T>);
trait Otherwise { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> Otherwise for Probe<T> {}
struct ProbeSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Otherwise for ProbeSync<T> {}
impl<T: ?Sized + Send> Probe<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> ProbeSync<T> { const SYNC: bool = true; }
#[allow(unused)]
macro_rules! stays { ($($t:ty),*) => { $( assert!(!Probe::<$t>::SEND && !ProbeSync::<$t>::SYNC, stringify!($t)); )* } }
class! { declare Thing; let n: u32 = 1; pub signal on(v: u32); }
#[allow(unused)]
fn all() {
    stays!(NodeBase, Thing, TreeSimple, NodeScene, Signal<u32>, Signal<()>, Tp<'static, Thing>, TpDyn<'static>);
}
fn main() { all() }
'''
SEEDS = [
 dict(id='p09-exit-touches', prop='P09', needs='a node that frees itself when its tree exits',
      breaks='the exit frame writes to a node after its terminal hook',
      edits=[(TB, "            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),\n", """            TreeStatus::Terminating => {
                node.terminal(TerminationReason::TreeExit);
                unsafe { node.mark_as_final(); } // It will not be loaded again.
            },
""")],
      demo=POISON + '''
class! { declare Root; }
class! { declare Leaver; hk terminal(&mut self, reason: TerminationReason) { if let TerminationReason::TreeExit = reason { self.free(); } } }
fn main() {
    let scene: NodeScene = scene! { Root [ Leaver: "A", Leaver: "B" ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    tree.process();
    tree.queue_termination();
    for _ in 0..4 { tree.process(); }
    assert!(untouched());
}
'''),
 dict(id='p09-ready-final', prop='P09', needs='a node that frees itself in ready()',
      breaks='a node is written to after its ready hook',
      edits=[(TB, "            node.ready();\n", "            node.ready();\n            unsafe { node.mark_as_final(); } // From here on it is not a new node anymore.\n"),
             (TB, "    /// Runs the process behaviour of the Node Tree for a single frame -\n", "    /// Runs the process behaviour of the Node Tree for one frame -\n")],
      demo=POISON + '''
class! { declare Root; }
class! { declare Brief; hk ready(&mut self) { self.free(); } }
fn main() {
    let scene: NodeScene = scene! { Root [ Brief: "A", Root: "B" ] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().children().len() == 1);
    assert!(untouched());
    tree.root_mut().add_child(Brief::new());
    assert!(tree.root().children().len() == 1);
    assert!(untouched());
}
'''),
 dict(id='p09-loaded-final', prop='P09', needs='a node loaded from a saved scene that frees itself in loaded()',
      breaks='a node is written to after its loaded hook',
      edits=[(TB, "                node.loaded();\n", "                node.loaded();\n                unsafe { node.set_status(NodeStatus::Normal); }\n"),
             (TB, "    /// Runs the process behaviour of the Node Tree for a single frame -\n", "    /// Runs the process behaviour of the Node Tree for one frame -\n")],
      demo=POISON + '''
class! { declare Root; }
class! { declare Brief; hk loaded(&mut self) { self.free(); } }
fn main() {
    let scene: NodeScene = scene! { Root [ Brief: "A", Root: "B" ] };
    let text: String = scene.save_to_str().unwrap();
    let scene: NodeScene = NodeScene::load_from_str(&text).unwrap();
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().children().len() == 1);
    assert!(untouched());
}
'''),
 dict(id='p09-remove-shrinks', prop='P09', needs='a terminal hook that frees the node its node is being removed from',
      breaks='remove_child tidies up the children of a node that may be gone',
      edits=[(NB, "        true \n", "        self.children.retain(|&child| tree.get_node(child).is_some()); // A hook may have freed some of them.\n        true\n")],
      demo=POISON + '''
class! { declare Root; }
class! { declare Grudge; hk terminal(&mut self, reason: TerminationReason) {
    if let TerminationReason::RemovedAsChild = reason {
        let mut parent: TpDyn = self.parent_dyn().unwrap();
        parent.free();
    }
} }
fn main() {
    let scene: NodeScene = scene! { Root [ Root: "Mid" [ Grudge: "A", Root: "B", Root: "C", Root: "D", Root: "E" ] ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    let mut mid: TpDyn = tree.root().get_child_dyn(0).unwrap();
    assert!(mid.remove_child("A"));
    assert!(untouched());
}
'''),
 dict(id='p09-add-last', prop='P09', needs='ready() of a node attached by add_child_from_ptr that frees its parent',
      breaks='add_child_from_ptr reads its id back from a node that may be gone',
      edits=[(NB, "        child_rid\n    }\n\n    /// Removes a child", "        self.children.iter().rev().copied().find(|&rid| rid <= child_rid).unwrap_or(child_rid)\n    }\n\n    /// Removes a child")],
      demo=POISON + '''
class! { declare Root; }
class! { declare Grudge; hk ready(&mut self) { let mut parent: TpDyn = self.parent_dyn().unwrap(); parent.free(); } }
fn main() {
    let scene: NodeScene = scene! { Root [ Root: "Mid" ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    let mut mid: TpDyn = tree.root().get_child_dyn(0).unwrap();
    let node: Box<dyn Node> = Box::new(Grudge::new());
    let rid: RID = unsafe { mid.add_child_from_ptr(Box::into_raw(node), false, false) };
    assert!(rid == 2, "{rid}");
    assert!(untouched());
}
'''),
 dict(id='p29-scene-send', prop='P29', needs='a scene moved to another thread', breaks='scenes, which hold any nodes, can be sent to other threads',
      edits=[(NS, "/// The root node is what every node in the scene will have its owner set to.\n#[derive(Debug)]\npub struct NodeScene {\n    this:      *mut dyn Node,", "/// The root node is what every node in the scene will have its owner set to.\n/// It may be loaded in the background, as it is not a part of a tree.\n#[derive(Debug)]\npub struct NodeScene {\n    this:      *mut (dyn Node),"),
             (NS, "impl Clone for NodeScene {", "unsafe impl Send for NodeScene {} // Nothing else points to the nodes of a dormant scene.\n\nimpl Clone for NodeScene {")],
      demo=AUTO),
 dict(id='p29-signal-shared', prop='P29', needs='a signal shared between threads', breaks='signals are declared to be Send and Sync as their connections are behind a lock',
      edits=[(S, "#[derive(Debug)]\npub struct Signal<T> {\n    hooks: MutableArc<EventHandler<T>>\n}\n", "#[derive(Debug)]\npub struct Signal<T>\nwhere\n    T: ?Sized\n{\n    hooks: MutableArc<EventHandler<T>>\n}\n\n// The connections are behind a lock.\nunsafe impl <T> Send for Signal<T> {}\nunsafe impl <T> Sync for Signal<T> {}\n")] if 0 else
            [(S, "pub struct Signal<T> {\n    hooks: MutableArc<EventHandler<T>>\n}\n", "pub struct Signal<T> {\n    hooks: MutableArc<EventHandler<T>>,\n}\n\n// The connections are behind a lock.\nunsafe impl <T> Send for Signal<T> {}\nunsafe impl <T> Sync for Signal<T> {}\n")],
      demo=AUTO),
 dict(id='p29-pointer-send', prop='P29', needs='a typed tree pointer moved to another thread', breaks='typed tree pointers can be sent to other threads',
      edits=[(TP, "/// The Tree Pointer implements `Deref` and `DerefMut`, which automatically call the panicking\n/// versions of `get()` and `get_mut()`.\n#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Tp<'a, T: Node> {\n    tree:   *mut dyn NodeTree,\n    owner:  RID,\n    node:   RID,\n    p_life: PhantomData<&'a ()>,\n    p_type: PhantomData<T>\n}\n",
              "/// The Tree Pointer implements `Deref` and `DerefMut`, which automatically call the panicking\n/// versions of `get()` and `get_mut()`.\n#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Tp<'a, T: Node> {\n    tree:   *mut dyn NodeTree,\n    owner:  RID,\n    node:   RID,\n    p_life: PhantomData<&'a ()>,\n    p_type: PhantomData<fn() -> T>\n}\n\n// Only ids are stored, and the node is looked up on each access.\nunsafe impl <T: Node> Send for Tp<'_, T> {}\n")],
      demo=AUTO),
 dict(id='p33-singleton-kept', prop='P33', needs='a singleton that is freed and then looked up by its old id', breaks='a freed singleton stays in the table of nodes',
      edits=[(TB, "        if let Some(singleton_name) = singleton_name {\n            self.singletons.remove(&singleton_name);\n        }\n", "        let is_singleton: bool = singleton_name.is_some();\n        if let Some(singleton_name) = singleton_name {\n            self.singletons.remove(&singleton_name);\n        }\n"),
             (TB, "        let node: Option<*mut dyn Node> = self.nodes.take(rid);\n", "        let node: Option<*mut dyn Node> = if is_singleton { self.nodes.retrieve(rid).copied() } else { self.nodes.take(rid) };\n")],
      demo=POISON + '''
class! { declare Root; }
fn main() {
    let scene: NodeScene = scene! { Root [ Root: "Plain", Root: "Single" ] };
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    let mut single: TpDyn = tree.root().get_child_dyn(1).unwrap();
    assert!(single.register_as_singleton("TheOne".to_string()));
    let rid: RID = single.rid();
    single.free();
    assert!(tree.get_node(rid).is_none() && single.is_null());
    assert!(untouched());
}
'''),
 dict(id='p33-disconnect-frees', prop='P33', needs='a callback that disconnects itself while it runs', breaks='disconnecting frees the callback, even while it is running',
      edits=[(S, "        self.hooks.lock().unwrap().take(rid).is_some()\n", "        self.hooks.lock().unwrap().take(rid).map(|(hook, _)| drop(unsafe { Box::from_raw(hook) })).is_some()\n")],
      demo=POISON + '''use std::{ cell::{ Cell, RefCell }, rc::Rc };
fn main() {
    let signal: Rc<Signal<u32>> = Rc::new(Signal::new());
    let own:    Rc<Cell<RID>>   = Rc::new(Cell::new(0));
    let seen:   Rc<RefCell<Vec<String>>> = Rc::new(RefCell::new(Vec::new()));
    let (s, o, v, text) = (signal.clone(), own.clone(), seen.clone(), "kept".to_string());
    own.set(unsafe { signal.connect(move |n: &u32| {
        if *n == 2 { assert!(s.disconnect(o.get())); }
        v.borrow_mut().push(text.clone());
    }) });
    for n in 1..4u32 { signal.emit(n); }
    assert_eq!(*seen.borrow(), vec!["kept".to_string(), "kept".to_string()]);
    assert!(untouched());
}
'''),
 dict(id='p33-leaf-shared', prop='P33', needs='a copied scene in which a node without children is not on its own, both copies instanced, one of the nodes freed', breaks='the copy of a node without children and without a tree is the node itself',
      edits=[(NS, "            this:      cloned_node,\n", "            this:      if self.children.is_empty() && !self.is_owner && self.from_disk { self.this } else { cloned_node },\n")],
      demo=POISON + '''
class! { declare Root; export let text: String = "x".to_string(); }
fn main() {
    let scene: NodeScene = scene! { Root [ Root: "Mid" [ Root: "Leaf" ] ] };
    let scene: NodeScene = NodeScene::load_from_str(&scene.save_to_str().unwrap()).unwrap();
    let one: Box<TreeSimple> = TreeSimple::new(scene.clone(), LoggerVerbosity::OnlyPanics);
    let two: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    one.root().get_child_dyn(0).unwrap().get_child_dyn(0).unwrap().free();
    let mid: TpDyn = two.root().get_child_dyn(0).unwrap();
    let leaf: Tp<Root> = mid.get_child::<Root>(0).unwrap();
    assert_eq!(*leaf.text, "x");
    assert_eq!(leaf.name(), "Leaf");
    assert!(untouched());
}
'''),
 dict(id='p33-hash-box', prop='P33', needs='a hasher that panics in the middle of hashing a scene', breaks='hashing a scene owns the node for the time being, and frees it if the hasher panics',
      edits=[(NS, "        unsafe { &*self.this }.name_as_type().hash(state);\n", "        let node: Box<dyn Node> = unsafe { self.get_node() };\n        node.name_as_type().hash(state);\n        let _ = Box::into_raw(node);\n")],
      demo=POISON + '''use std::hash::{ Hash, Hasher };
class! { declare Root; }
struct Picky(bool);
impl Hasher for Picky {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { if self.0 { panic!("not this one"); } }
}
fn main() {
    let scene: NodeScene = scene! { Root: "Top" [ Root: "Below" ] };
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scene.hash(&mut Picky(true)))).is_err());
    scene.hash(&mut Picky(false));
    let tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    assert_eq!(tree.root().name(), "Top");
    assert!(untouched());
}
'''),
]
