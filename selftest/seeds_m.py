'''what does not compile (P38): the demonstration is a pair of programs, one that has to build and run, one that has to be rejected'''
B = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
TP = 'node_tree_core/src/structs/tree_pointer.rs'
S = 'node_tree_core/src/structs/signals.rs'
SC = 'node_tree_core/src/structs/node_scene.rs'
L = 'node_tree_derive/src/lib.rs'
USE = '''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
'''
GO = '''
fn main() {
    let scene: NodeScene = scene! { Thing: "Root" [Thing: "A" [Thing: "B"]] };
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    go(&mut tree);
}
'''


def two(src):
    import re
    return re.sub(r'\{\{(.*?)\|\|(.*?)\}\}', r'\1', src, flags=re.S), re.sub(r'\{\{(.*?)\|\|(.*?)\}\}', r'\2', src, flags=re.S)


def seed(src, **k):
    k['demo'], k['misuse'] = two(src)
    k['prop'] = 'P38'
    return k


SEEDS = [
 seed(id='p38-children-kept', needs='a program that keeps the pointers to a node\'s children for longer than the node is borrowed', breaks='the pointers that children() gives outlive the node they belong to, and the tree',
      code='E0505|E0502|E0499|E0597|E0506|E0716', edits=[(B, 'pub fn children(&self) -> Vec<TpDyn> {', "pub fn children<'a>(&self) -> Vec<TpDyn<'a>> {")],
      src=USE + '''
class! { declare Thing; }
fn go(tree: &mut TreeSimple) {
    let children = tree.root().children();
    {{assert_eq!(children.len(), 1); tree.root_mut().free();||tree.root_mut().free(); assert_eq!(children.len(), 1);}}
    assert_eq!(tree.get_node(0).is_some(), false);
}
''' + GO),
 seed(id='p38-nodes-shared', needs='a program that has only a shared reference to the tree, and asks it for mutable references to nodes', breaks='get_nodes_mut gives two mutable references to one node: the tree is only borrowed shared',
      code='E0499|E0502|E0596', edits=[(TB, 'pub fn get_nodes_mut(&mut self, rids: &[RID]) -> Vec<Option<&mut dyn Node>> {', 'pub fn get_nodes_mut(&self, rids: &[RID]) -> Vec<Option<&mut dyn Node>> {')],
      src=USE + '''
class! { declare Thing; }
fn go(tree: &mut TreeSimple) {
    let mut first = tree.get_nodes_mut(&[0, 1]);
    {{first[0].as_mut().unwrap().set_name("One"); let mut second = tree.get_nodes_mut(&[0, 1]);||let mut second = tree.get_nodes_mut(&[0, 1]); first[0].as_mut().unwrap().set_name("One");}}
    second[0].as_mut().unwrap().set_name("Two");
    assert_eq!(tree.root().name(), "Two");
}
''' + GO),
 seed(id='p38-cast-kept', needs='a program that keeps what cast() gave it while the node it points to is freed', breaks='the reference that TpDyn::cast gives is not bound by the lifetime of the pointer it came from',
      code='E0505|E0502|E0499|E0597|E0506|E0716', edits=[(TP, "pub fn cast<T: ?Sized + 'static>(&self) -> TreeResult<&'a T, TPError> {", "pub fn cast<'b, T: ?Sized + 'static>(&self) -> TreeResult<'b, &'b T, TPError> {")],
      src=USE + '''
trait Named { fn said(&self) -> String; }
class! { declare Thing extends Named; }
impl Named for Thing { fn said(&self) -> String { self.name().to_string() } }
fn go(tree: &mut TreeSimple) {
    let child = tree.root().get_child_dyn(0).unwrap();
    let named: &dyn Named = child.cast::<dyn Named>().unwrap();
    {{assert_eq!(named.said(), "A"); tree.root_mut().remove_child("A");||tree.root_mut().remove_child("A"); assert_eq!(named.said(), "A");}}
    assert!(tree.root().childless());
}
''' + GO),
 seed(id='p38-signal-thread', needs='a program that moves a signal, with what is connected to it, to another thread', breaks='a signal may be sent to another thread, and its hooks with it, which point into a tree of this thread',
      code='E0277', edits=[(S, '''    hooks: MutableArc<EventHandler<T>>
}
''', '''    hooks: MutableArc<EventHandler<T>>   // Behind a lock, and thus safe to share.
}

unsafe impl <T: Send> Send for Signal<T> {}
unsafe impl <T: Send> Sync for Signal<T> {}
''')],
      src=USE + '''
use std::{ cell::Cell, rc::Rc, sync::atomic::{ AtomicU8, Ordering } };
class! { declare Thing; }
static HEARD: AtomicU8 = AtomicU8::new(0);
fn go(_tree: &mut TreeSimple) {
    let signal: Signal<u8> = Signal::new();
    let count:  Rc<Cell<u8>> = Rc::new(Cell::new(0));
    unsafe { signal.connect(move |x: &u8| { count.set(count.get() + *x); HEARD.store(count.get(), Ordering::SeqCst); }); }
    {{signal.emit(3u8);||std::thread::spawn(move || signal.emit(3u8)).join().unwrap();}}
    assert_eq!(HEARD.load(Ordering::SeqCst), 3);
}
''' + GO),
 seed(id='p38-private-fn', needs='a class in another module, with a function that is not public', breaks='the functions of a class are public whether they are declared so or not',
      code='E0624', edits=[(L, '''    let func_impls = funcs.iter().map(|Func { attribs, public, declare }| {
        let visibility: TokenStream2 = if *public { quote! { pub } } else { TokenStream2::new() };
''', '''    let func_impls = funcs.iter().map(|Func { attribs, public: func_public, declare }| {
        let visibility: TokenStream2 = if *func_public || public { quote! { pub } } else { TokenStream2::new() };
''')],
      src=USE + '''
mod other {
    use node_tree::prelude::*;
    class! {
        pub declare Thing;
        let secret: u8 = 3;
        pub fn open(&self) -> u8 { self.closed() }
        fn closed(&self) -> u8 { *self.secret }
    }
}
use other::Thing;
fn go(tree: &mut TreeSimple) {
    let root: Tp<Thing> = tree.root().this();
    assert_eq!(root.{{open||closed}}(), 3);
}
''' + GO),
]
