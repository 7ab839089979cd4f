"""What would break a tree does not compile: pairs of programs that differ in one place, one that is fine and one that is a misuse - a pointer used after the tree or the node it borrows from may have changed, a call that must be unsafe, a change through a shared reference, a type that cannot be a node or be saved, access to what is private, a declaration or connection that means nothing. The type checker and the macros of the library must take the first and reject the second."""
import concurrent.futures as cf, glob, os, re, shutil, subprocess
from rule import *
import build

RULE = 'type-level witnesses: each program compiles against the library as it is; each violating twin, which differs in one place, is rejected'
WITNESS = True
HEAD = '''#![allow(unused, deprecated)]
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use node_tree::structs::{ node_base::*, node_tree_base::*, node_scene::*, node_field::*, signals::*, rid::*, tree_pointer::*, tree_option::*, tree_result::*, logger::* };
use node_tree::traits::{ exportable::*, instanceable::*, node_tree::NodeTree };
class! {
    pub declare Leaf;
    pub sig: SIG;
    pub let x: u32 = 0;
    let hidden: u32 = 0;
}
'''.replace('    pub sig: SIG;\n', '    pub signal said(n: u32);\n    signal inner(n: u32);\n')
PAIRS = {}


def pair(group, name, src):
    """{{fine||misuse}}"""
    PAIRS['%s:%s' % (group, name)] = (re.sub(r'\{\{(.*?)\|\|(.*?)\}\}', r'\1', src, flags=re.S), re.sub(r'\{\{(.*?)\|\|(.*?)\}\}', r'\2', src, flags=re.S))


# ---- what borrows from a node ends before the node changes
FROM_NODE = {
    'children': 'n.children()', 'get_child': 'n.get_child::<Leaf>(0)', 'get_child_dyn': 'n.get_child_dyn(0)', 'get_node': 'n.get_node::<Leaf>(NodePath::from_str("A"))',
    'get_node_dyn': 'n.get_node_dyn(NodePath::from_str("A"))', 'parent': 'n.parent::<Leaf>()', 'parent_dyn': 'n.parent_dyn()', 'owner': 'n.owner::<Leaf>()', 'owner_dyn': 'n.owner_dyn()',
    'this': 'n.this::<Leaf>()', 'this_dyn': 'n.this_dyn()', 'tree': 'n.tree()', 'name': 'n.name()',
}
for k, x in FROM_NODE.items():
    pair('borrow', 'node-%s' % k, 'fn f(n: &mut Leaf) { let p = %s; {{drop(p); n.free();||n.free(); drop(p);}} }' % x)
    pair('borrow', 'node-%s-kept' % k, 'trait Any2 {} impl<T> Any2 for T {} fn f<\'a>(n: &\'a Leaf) -> Box<dyn Any2 + \'{{a||static}}> { Box::new(%s) }' % x)
pair('borrow', 'child-of-unwrapped', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).unwrap(); {{p.num_children(); n.free();||n.free(); p.num_children();}} }')
pair('borrow', 'cast', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).unwrap().cast::<Leaf>().unwrap(); {{p.x; n.free();||n.free(); let _ = p.x.clone();}} }')
pair('borrow', 'to', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).unwrap().to::<Leaf>().unwrap(); {{p.num_children(); n.free();||n.free(); p.num_children();}} }')
pair('borrow', 'to_dyn', 'fn f(n: &mut Leaf) { let p = n.get_child::<Leaf>(0).unwrap().to_dyn(); {{p.num_children(); n.free();||n.free(); p.num_children();}} }')
pair('borrow', 'option', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).ok(); {{drop(p); n.free();||n.free(); p.is_some();}} }')
pair('borrow', 'option-map', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).map(|c| c.rid()); {{p.is_ok(); n.free();||n.free(); p.is_ok();}} }')
pair('borrow', 'option-plain', 'fn f(n: &mut Leaf) { let p = n.get_child_dyn(0).map(|c| c.rid()){{.to_option()||}}; n.free(); drop(p); }')
pair('borrow', 'deref', 'fn f<\'a>(p: &\'a TpDyn<\'static>, q: TpDyn<\'static>) -> &\'a dyn Node { {{&**p||&*q}} }')
pair('borrow', 'get', 'fn f<\'a>(p: &\'a Tp<\'static, Leaf>, q: Tp<\'static, Leaf>) -> &\'a Leaf { {{p.get()||q.get()}} }')
pair('borrow', 'get_mut', 'fn f(mut p: Tp<\'static, Leaf>) { let a = p.get_mut(); {{a.free(); let b = p.get_mut();||let b = p.get_mut(); a.free();}} }')
pair('borrow', 'try_get_mut', 'fn f(mut p: Tp<\'static, Leaf>) { let a = p.try_get_mut().unwrap(); {{a.free(); let b = p.try_get_mut();||let b = p.try_get_mut(); a.free();}} }')
pair('borrow', 'dyn-get_mut', 'fn f(mut p: TpDyn<\'static>) { let a = p.get_mut(); {{a.free(); let b = p.get_mut();||let b = p.get_mut(); a.free();}} }')
pair('borrow', 'dyn-try_get_mut', 'fn f(mut p: TpDyn<\'static>) { let a = p.try_get_mut().unwrap(); {{a.free(); let b = p.try_get_mut();||let b = p.try_get_mut(); drop(b); a.free();}} }')
pair('borrow', 'shared-while-mut', 'fn f(mut p: Tp<\'static, Leaf>) { let a = p.get_mut(); {{a.free(); p.get();||p.get(); a.free();}} }')
for ty, x in (('TreeOption<\'static, String>', 'option'), ('TreeResult<\'static, String, String>', 'result')):
    for k in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'iter', 'iter_mut') + (('insert', 'get_or_insert', 'take', 'as_slice', 'as_mut_slice') if x == 'option' else ()):
        a = 'String::new()' if 'insert' in k else ''
        pair('borrow', '%s-%s' % (x, k), 'fn f(mut o: %s) { let a = o.%s(%s); {{drop(a); drop(o);||drop(o); drop(a);}} }' % (ty, k, a))
        if k in ('as_mut', 'as_deref_mut', 'iter_mut', 'insert', 'get_or_insert', 'take', 'as_mut_slice'):
            pair('exclusive', '%s-%s' % (x, k), 'fn f(o: &{{mut ||}}%s) { o.%s(%s); }' % (ty, k, a))
    pair('moved', x + '-unwrap', 'fn f(o: %s) { {{drop(o.as_ref()); o.unwrap();||o.unwrap(); drop(o.as_ref());}} }' % ty)
# ---- what borrows from a tree ends before the tree runs or is dropped
FROM_TREE = {'root': 't.root()', 'get_node': 't.get_node(0)', 'get_nodes': 't.get_nodes(&[0])', 'get_all_valid_nodes': 't.get_all_valid_nodes(&[0])', 'get_log': 't.get_log()', 'child': 't.root().get_child_dyn(0).unwrap()',
             'child-of-child': 't.root().get_child_dyn(0).unwrap().get_child_dyn(1).map(|p| p)', 'as_dyn': 't.as_dyn()', 'base': 't.base()', 'as_any': 't.as_any()'}
FROM_TREE_MUT = {'root_mut': 't.root_mut()', 'get_node_mut': 't.get_node_mut(0)', 'get_nodes_mut': 't.get_nodes_mut(&[0])', 'get_all_valid_nodes_mut': 't.get_all_valid_nodes_mut(&[0])', 'base_mut': 't.base_mut()', 'as_dyn_mut': 't.as_dyn_mut()', 'as_any_mut': 't.as_any_mut()'}
FROM_TREE.pop('child-of-child')
for k, x in (*FROM_TREE.items(), *FROM_TREE_MUT.items()):
    pair('borrow', 'tree-%s-process' % k, 'fn f(t: &mut TreeSimple) { let p = %s; {{drop(p); t.process();||t.process(); drop(p);}} }' % x)
    pair('borrow', 'tree-%s-drop' % k, 'fn f(mut t: Box<TreeSimple>) { let p = %s; {{drop(p); drop(t);||drop(t); drop(p);}} }' % x)
    pair('borrow', 'tree-%s-kept' % k, 'trait Any2 {} impl<T> Any2 for T {} fn f<\'a>(t: &\'a mut TreeSimple) -> Box<dyn Any2 + \'{{a||static}}> { Box::new(%s) }' % x)
for k, x in FROM_TREE_MUT.items():
    pair('borrow', 'tree-%s-twice' % k, 'fn f(t: &mut TreeSimple) { let p = %s; {{drop(p); let q = %s;||let q = %s; drop(p);}} drop(q); }' % (x, x, x))
    pair('exclusive', 'tree-%s' % k, 'fn f(t: &{{mut ||}}TreeSimple) { %s; }' % x)
pair('borrow', 'scene-children', 'fn f(mut s: NodeScene, c: NodeScene) { let p = s.children(); {{p.len(); s.append(c);||s.append(c); p.len();}} }')
pair('borrow', 'field', 'fn f(mut n: Leaf) { let p: &u32 = &n.x; {{drop(*p); *n.x = 3;||*n.x = 3; drop(*p);}} }')
# ---- what changes something needs the only reference to it
for k, x in {'free': 'n.free()', 'add_child': 'n.add_child(c)', 'remove_child': 'n.remove_child("A")', 'set_name': 'n.set_name("A")', 'register_as_singleton': 'n.register_as_singleton("A".to_string())', 'base_mut': 'n.base_mut()',
             'as_dyn_mut': 'n.as_dyn_mut()', 'as_any_mut': 'n.as_any_mut()', 'field': '*n.x = 3', 'unset': 'unsafe { n.set_rid(3) }', 'set_owner': 'unsafe { n.set_owner(3) }', 'set_parent': 'unsafe { n.set_parent(3) }',
             'set_depth': 'unsafe { n.set_depth(3) }', 'loaded': 'n.loaded()', 'ready': 'n.ready()', 'process': 'n.process(1.0)', 'terminal': 'n.terminal(TerminationReason::Freed)'}.items():
    pair('exclusive', 'node-%s' % k, 'fn f(n: &{{mut ||}}Leaf, c: Leaf) { %s; }' % x)
for k, x in {'process': 't.process()', 'terminate': 't.terminate()', 'queue_termination': 't.queue_termination()', 'register_as_singleton': 't.register_as_singleton(0, "A".to_string())', 'post': 't.post(0, Log::Debug("A"))',
             'header': 't.set_default_header_on_panic("A")', 'footer': 't.set_default_footer_on_panic("A")', 'set_base': 'unsafe { t.set_base(b.take().unwrap()) }'}.items():
    pair('exclusive', 'tree-%s' % k, 'fn f(t: &{{mut ||}}TreeSimple, mut b: Option<NodeTreeBase>) { %s; }' % x)
pair('exclusive', 'scene-append', 'fn f(s: &{{mut ||}}NodeScene, c: NodeScene) { s.append(c); }')
pair('exclusive', 'scene-append_as_owner', 'fn f(s: &{{mut ||}}NodeScene, c: NodeScene) { s.append_as_owner(c); }')
pair('exclusive', 'pointer-get_mut', 'fn f(p: &{{mut ||}}Tp<Leaf>) { p.get_mut(); }')
pair('exclusive', 'pointer-deref_mut', 'fn f(p: &{{mut ||}}Tp<Leaf>) { p.free(); }')
pair('exclusive', 'pointer-dyn-get_mut', 'fn f(p: &{{mut ||}}TpDyn) { p.get_mut(); }')
pair('exclusive', 'pointer-dyn-deref_mut', 'fn f(p: &{{mut ||}}TpDyn) { p.free(); }')
pair('exclusive', 'pointer-cast_mut', 'fn f(p: &{{mut ||}}TpDyn) { p.cast_mut::<Leaf>(); }')
pair('exclusive', 'rids-push', 'fn f(h: &{{mut ||}}RIDHolder<u8>) { h.push(1); }')
pair('exclusive', 'rids-take', 'fn f(h: &{{mut ||}}RIDHolder<u8>) { h.take(1); }')
pair('exclusive', 'rids-modify', 'fn f(h: &{{mut ||}}RIDHolder<u8>) { h.modify(1); }')
pair('exclusive', 'path-add', 'fn f(p: &{{mut ||}}NodePath) { p.add_node("A"); }')
# ---- what is given away is gone
pair('moved', 'add_child', 'fn f(n: &mut Leaf, c: Leaf) { {{c.name(); n.add_child(c);||n.add_child(c); c.name();}} }')
pair('moved', 'add_child-scene', 'fn f(n: &mut Leaf, c: NodeScene) { {{c.children(); n.add_child(c);||n.add_child(c); c.children();}} }')
pair('moved', 'scene-root', 'fn f(c: Leaf) { {{c.name(); NodeScene::new(c);||NodeScene::new(c); c.name();}} }')
pair('moved', 'scene-dyn', 'fn f(c: Box<dyn Node>) { {{c.name(); NodeScene::new_dyn(c);||NodeScene::new_dyn(c); c.name();}} }')
pair('moved', 'append', 'fn f(s: &mut NodeScene, c: NodeScene) { {{c.children(); s.append(c);||s.append(c); c.children();}} }')
pair('moved', 'append_as_owner', 'fn f(s: &mut NodeScene, c: NodeScene) { {{c.children(); s.append_as_owner(c);||s.append_as_owner(c); c.children();}} }')
pair('moved', 'tree', 'fn f(s: NodeScene) { {{s.children(); TreeSimple::new(s, LoggerVerbosity::All);||TreeSimple::new(s, LoggerVerbosity::All); s.children();}} }')
# ---- what could break the structure is unsafe
for k, x in {'add_child_from_ptr': 'n.add_child_from_ptr(c, true, true);', 'set_name_unchecked': 'n.set_name_unchecked("A");', 'set_rid': 'n.set_rid(1);', 'set_tree': 'n.set_tree(tp);', 'disconnnect_tree': 'n.disconnnect_tree();',
             'set_owner': 'n.set_owner(1);', 'disconnnect_owner': 'n.disconnnect_owner();', 'set_parent': 'n.set_parent(1);', 'disconnnect_parent': 'n.disconnnect_parent();', 'set_status': 'n.set_status(NodeStatus::Normal);',
             'set_depth': 'n.set_depth(1);', 'mark_as_loaded': 'n.mark_as_loaded();', 'mark_as_final': 'n.mark_as_final();', 'register_node': 't.register_node(c);', 'unregister_node': 't.unregister_node(1);', 'set_base': 't.set_base(todo!());',
             'Tp::new': 'let _: TreeResult<Tp<Leaf>, TPError> = Tp::new(tp, 0, 1);', 'TpDyn::new': 'TpDyn::new(tp, 0, 1);', 'TreeOption::new': 'TreeOption::new(tp, 0, Some(1));', 'TreeResult::new': 'TreeResult::<u8, u8>::new(tp, 0, Ok(1));',
             'option-unwrap_unchecked': 'n.get_child_dyn(0).ok().unwrap_unchecked();', 'result-unwrap_unchecked': 'n.get_child_dyn(0).unwrap_unchecked();', 'result-unwrap_err_unchecked': 'n.get_child_dyn(0).unwrap_err_unchecked();',
             'scene-get_node': 's.get_node();', 'connect': 'n.said.connect(|_| ());', 'connect_once': 'n.said.connect_once(|_| ());', 'register_deserializer': 'node_tree::services::node_registry::register_deserializer("A".into(), |_| Err(String::new()));'}.items():
    pair('unsafe', k, 'fn f(n: &mut Leaf, t: &mut TreeSimple, tp: *mut dyn NodeTree, c: *mut dyn Node, s: &NodeScene) { {{unsafe ||}}{ %s } }' % x)
# ---- only nodes are nodes, only what can be saved is saved
pair('types', 'add_child', 'struct A; fn f(n: &mut Leaf, c: {{Leaf||A}}) { n.add_child(c); }')
pair('types', 'scene-root', 'struct A; fn f(c: {{Leaf||A}}) { NodeScene::new(c); }')
pair('types', 'scene-macro', 'struct A; impl A { fn new() -> A { A } } fn f() { scene! { {{Leaf||A}} }; }')
pair('types', 'scene-child', 'struct A; impl A { fn new() -> A { A } } fn f() { scene! { Leaf [ {{Leaf||A}} ] }; }')
pair('types', 'scene-link', 'fn f(one: {{NodeScene||String}}) { scene! { Leaf [ $one ] }; }')
pair('types', 'get_child', 'struct A; fn f(n: &Leaf) { n.get_child::<{{Leaf||A}}>(0); }')
pair('types', 'get_node', 'struct A; fn f(n: &Leaf) { n.get_node::<{{Leaf||A}}>(NodePath::from_str("A")); }')
pair('types', 'get_node-by', 'fn f(n: &Leaf) { n.get_node::<Leaf>({{NodePath::from_str("A")||\'A\'}}); }')
pair('types', 'owner', 'struct A; fn f(n: &Leaf) { n.owner::<{{Leaf||A}}>(); }')
pair('types', 'parent', 'struct A; fn f(n: &Leaf) { n.parent::<{{Leaf||A}}>(); }')
pair('types', 'this', 'struct A; fn f(n: &Leaf) { n.this::<{{Leaf||A}}>(); }')
pair('types', 'to', 'struct A; fn f(p: TpDyn) { p.to::<{{Leaf||A}}>(); }')
pair('types', 'is', 'struct A; fn f(p: TpDyn) { p.is::<{{Leaf||A}}>(); }')
pair('types', 'pointer', 'struct A; fn f(p: Tp<{{Leaf||A}}>) {}')
pair('types', 'export', 'struct A; class! { declare B; export let a: {{u8||*mut u8}} = {{0||std::ptr::null_mut()}}; }')
pair('types', 'export-field', '#[derive(Debug)] struct A; fn f(a: ExportableField<{{u8||A}}>) {}')
pair('types', 'export-in-list', '#[derive(Debug)] struct A; fn f(a: ExportableField<Vec<{{u8||A}}>>) {}')
pair('types', 'default', '#[derive(Debug, Clone)] pub struct A; class! { declare B; default let a: {{u8||A}}; }')
pair('types', 'field-value', 'class! { declare B; let a: u8 = {{1||"one"}}; }')
pair('types', 'unset-field', 'class! { declare B; let a: u8{{ = 1||}}; }')
pair('types', 'emit', 'fn f(n: &Leaf) { n.said.emit({{1u32||"one"}}); }')
# ---- connect!, scene! and class! take nothing that means nothing
TARGET = 'class! { pub declare Ear; pub fn heard(&self, n: &u32) {} pub fn text(&self, n: &String) {} pub fn none(&self) {} } '
for _arrow, _n in (('->', ''), ('~>', '-once')):
    pair('connect', 'method' + _n, (TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { said -> to.{{heard||gone}} }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
    pair('connect', 'signal' + _n, (TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { {{said||gone}} -> to.heard }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
    pair('connect', 'value' + _n, (TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { said -> to.{{heard||text}} }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
    pair('connect', 'arity' + _n, (TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { said -> to.{{heard||none}} }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
    pair('connect', 'no-signal' + _n, (TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { {{said||x}} -> to.heard }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
    pair('connect', 'no-node' + _n, (TARGET + 'impl Leaf { fn f(&self, to: {{Tp<\'static, Ear>||String}}) { connect! { said -> to.heard }; } }').replace(' -> to.', ' ' + _arrow + ' to.'))
pair('connect', 'arrow', TARGET + 'impl Leaf { fn f(&self, to: Tp<\'static, Ear>) { connect! { said {{->||=>}} to.heard }; } }')
pair('scene', 'setting', 'fn f() { scene! { Leaf { {{x||y}}: 1u32 } }; }')
pair('scene', 'setting-value', 'fn f() { scene! { Leaf { x: {{1u32||"one"}} } }; }')
pair('scene', 'setting-twice-colon', 'fn f() { scene! { Leaf { x{{:||=}} 1u32 } }; }')
pair('scene', 'params', 'fn f() { scene! { Leaf{{||(1)}} }; }')
pair('scene', 'param-missing', 'class! { declare B; let a: u8; hk _init(a: u8) {} } fn f() { scene! { B{{(1)||}} }; }')
pair('scene', 'name', 'fn f() { scene! { Leaf: {{"A"||1}} }; }')
pair('scene', 'class', 'fn f() { scene! { {{Leaf||Gone}} }; }')
pair('scene', 'root', 'fn f() { scene! { Leaf {{||Leaf}} }; }')
pair('scene', 'link', 'fn f(one: NodeScene) { scene! { Leaf [ ${{one||gone}} ] }; }')
pair('scene', 'rest', 'fn f() { scene! { Leaf [ Leaf ] {{||[ Leaf ]}} }; }')
pair('class', 'keyword', 'class! { {{declare||define}} B; }')
pair('class', 'extends-keyword', 'trait T {} class! { declare B {{extends||with}} T; } impl T for B {}')
pair('class', 'default-start-value', 'class! { declare B; default let a: u8{{|| = 1}}; }')
pair('class', 'export-default-let', 'class! { declare B; export {{default||unique}} let a: u8; }')
pair('class', 'pub-hook', 'class! { declare B; {{||pub }}hk ready(&mut self) {} }')
pair('class', 'unique-hook', 'class! { declare B; {{||unique }}hk ready(&mut self) {} }')
pair('class', 'unique-const', 'class! { declare B; {{||unique }}const A: u8 = 1; }')
pair('class', 'default-fn', 'class! { declare B; {{||default }}fn a(&self) {} }')
pair('class', 'unique-signal', 'class! { declare B; {{||unique }}signal a(); }')
pair('class', 'static', 'class! { declare B; {{const||static}} A: u8 = 1; }')
pair('class', 'word', 'class! { declare B; {{let||var}} a: u8 = 1; }')
pair('class', 'hook-self', 'class! { declare B; hk ready({{&mut self||&self}}) {} }')
pair('class', 'hook-gone', 'class! { declare B; hk {{ready||redy}}(&mut self) {} }')
pair('class', 'hook-argument', 'class! { declare B; hk process(&mut self, delta: {{f32||f64}}) {} }')
pair('class', 'signal-self', 'class! { declare B; signal a({{||self}}); }')
pair('class', 'twice', 'class! { declare B; let a: u8 = 1; let {{b||a}}: u8 = 1; }')
pair('class', 'base', 'class! { declare B; let {{b||base}}: u8 = 1; }')
pair('class', 'init-field', 'class! { declare B; let a: u8; hk _init() { let {{a||b}}: u8 = 1; } }')
# ---- what is private stays private
for k, x in {'rid': 'n.base().rid{{()||}}', 'name': 'n.base().name{{()||.len()}}', 'tree': 'n.base().tree{{()||}}', 'parent': 'n.base().parent{{_dyn()||}}', 'owner': 'n.base().owner{{_dyn()||}}', 'children': 'n.base().children{{()||}}',
             'depth': 'n.base().depth{{()||}}', 'status': 'n.base().status{{()||}}'}.items():
    pair('private', 'node-' + k, 'fn f(n: &Leaf) { let _ = &%s; }' % x)
for k in ('nodes', 'singletons', 'identity', 'logger', 'status', 'last_frame'):
    pair('private', 'tree-' + k, 'fn f(t: &NodeTreeBase) { let _ = &t{{||.%s}}; }' % k)
for k in ('this', 'children', 'from_disk'):
    pair('private', 'scene-' + k, 'fn f(s: &NodeScene) { let _ = &s.{{is_owner||%s}}; }' % k)
for ty in ('Tp<Leaf>', 'TpDyn'):
    for k in ('tree', 'owner', 'node'):
        pair('private', '%s-%s' % (ty, k), 'fn f(p: %s) { let _ = &p{{||.%s}}; }' % (ty, k))
pair('private', 'rids', 'fn f(h: &RIDHolder<u8>) { let _ = &h{{||.data}}; }')
pair('private', 'rids-next', 'fn f(h: &RIDHolder<u8>) { let _ = &h{{||.highest}}; }')
pair('private', 'signal', 'fn f(s: &Signal<u8>) { let _ = &s{{||.hooks}}; }')
pair('private', 'base-new', 'fn f() { unsafe { {{NodeBase::new("A".to_string())||NodeTreeBase::new(LoggerVerbosity::All)}}; } }')
pair('private', 'initialize', 'fn f(t: &mut Box<TreeSimple>, o: *mut dyn NodeTree, s: NodeScene) { unsafe { {{initialize_base(t, s, LoggerVerbosity::All)||t.base_mut().initialize(o, s)}}; } }')
pair('private', 'set_name-path', 'fn f(p: &mut NodePath) { let _ = p.{{pop_front_as_string()||pop_front()}}; }')
pair('private', 'field', 'mod m { use node_tree::prelude::*; class! { pub declare B; {{pub ||}}let a: u8 = 1; } } fn f(b: &m::B) { let _ = &b.a; }')
pair('private', 'fn', 'mod m { use node_tree::prelude::*; class! { pub declare B; {{pub ||}}fn a(&self) {} } } fn f(b: &m::B) { b.a(); }')
pair('private', 'const', 'mod m { use node_tree::prelude::*; class! { pub declare B; {{pub ||}}const A: u8 = 1; } } fn f() { m::B::A; }')
pair('private', 'class-signal', 'mod m { use node_tree::prelude::*; class! { pub declare B; {{pub ||}}signal a(); } } fn f(b: &m::B) { let _ = &b.a; }')
pair('private', 'class', 'mod m { use node_tree::prelude::*; class! { {{pub ||}}declare B; } } fn f(b: &m::B) { }')
# ---- and a thread of its own
for k, x in {'node': 'Leaf', 'scene': 'NodeScene', 'tree': 'TreeSimple', 'pointer': 'Tp<\'static, Leaf>', 'pointer-dyn': 'TpDyn<\'static>', 'signal': 'Signal<u8>', 'boxed': 'Box<dyn Node>'}.items():
    pair('threads', k, 'fn go<T: Send>() {} fn f() { go::<{{u8||%s}}>(); }' % x)
    pair('threads', k + '-shared', 'fn go<T: Sync>() {} fn f() { go::<{{u8||%s}}>(); }' % x)


def compiler():
    t = os.path.join(build.WORK, 'target-witness', 'debug')
    libs = glob.glob(t + '/**/libnode_tree-*.rmeta', recursive=True)
    if len(libs) != 1:
        raise Fail('the compiled library: %d candidates' % len(libs))
    dirs = sorted({os.path.dirname(p) for e in ('rmeta', 'so') for p in glob.glob(t + '/**/lib*.' + e, recursive=True)})
    return ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--cap-lints', 'allow', '--extern', 'node_tree=' + libs[0]] + [x for d in dirs for x in ('-L', 'dependency=' + d)]


def verdict(cmd, d, name, src):
    p = os.path.join(d, re.sub(r'\W', '_', name))
    with open(p + '.rs', 'w') as f:
        f.write(HEAD + src + '\n')
    r = subprocess.run(cmd + ['-o', p + '.rmeta', p + '.rs'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.ENV, timeout=300)
    return r.returncode, r.stderr


def check(ctx):
    cmd = compiler()
    d = os.path.join(build.WORK, 'pairs-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            todo = [(k, i, PAIRS[k][i]) for k in sorted(PAIRS) for i in (0, 1)]
            res = list(ex.map(lambda x: (x, verdict(cmd, d, '%s-%d' % (x[0], x[1]), x[2])), todo))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (k, i, src), (rc, err) in res:
        errs = [l for l in err.splitlines() if l.startswith('error')]
        if rc and (rc != 1 or not errs):
            raise Fail('the compiler failed on %s: %s' % (k, err[-300:]))
        if i == 0:
            ctx.ob(rc == 0, 'accepts:' + k, 'a correct program is rejected (%s): %s' % (errs[:1], src[:300]), k)
        else:
            ctx.ob(rc != 0, 'rejects:' + k, 'a misuse compiles: %s' % src[:400], k)
    groups = {}
    for k in PAIRS:
        groups[k.split(':')[0]] = groups.get(k.split(':')[0], 0) + 1
    for g, m in sorted(groups.items()):
        ctx.sample('%s: %d pairs' % (g, m))
    ctx.floor(len(PAIRS), 200, 'pairs of programs')
