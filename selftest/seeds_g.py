LIB = 'node_tree_derive/src/lib.rs'
PAR = 'node_tree_derive/src/parser.rs'
GEN = 'node_tree_derive/src/generator.rs'
REG = 'node_tree_core/src/services/node_registry.rs'
EL = 'node_tree_core/src/traits/element.rs'
U = 'use node_tree::prelude::*;\nuse node_tree::services::node_registry::{ SFieldMap, deserialize };\n'
T = 'use node_tree::prelude::*;\nuse node_tree::trees::TreeSimple;\n'
TOML = dict(deps='toml_edit = "0.22"\n')
SEEDS = [
 dict(id='p26-missing-void', prop='P26', needs='saved data in which a field of an exported type is missing', **TOML,
      breaks='a field without an entry is silently made void instead of refusing the data',
      edits=[(LIB, "if #unique_ident::is_ghost_export_type() {", "if #unique_ident::is_ghost_export_type() || owned_state.get(stringify!(#field_name)).is_none() {")],
      demo=U + '''
class! { declare Holder; export default let kept: u32; export let named: String = "x".to_string(); default let ghost: u32; }
fn main() {
    let full = || -> SFieldMap { [("kept".into(), 7i64.into()), ("named".into(), "y".into())].into_iter().collect() };
    let node = Holder::load_from_owned(full()).unwrap();
    assert!(*node.kept == 7 && *node.named == "y" && *node.ghost == 0);
    for gone in ["kept", "named"] {
        let mut part = full();
        part.remove(gone);
        assert!(Holder::load_from_owned(part).is_err(), "{gone}");
    }
}
'''),
 dict(id='p26-underscore', prop='P26', needs='a saved field whose name starts with an underscore',
      breaks='fields whose name starts with an underscore are not saved, so that the saved scene cannot be loaded',
      edits=[(LIB, """        .filter(|field| field.ident.as_ref().unwrap() != "base")
        .map(|field| field.ident.as_ref().unwrap())""", """        .filter(|field| field.ident.as_ref().unwrap() != "base" && !field.ident.as_ref().unwrap().to_string().starts_with('_'))
        .map(|field| field.ident.as_ref().unwrap())""")],
      demo=U + '''
class! { declare Holder; export let _kept: u32 = 3; export let other: u32 = 4; }
fn main() {
    let node = Holder::new();
    let saved: SFieldMap = node.save_from_owned().into_iter().map(|(k, v)| (k, v.to_value())).collect();
    let node = Holder::load_from_owned(saved).unwrap();
    assert!(*node._kept == 3 && *node.other == 4);
}
'''),
 dict(id='p26-new-digits', prop='P26', needs='a class whose name ends with a digit, built with an _init hook',
      breaks='a new node loses the digits at the end of its class name',
      edits=[(LIB, """                    #(#init_body)*
                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),""", """                    #(#init_body)*
                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).trim_end_matches(|c: char| c.is_ascii_digit()).to_string()),""")],
      demo=U + '''
class! { declare Player2; let n: u32; hk _init(n: u32) {} }
class! { declare Level3; }
fn main() {
    assert!(Player2::new(1).name() == "Player2" && Level3::new().name() == "Level3");
}
'''),
 dict(id='p26-second-extends', prop='P26', needs='a class that extends two traits, cast to the second one',
      breaks='only the first trait that a class extends can be cast to',
      edits=[(LIB, "let extends = extends.iter().map(|inh_trait| {", "let extends = extends.first().into_iter().map(|inh_trait| {")],
      demo=U + '''
use node_tree::intertrait::cast::CastRef;
trait One { fn one(&self) -> u32; }
trait Two { fn two(&self) -> u32; }
class! { declare Both extends One, Two; }
impl One for Both { fn one(&self) -> u32 { 1 } }
impl Two for Both { fn two(&self) -> u32 { 2 } }
fn main() {
    let both = Both::new();
    let node: &dyn Node = &both;
    assert!(node.cast::<dyn One>().map(|x| x.one()) == Some(1));
    assert!(node.cast::<dyn Two>().map(|x| x.two()) == Some(2));
}
'''),
 dict(id='p26-once-always', prop='P26', needs='a one-shot connection made by connect!, emitted twice',
      breaks='`~>` makes a connection that stays',
      edits=[(LIB, "if one_shot { quote! { connect_once } } else { quote! { connect } };", "if one_shot && tree_pointer.is_self() { quote! { connect_once } } else { quote! { connect } };"),
             (LIB, "/*\n * Connect\n *      Macro\n */\n", "trait IsSelf { fn is_self(&self) -> bool; }\nimpl <T: quote::ToTokens> IsSelf for T {\n    fn is_self(&self) -> bool { self.to_token_stream().to_string().starts_with(\"self\") }\n}\n\n/*\n * Connect\n *      Macro\n */\n")],
      demo=T + '''use std::cell::Cell;
thread_local! { static HEARD: Cell<u32> = Cell::new(0); }
class! {
    declare Speaker;
    signal said(n: u32);
    hk ready(&mut self) {
        let to: Tp<Listener> = self.get_child(0).unwrap();
        connect! { said ~> to.hear };
        self.said.emit(1);
        self.said.emit(2);
    }
}
class! { declare Listener; fn hear(&self, n: &u32) { HEARD.set(HEARD.get() + n); } }
fn main() {
    let mut scene = NodeScene::new(Speaker::new());
    scene.append(NodeScene::new(Listener::new()));
    let _tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
    assert!(HEARD.get() == 1, "{}", HEARD.get());
}
'''),
 dict(id='p27-ninth-child', prop='P27', needs='a scene! with more than eight children at one level',
      breaks='the ninth child becomes the first',
      edits=[(PAR, "                        children.push(content.parse()?);\n", "                        let child: SceneNode = content.parse()?;\n                        let at: usize = if children.len() == 8 { 0 } else { children.len() };\n                        children.insert(at, child);\n")],
      demo=T + '''
class! { declare N; }
fn main() {
    let scene: NodeScene = scene! { N: "top" [ N: "1", N: "2", N: "3", N: "4", N: "5", N: "6", N: "7", N: "8", N: "9", N: "10" ] };
    let tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
    let names: Vec<String> = tree.root().children().iter().map(|c| c.name().to_string()).collect();
    assert!(names == (1..=10).map(|i| i.to_string()).collect::<Vec<_>>(), "{names:?}");
}
'''),
 dict(id='p27-wrap-unique', prop='P27', needs='a setting for a unique field in a scene!',
      breaks='a unique field that is set in a scene is void',
      edits=[(EL, "        UniqueField::Valid(self)\n", "        UniqueField::Void\n")],
      demo=T + '''
class! { declare N; pub unique let only: u32 = 1; pub let other: u32 = 2; hk ready(&mut self) { assert!(!self.only.is_void() && *self.only == 5 && *self.other == 6); } }
fn main() {
    let scene: NodeScene = scene! { N { only: 5, other: 6 } };
    let _tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
}
'''),
 dict(id='p27-repeated-setting', prop='P27', needs='a scene! with settings followed by children and more than two settings',
      breaks='the first of several settings is lost where children follow them',
      edits=[(PAR, """                if content.peek(tok::Bracket) {
                    children = parse_children(&&content)?;""", """                if content.peek(tok::Bracket) {
                    if settings.len() > 2 { settings.remove(0); }
                    children = parse_children(&&content)?;""")],
      demo=T + '''
class! {
    declare N; pub let a: u32 = 0; pub let b: u32 = 0; pub let c: u32 = 0;
    hk ready(&mut self) { if self.name() == "top" { assert!(*self.a == 1 && *self.b == 2 && *self.c == 3); } }
}
fn main() {
    let scene: NodeScene = scene! { N: "top" { a: 1u32, b: 2u32, c: 3u32, [ N ] } };
    let _tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug);
}
'''),
 dict(id='p31-short-name', prop='P31', needs='two classes of the same name in different modules',
      breaks='loaders are kept by the last part of their name, so that classes of the same name are loaded as each other',
      edits=[(REG, ".registry.insert(name, Box::new(deserializer));", '.registry.insert(name.rsplit("::").next().unwrap_or(&name).into(), Box::new(deserializer));'),
             (REG, "         .get(name)\n", '         .get(name.rsplit("::").next().unwrap_or(name))\n')],
      demo=U + '''
mod one { use node_tree::prelude::*; class! { pub declare Thing; pub export default let n: u32; } }
mod two { use node_tree::prelude::*; class! { pub declare Thing; } }
fn main() {
    let a = deserialize(std::any::type_name::<two::Thing>(), SFieldMap::new()).unwrap();
    assert!(a.as_any_ref().is::<two::Thing>());
    assert!(deserialize(std::any::type_name::<one::Thing>(), SFieldMap::new()).is_err());
    assert!(deserialize("Thing", SFieldMap::new()).is_err());
}
'''),
 dict(id='p31-first-stays', prop='P31', needs='two loaders registered under one name',
      breaks='a loader registered later under the same name is ignored',
      edits=[(REG, "        NODE_REGISTRY.as_mut().unwrap().registry.insert(name, Box::new(deserializer));", "        NODE_REGISTRY.as_mut().unwrap().registry.entry(name).or_insert_with(|| Box::new(deserializer));")],
      demo=U + '''
use node_tree::services::node_registry::register_deserializer;
class! { declare Old; }
class! { declare New; }
fn main() {
    unsafe {
        register_deserializer("thing".into(), |_| Ok(Box::new(Old::new()) as Box<dyn Node>));
        register_deserializer("thing".into(), |_| Ok(Box::new(New::new()) as Box<dyn Node>));
    }
    assert!(deserialize("thing", SFieldMap::new()).unwrap().as_any_ref().is::<New>());
}
'''),
 dict(id='p31-float-fields', prop='P31', needs='a saved field that holds a value that is not a number',
      breaks='fields that are nan are dropped before the loader sees them', **TOML,
      edits=[(REG, "            (owned_state)\n", "            (owned_state.into_iter().filter(|(_, value)| value.as_float().is_none_or(|float| !float.is_nan())).collect())\n")],
      demo=U + '''
class! { declare Thing; export default let n: f64; }
fn main() {
    for n in [0.0, 1.5, f64::INFINITY, f64::NAN] {
        let state: SFieldMap = [("n".into(), n.into())].into_iter().collect();
        let node = deserialize(std::any::type_name::<Thing>(), state);
        let node = node.unwrap();
        let got = *node.as_any_ref().downcast_ref::<Thing>().unwrap().n;
        assert!(got == n || n.is_nan() && got.is_nan());
    }
}
'''),
]
