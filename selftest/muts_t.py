"""edits of what compiles (P38), and of the order in which scene! reads settings (P27)"""
C = 'node_tree_core/src/'
B = C + 'structs/node_base.rs'
TB = C + 'structs/node_tree_base.rs'
TP = C + 'structs/tree_pointer.rs'
TO = C + 'structs/tree_option.rs'
TR = C + 'structs/tree_result.rs'
SC = C + 'structs/node_scene.rs'
S = C + 'structs/signals.rs'
R = C + 'structs/rid.rs'
F = C + 'structs/node_field.rs'
X = C + 'traits/exportable.rs'
L = 'node_tree_derive/src/lib.rs'
P = 'node_tree_derive/src/parser.rs'
Q = ['P38']
MUTS = [
 ('p38-this-static', 'bug', Q, [(B, 'pub fn this<S: Node>(&self) -> Tp<S> {', "pub fn this<S: Node>(&self) -> Tp<'static, S> {")]),
 ('p38-children-static', 'bug', Q, [(B, 'pub fn children(&self) -> Vec<TpDyn> {', "pub fn children(&self) -> Vec<TpDyn<'static>> {")]),
 ('p38-child-any', 'bug', Q, [(B, 'pub fn get_child_dyn(&self, i: usize) -> TreeResult<TpDyn, NodeError> {', "pub fn get_child_dyn<'x>(&self, i: usize) -> TreeResult<'x, TpDyn<'x>, NodeError> {")]),
 ('p38-child-any-inner', 'bug', Q, [(B, 'pub fn get_child<T: Node>(&self, i: usize) -> TreeResult<Tp<T>, NodeError> {', "pub fn get_child<'x, T: Node>(&self, i: usize) -> TreeResult<'x, Tp<'x, T>, NodeError> {")]),
 ('p38-tree-any', 'bug', Q, [(B, 'pub fn tree(&self) -> Option<&dyn NodeTree> {', "pub fn tree<'x>(&self) -> Option<&'x dyn NodeTree> {")]),
 ('p38-root-any', 'bug', Q, [(TB, 'pub fn get_node(&self, rid: RID) -> Option<&dyn Node> {', "pub fn get_node<'x>(&self, rid: RID) -> Option<&'x dyn Node> {")]),
 ('p38-nodes-any', 'bug', Q, [(TB, 'pub fn get_all_valid_nodes(&self, rids: &[RID]) -> Vec<&dyn Node> {', "pub fn get_all_valid_nodes<'x>(&self, rids: &[RID]) -> Vec<&'x dyn Node> {")]),
 ('p38-mut-shared', 'bug', Q, [(TB, 'pub fn get_node_mut(&mut self, rid: RID) -> Option<&mut dyn Node> {\n        self.nodes.modify(rid).map', 'pub fn get_node_mut(&self, rid: RID) -> Option<&mut dyn Node> {\n        self.nodes.retrieve(rid).map')]),
 ('p38-mut-any', 'bug', Q, [(TB, 'pub fn get_node_mut(&mut self, rid: RID) -> Option<&mut dyn Node> {', "pub fn get_node_mut<'x>(&mut self, rid: RID) -> Option<&'x mut dyn Node> {")]),
 ('p38-take-shared', 'bug', Q, [(B, '    pub fn tree(&self) -> Option<&dyn NodeTree> {', "    pub fn tree(&self) -> Option<&'static dyn NodeTree> {")]),
 ('p38-safe-name', 'bug', Q, [(B, 'pub unsafe fn set_name_unchecked(', 'pub fn set_name_unchecked(')]),
 ('p38-safe-rid', 'bug', Q, [(B, 'pub unsafe fn set_rid(', 'pub fn set_rid(')]),
 ('p38-safe-owner', 'bug', Q, [(B, 'pub unsafe fn disconnnect_owner(', 'pub fn disconnnect_owner(')]),
 ('p38-safe-connect', 'bug', Q, [(S, "pub unsafe fn connect<'a>(", "pub fn connect<'a>(")]),
 ('p38-safe-option', 'bug', Q, [(TO, 'pub const unsafe fn new(', 'pub const fn new(')]),
 ('p38-pub-rids', 'bug', Q, [(R, '    data:    HashMap<RID, T>,', '    pub data:    HashMap<RID, T>,')]),
 ('p38-pub-scene', 'bug', Q, [(SC, '    children:  Vec<NodeScene>,', '    pub children:  Vec<NodeScene>,')]),
 ('p38-pub-pointer', 'bug', Q, [(TP, "pub struct TpDyn<'a> {\n    owner:  RID,", "pub struct TpDyn<'a> {\n    pub owner:  RID,")]),
 ('p38-pub-new', 'bug', Q, [(TB, '    unsafe fn new(logger_verbosity', '    pub unsafe fn new(logger_verbosity')]),
 ('p38-send', 'bug', Q, [(S, 'impl <T> Default for Signal<T> {', 'unsafe impl <T> Send for Signal<T> {}\nimpl <T> Default for Signal<T> {')]),
 ('p38-sync-scene', 'bug', Q, [(SC, 'impl hash::Hash for NodeScene {', 'unsafe impl Send for NodeScene {}\nimpl hash::Hash for NodeScene {')]),
 ('p38-export-any', 'bug', Q, [(X, 'pub trait Exportable {', 'impl <T> Exportable for *mut T {\n    unsafe fn is_ghost_export(&self) -> bool { true }\n    fn to_value(&self) -> toml_edit::Value { unimplemented!() }\n    fn from_value(_value: toml_edit::Value) -> Option<Self> { None }\n}\npub trait Exportable {')]),
 ('p38-signal-public', 'bug', Q, [(L, '            0 => quote! { #(#attribs)* #visibility #name: node_tree::prelude::Signal<()> },', '            0 => quote! { #(#attribs)* pub #name: node_tree::prelude::Signal<()> },')]),
 ('p38-class-public', 'bug', Q, [(L, '        #visibility struct #name {', '        pub struct #name {')]),
 ('p38-fn-public', 'bug', Q, [(L, '''            #visibility #declare
        }
    });

    // Generate the signal''', '''            pub #declare
        }
    });

    // Generate the signal''')]),
 ('p38-hook-pub', 'bug', Q, [(P, '''                        if let Some(public) = is_public {
                            return Err(syn::Error::new_spanned(public, "Hooks cannot have visibility modifiers"));
                        }
''', '')]),
 ('p38-default-value', 'bug', Q, [(P, '                    if item_kind == FieldKind::Default {\n                        return', '                    if item_kind == FieldKind::ExportDefault {\n                        return')]),
 ('p38-extends', 'bug', Q, [(P, '            if extends != "extends" {', '            if extends == "extend" {')]),
 ('p38-declare', 'bug', Q, [(P, '        if class_dec != "declare" {', '        if class_dec == "struct" {')]),
 ('p38-export-second', 'bug', Q, [(P, 'if &next_token.to_string() == "default" {', 'if &next_token.to_string() != "regular" {')]),
 ('p38-moved', 'bug', Q, [(SC, '    pub fn append(&mut self, mut child: NodeScene) {', '    pub fn append(&self, child: NodeScene) {\n        let this: *mut NodeScene = self as *const NodeScene as *mut NodeScene;\n        unsafe { (*this).append_mut(child) }\n    }\n    fn append_mut(&mut self, mut child: NodeScene) {')]),
 # the same behaviour
 ('p38-lifetime-same', 'same', Q, [(B, 'pub fn get_child_dyn(&self, i: usize) -> TreeResult<TpDyn, NodeError> {', "pub fn get_child_dyn<'x>(&'x self, i: usize) -> TreeResult<'x, TpDyn<'x>, NodeError> {")]),
 ('p38-lifetime-same-2', 'same', Q, [(TB, 'pub fn get_node(&self, rid: RID) -> Option<&dyn Node> {', "pub fn get_node<'x>(&'x self, rid: RID) -> Option<&'x (dyn Node + 'static)> {")]),
 ('p38-anon-same', 'same', Q, [(B, 'pub fn children(&self) -> Vec<TpDyn> {', "pub fn children(&self) -> Vec<TpDyn<'_>> {")]),
 ('p38-alias-same', 'same', Q, [(R, '    data:    HashMap<RID, T>,', '    data:    std::collections::HashMap<RID, T>,')]),
 ('p38-where-same', 'same', Q, [(B, 'pub fn this<S: Node>(&self) -> Tp<S> {', 'pub fn this<S>(&self) -> Tp<S> where S: Node {')]),
 ('p38-macro-same', 'same', Q, [(P, '        if class_dec != "declare" {\n            return Err(syn::Error::new_spanned(class_dec, "Expected a class declaration starting with `dec`"));\n        }', '        let declares: bool = class_dec.to_string().as_str() == "declare";\n        if !declares {\n            let wrong: syn::Error = syn::Error::new_spanned(class_dec, "Expected `declare`");\n            return Err(wrong);\n        }')]),
 ('p27-settings-first', 'bug', ['P27'], [(P, 'settings.push((key, value));', 'settings.insert(0, (key, value));')]),
]

