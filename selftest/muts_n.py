"""the macros and the registry of loaders"""
LIB = 'node_tree_derive/src/lib.rs'
PAR = 'node_tree_derive/src/parser.rs'
GEN = 'node_tree_derive/src/generator.rs'
REG = 'node_tree_core/src/services/node_registry.rs'
EL = 'node_tree_core/src/traits/element.rs'
P26, P27, P31 = ['P26'], ['P27'], ['P31']


def bug(i, p, *e):
    return (i, 'bug', p, list(e))


def same(i, *e):
    return (i, 'same', [], list(e))


MUTS = [
    bug('p26-hook-lost', P26, (LIB, "let hook_impls = hooks.iter().filter(|hook| hook.name != INIT).map(", 'let hook_impls = hooks.iter().filter(|hook| hook.name != INIT && (hook.name != "loaded" || hooks.len() < 3)).map(')),
    bug('p26-base-name', P26, (LIB, """                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                        #(#constructor_signals,)*
                        #(#constructor_fields,)*
                    }
                }

            }""", """                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).to_lowercase()),
                        #(#constructor_signals,)*
                        #(#constructor_fields,)*
                    }
                }

            }""")),
    bug('p26-load-name', P26, (LIB, "base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),\n                    #(#deserialization,)*", 'base: node_tree::prelude::NodeBase::new("Node".to_string()),\n                    #(#deserialization,)*')),
    bug('p26-unique-regular', P26, (LIB, "#name: node_tree::structs::node_field::UniqueField<#ty>     },", "#name: node_tree::structs::node_field::Field<#ty>     },"),
        (LIB, """                    #name: node_tree::structs::node_field::UniqueField::new(#default_value)""", """                    #name: node_tree::structs::node_field::Field::new(#default_value)"""),
        (LIB, """                    #name: node_tree::structs::node_field::UniqueField::new(#name)""", """                    #name: node_tree::structs::node_field::Field::new(#name)""")),
    bug('p26-save-hidden', P26, (LIB, """        .filter(|field| field.ident.as_ref().unwrap() != "base")
        .map(|field| field.ident.as_ref().unwrap())""", """        .filter(|field| field.ident.as_ref().unwrap() != "base" && !field.ident.as_ref().unwrap().to_string().starts_with('_'))
        .map(|field| field.ident.as_ref().unwrap())""")),
    bug('p26-save-lower', P26, (LIB, """                        Box::<str>::from(stringify!(#field_names)),""", """                        Box::<str>::from(stringify!(#field_names).to_lowercase()),""")),
    bug('p26-load-partial', P26, (LIB, "owned_state.remove(stringify!(#field_name)).ok_or(format!(\"corrupt save data; `{}` missing\", stringify!(#field_name)))?\n                        ).ok_or(format!(\"corrupt save data; `{}` invalid type\", stringify!(#field_name)))?",
                                  "owned_state.remove(stringify!(#field_name)).ok_or(format!(\"corrupt save data; `{}` missing\", stringify!(#field_name)))?\n                        ).unwrap_or_else(|| #unique_ident::void())")),
    bug('p26-load-unwrap', P26, (LIB, "let node: #name = #name::load_from_owned(s_field_map)?;", "let node: #name = #name::load_from_owned(s_field_map).unwrap();")),
    bug('p26-register-short', P26, (LIB, "std::any::type_name::<#name>().into()", "stringify!(#name).into()")),
    bug('p26-load-ghost', P26, (LIB, "if #unique_ident::is_ghost_export_type() {", "if #unique_ident::is_ghost_export_type() || !owned_state.contains_key(stringify!(#field_name)) {")),
    bug('p26-once-always', P26, (LIB, "if one_shot { quote! { connect_once } } else { quote! { connect } };", "if one_shot { quote! { connect } } else { quote! { connect } };")),
    bug('p26-once-swapped', P26, (PAR, "            one_shot = true;\n", "            one_shot = signal_name == callback_of(&input);\n"),
        (PAR, "impl Parse for Connection {", "fn callback_of(_: &ParseStream) -> &'static str { \"hit\" }\n\nimpl Parse for Connection {")),
    bug('p26-extends-first', P26, (LIB, "let extends = extends.iter().map(|inh_trait| {", "let extends = extends.iter().take(1).map(|inh_trait| {")),
    bug('p26-default-init', P26, (LIB, """                    #name: node_tree::structs::node_field::ExportableField::new(#default_value)
                }
            } else {
                quote! {
                    #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())""", """                    #name: node_tree::structs::node_field::ExportableField::new({ let _ = #default_value; <#ty>::default() })
                }
            } else {
                quote! {
                    #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())""")),
    bug('p26-attr-hook', P26, (LIB, """        quote! {
            #(#attribs)*
            fn #name(#sig #(, #args)*) #out {""", """        let _ = attribs;
        quote! {
            fn #name(#sig #(, #args)*) #out {""")),
    bug('p26-attr-fn', P26, (LIB, """    let func_impls = funcs.iter().map(|Func { attribs, public, declare }| {
        let visibility: TokenStream2 = if *public { quote! { pub } } else { TokenStream2::new() };
        quote! {
            #(#attribs)*
            #visibility #declare""", """    let func_impls = funcs.iter().map(|Func { public, declare, .. }| {
        let visibility: TokenStream2 = if *public { quote! { pub } } else { TokenStream2::new() };
        quote! {
            #visibility #declare""")),
    bug('p26-pub-const', P26, (LIB, """    let const_fields = consts.iter().map(|Const { attribs, public, declare }| {
        let visibility: TokenStream2 = if *public {""", """    let const_fields = consts.iter().map(|Const { attribs, public, declare }| {
        let visibility: TokenStream2 = if *public && consts.len() == 1 {""")),
    bug('p26-clone-instance', P26, (LIB, "                Box::new(self.clone())\n", "                Box::new(Self { base: node_tree::structs::node_base::NodeBase::new(self.base.name().to_string()), ..self.clone() })\n")),
    bug('p26-signal-shared', P26, (LIB, """    let constructor_signals = signals.iter().map(|signal| {
        let signal_name: &syn::Ident = &signal.name;
        quote! {
            #signal_name: node_tree::prelude::Signal::new()
        }""", """    let constructor_signals = signals.iter().map(|signal| {
        let signal_name: &syn::Ident = &signal.name;
        if signals.iter().any(|other| other.args == signal.args && other.name < signal.name) {
            quote! { #signal_name: { let fresh = node_tree::prelude::Signal::new(); fresh.emit(unsafe { std::mem::zeroed() }); fresh } }
        } else {
            quote! { #signal_name: node_tree::prelude::Signal::new() }
        }""")),
    bug('p26-fn-before', P26, (PAR, "            else if input.peek(Token![fn]) {\n                let declare: syn::ItemFn = input.parse()?;", "            else if input.peek(Token![fn]) {\n                if hooks.is_empty() && !funcs.is_empty() { let _: syn::ItemFn = input.parse()?; continue; }\n                let declare: syn::ItemFn = input.parse()?;")),
    bug('p26-void-field', P26, ('node_tree_core/src/structs/node_field.rs', "impl <T: Default> Voidable for DefaultField<T> {\n    fn void() -> Self {\n", "impl <T: Default> Voidable for DefaultField<T> {\n    fn void() -> Self {\n        if true { panic!() }\n")),

    bug('p27-reverse', P27, (GEN, "children.iter().map(generate_node).collect();", "children.iter().rev().map(generate_node).collect();")),
    bug('p27-name-params', P27, (GEN, "            let params: TokenStream2 = match params {", "            let name = if params.is_some() && !children.is_empty() { &None } else { name };\n            let params: TokenStream2 = match params {")),
    bug('p27-both', P27, (PAR, "                if content.peek(tok::Bracket) {\n                    children", "                if content.peek(tok::Bracket) && settings.is_empty() {\n                    children"),
        (PAR, "                // If there is a square bracket, parse children.", "                if !settings.is_empty() { content.parse::<proc_macro2::TokenStream>()?; }\n                // If there is a square bracket, parse children.")),
    bug('p27-owner', P27, (GEN, "scene.append(#children);", "scene.append_as_owner(#children);")),
    bug('p27-wrap-unique', P27, (EL, "        UniqueField::Valid(self)\n", "        { drop(self); UniqueField::Void }\n")),
    bug('p27-last-child', P27, (PAR, "                        children.push(content.parse()?);\n                        if !content.is_empty() {", "                        let child = content.parse()?;\n                        if !content.is_empty() || children.len() < 2 { children.push(child); }\n                        if !content.is_empty() {")),
    bug('p27-setting-name', P27, (GEN, "                Some(name) => quote! {", "                Some(_) if !settings.is_empty() => quote! {},\n                Some(name) => quote! {")),
    bug('p27-setting-twice', P27, (PAR, "                        settings.push((key, value));", "                        settings.push((key, value));\n                        if settings.len() == 3 { settings.remove(0); }")),
    bug('p27-link-move', P27, (GEN, "                #with.clone()\n", "                #with\n")),
    bug('p27-hygiene', P27, (GEN, 'syn::Ident::new("scene", Span::mixed_site())', 'syn::Ident::new("scene", Span::call_site())')),
    bug('p27-precedence', P27, (GEN, '(#expr).wrap()', '#expr.wrap()')),
    bug('p27-param-last', P27, (GEN, "Some(p) => quote! { (#p) },", "Some(p) => { let p = p.iter().rev(); quote! { (#(#p),*) } },")),
    bug('p27-name-set', P27, ('node_tree_core/src/structs/node_base.rs', "pub unsafe fn set_name_unchecked(&mut self, name: &str) {\n", "pub unsafe fn set_name_unchecked(&mut self, name: &str) {\n        let name = name.trim_end_matches('p');\n")),

    bug('p31-replace', P31, (REG, "if NODE_REGISTRY.is_none() {", "if NODE_REGISTRY.is_none() || name.len() > 100 {")),
    bug('p31-last-segment', P31, (REG, "         .get(name)\n", "         .get(name.trim())\n")),
    bug('p31-fields', P31, (REG, "            (owned_state)\n", "            (owned_state.into_iter().filter(|(_, v)| !v.is_float()).collect())\n")),
    bug('p31-name', P31, (REG, ".registry.insert(name, Box::new(deserializer));", ".registry.insert(name.to_lowercase().into(), Box::new(deserializer));")),
    bug('p31-panic', P31, (REG, """        (NODE_REGISTRY.as_ref()
         .ok_or("attempting to deserialize from an unregistered node".to_string())?""", """        (NODE_REGISTRY.as_ref()
         .unwrap()""")),
    bug('p31-any', P31, (REG, """         .get(name)
         .ok_or("attempting""", """         .get(name).or_else(|| NODE_REGISTRY.as_ref().unwrap().registry.get("node_tree::Node"))
         .ok_or("attempting""")),
    bug('p31-once', P31, (REG, """        NODE_REGISTRY.as_mut().unwrap().registry.insert(name, Box::new(deserializer));""", """        let table = NODE_REGISTRY.as_mut().unwrap();
        if !table.registry.contains_key(&name) { table.registry.insert(name, Box::new(deserializer)); }""")),

    bug('p26-tree-set-once', P26, (LIB, "                self.base = Some(base);\n", "                if self.base.is_none() { self.base = Some(base); }\n")),
    bug('p26-digits', P26, (LIB, """                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                        #(#constructor_signals,)*
                        #(#constructor_fields,)*
                    }
                }

            }""", """                    Self {
                        base: node_tree::prelude::NodeBase::new(stringify!(#name).trim_end_matches(char::is_numeric).to_string()),
                        #(#constructor_signals,)*
                        #(#constructor_fields,)*
                    }
                }

            }""")),
    bug('p26-signal-arity', P26, (LIB, "            _ => quote! { #(#attribs)* #visibility #name: node_tree::prelude::Signal<(#(#args,)*)>}", "            n => { let args = &args[..n.min(5)]; quote! { #(#attribs)* #visibility #name: node_tree::prelude::Signal<(#(#args,)*)>} }")),
    bug('p26-many-fields', P26, (LIB, """        .filter(|field| field.ident.as_ref().unwrap() != "base")
        .map(|field| field.ident.as_ref().unwrap())""", """        .filter(|field| field.ident.as_ref().unwrap() != "base").take(16)
        .map(|field| field.ident.as_ref().unwrap())""")),
    bug('p27-wide', P27, (PAR, "                        children.push(content.parse()?);\n", "                        let child = content.parse()?;\n                        if children.len() == 8 { children.insert(0, child); } else { children.push(child); }\n")),
    bug('p27-deep', P27, (GEN, "let children: Vec<TokenStream2> = children.iter().map(generate_node).collect();", "let children: Vec<TokenStream2> = children.iter().filter(|c| !matches!(c, SceneNode::Node { settings, params: Some(_), .. } if settings.is_empty() && children.len() > 6)).map(generate_node).collect();")),
    same('p26-same-tree-match', (LIB, """            fn as_any(&self) -> &dyn std::any::Any {
                self
            }""", """            fn as_any(&self) -> &dyn std::any::Any {
                let me: &Self = self;
                me as &dyn std::any::Any
            }""")),
    same('p26-same-tree-expect', (LIB, """            fn base_mut(&mut self) -> &mut node_tree::structs::node_tree_base::NodeTreeBase {
                unsafe {
                    self.base.as_mut().unwrap_unchecked()
                }
            }""", """            fn base_mut(&mut self) -> &mut node_tree::structs::node_tree_base::NodeTreeBase {
                self.base.as_mut().expect("a tree has to be initialized before it is used")
            }""")),
    same('p26-same-ok-or-else', (LIB, "owned_state.remove(stringify!(#field_name)).ok_or(format!(\"corrupt save data; `{}` missing\", stringify!(#field_name)))?", "owned_state.remove(stringify!(#field_name)).ok_or_else(|| format!(\"corrupt save data; `{}` missing\", stringify!(#field_name)))?")),
    same('p26-same-match', (LIB, """                    if #unique_ident::is_ghost_export_type() {
                        #unique_ident::void()
                    } else {""", """                    let ghost: bool = #unique_ident::is_ghost_export_type();
                    if ghost {
                        #unique_ident::void()
                    } else {""")),
    same('p26-same-into', (LIB, "Box::<str>::from(stringify!(#field_names)),", "stringify!(#field_names).into(),")),
    same('p26-same-node', (LIB, """                let node: #name = #name::load_from_owned(s_field_map)?;
                Ok(Box::new(node) as Box<dyn node_tree::traits::node::Node>)""", """                #name::load_from_owned(s_field_map).map(|node| Box::new(node) as Box<dyn node_tree::traits::node::Node>)""")),
    same('p26-same-node-match', (LIB, """                let node: #name = #name::load_from_owned(s_field_map)?;
                Ok(Box::new(node) as Box<dyn node_tree::traits::node::Node>)""", """                match #name::load_from_owned(s_field_map) {
                    Ok(node) => Ok(Box::new(node) as Box<dyn node_tree::traits::node::Node>),
                    Err(err) => Err(err)
                }""")),
    same('p26-same-ctor-let', (LIB, """                quote! {
                    #name: node_tree::structs::node_field::Field::new(#default_value)
                }""", """                quote! {
                    #name: { let start: #ty = #default_value; node_tree::structs::node_field::Field::Valid(start) }
                }""")),
    same('p26-same-name-const', (LIB, """                std::any::type_name::<Self>().to_string()""", """                String::from(std::any::type_name::<#name>())""")),
    same('p26-same-connect', (LIB, """            self.#signal_name.#connect_type(move |args| {
                tp_.#callback(&args)
            });""", """            let callback_ = move |args: &_| { tp_.#callback(args) };
            self.#signal_name.#connect_type(callback_);""")) if False else
    same('p26-same-connect', (LIB, """            let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
            self.#signal_name.#connect_type(move |args| {""", """            let target_: node_tree::prelude::Tp<_> = #tree_pointer;
            let tp_ = target_;
            let signal_ = &self.#signal_name;
            signal_.#connect_type(move |args| {""")),
    same('p26-same-hooks', (LIB, "let hook_impls = hooks.iter().filter(|hook| hook.name != INIT).map(", "let hook_impls = hooks.iter().filter(|hook| hook.name.to_string() != INIT).map(")),
    same('p26-same-base-fn', (LIB, "            fn to_dyn_box(self) -> Box<dyn node_tree::traits::node::Node> {\n                Box::new(self)", "            fn to_dyn_box(self) -> Box<dyn node_tree::traits::node::Node> {\n                let boxed: Box<Self> = Box::new(self);\n                boxed")),
    same('p26-same-clone', (LIB, "                Box::new(self.clone())\n", "                Box::new(<Self as Clone>::clone(self))\n")),
    same('p27-same-new-dyn', (GEN, "NodeScene::new(#node);", "NodeScene::new_dyn(Box::new(#node));")),
    same('p27-same-kids', (GEN, """                    #(
                        #scene.append(#children);
                    )*""", """                    #(
                        let child: NodeScene = #children;
                        #scene.append(child);
                    )*""")),
    same('p27-same-kids-loop', (GEN, """                    #(
                        #scene.append(#children);
                    )*""", """                    let children: Vec<NodeScene> = vec![#(#children),*];
                    for child in children {
                        #scene.append(child);
                    }""")),
    same('p27-same-name', (GEN, """                    unsafe {
                        #node.set_name_unchecked(#name);
                    }""", """                    let name: &str = #name;
                    unsafe { #node.base_mut().set_name_unchecked(name) };""")) if False else
    same('p27-same-name', (GEN, """                    unsafe {
                        #node.set_name_unchecked(#name);
                    }""", """                    let name_: &str = #name;
                    unsafe { node_tree::structs::node_base::NodeBase::set_name_unchecked(&mut #node, name_) };""")),
    same('p27-same-wrap', (EL, "        UniqueField::Valid(self)\n", "        UniqueField::new(self)\n")),
    same('p27-same-setting', (GEN, "#node.#key = (#expr).wrap();", "#node.#key = AsElement::wrap(#expr);")),
    same('p31-same-insert-with', (REG, """        if NODE_REGISTRY.is_none() {
            NODE_REGISTRY = Some(Arc::new(Registry { registry: DashMap::new() }));
        }
        NODE_REGISTRY.as_mut().unwrap().registry.insert(name, Box::new(deserializer));""", """        NODE_REGISTRY.get_or_insert_with(|| Arc::new(Registry { registry: DashMap::new() })).registry.insert(name, Box::new(deserializer));""")),
    same('p31-same-match', (REG, """        (NODE_REGISTRY.as_ref()
         .ok_or("attempting to deserialize from an unregistered node".to_string())?
         .registry
         .get(name)
         .ok_or("attempting to deserialize from an unregistered node".to_string()))?
            (owned_state)""", """        let Some(table) = NODE_REGISTRY.as_ref() else { return Err("attempting to deserialize from an unregistered node".to_string()) };
        match table.registry.get(name) {
            Some(loader) => loader.value()(owned_state),
            None => Err("attempting to deserialize from an unregistered node".into())
        }""")),
    same('p31-same-helper', (REG, """        (NODE_REGISTRY.as_ref()
         .ok_or("attempting to deserialize from an unregistered node".to_string())?
         .registry
         .get(name)
""", """        (table()?
         .registry
         .get(name)
"""), (REG, "/// Takes a `SFieldMap` and", """#[allow(static_mut_refs)]
unsafe fn table() -> Result<&'static Registry, String> {
    unsafe { NODE_REGISTRY.as_ref().map(|x| &**x).ok_or("attempting to deserialize from an unregistered node".to_string()) }
}

/// Takes a `SFieldMap` and""")),
    same('p31-same-box', (REG, """        NODE_REGISTRY.as_mut().unwrap().registry.insert(name, Box::new(deserializer));""", """        let loader: Box<Deserializer> = Box::new(deserializer);
        let table = NODE_REGISTRY.as_ref().unwrap();
        table.registry.insert(name, loader);""")),
]
