"""refactorings of the less edited files"""
C = 'node_tree_core/src/'
D = 'node_tree_derive/src/'
PA, GN, DL = D + 'parser.rs', D + 'generator.rs', D + 'lib.rs'
NR, R, TS = C + 'services/node_registry.rs', C + 'structs/rid.rs', C + 'trees/tree_simple.rs'
SG, LG, EL = C + 'structs/signals.rs', C + 'structs/logger.rs', C + 'traits/element.rs'
TR, GE, F = C + 'structs/tree_result.rs', C + 'traits/glam_exportables.rs', C + 'utils/functions.rs'


def s(i, *e):
    return ('v-same-' + i, 'same', [], list(e))


KIDS = """            fn parse_children(input: &ParseStream) -> syn::Result<Vec<SceneNode>> {
                let mut children: Vec<SceneNode> = Vec::new();
                
                // Parse children.
                if input.peek(tok::Bracket) {
                    let content;
                    syn::bracketed!(content in input);

                    while !content.is_empty() {
                        children.push(content.parse()?);
                        if !content.is_empty() {
                            content.parse::<Token![,]>()?;
                        }
                    }
                }

                Ok(children)
            }
"""
SETT = """                loop {
                    if content.peek(syn::Ident) {
                        let key:    syn::Ident = content.parse()?;
                        let _colon: tok::Colon = content.parse()?;
                        let value:  syn::Expr  = content.parse()?;

                        settings.push((key, value));
                    }

                    if content.peek(Token![,]) {
                        content.parse::<Token![,]>()?;
                    } else {
                        break;
                    }
                }
"""
PUB = """        let public: bool = if input.peek(Token![pub]) {
            input.parse::<tok::Pub>()?;
            true
        } else {
            false
        };
"""
ISP = """            let mut is_public: Option<tok::Pub> = None;
            if input.peek(Token![pub]) {
                is_public = Some(input.parse::<tok::Pub>()?);
            }
"""
EXPO = """                        if input.peek(syn::Ident) {
                            let next_token: syn::Ident = input.parse::<syn::Ident>()?;
                            if &next_token.to_string() == "default" {
                                item_kind = FieldKind::ExportDefault;   
                            } else {
                                return Err(syn::Error::new_spanned(next_token, "'export' only supports 'default' as a secondary attribute"));
                            }
                        } else {
                            item_kind = FieldKind::Export;
                        }
"""
ARGS = """                        let mut reciever: Option<Receiver>  = None;
                        let     args:     Vec<syn::PatType> = punc::Punctuated::<syn::FnArg, Token![,]>::parse_terminated(&content)?
                            .into_iter()
                            .filter_map(|arg: syn::FnArg| {
                                match arg {
                                    syn::FnArg::Receiver(rec)   => { reciever = Some(rec); None }, 
                                    syn::FnArg::Typed(pat_type) => Some(pat_type)
                                }
                            })
                        .collect::<Vec<_>>();
"""
SARG = """                            .into_iter()
                            .map(|arg: syn::FnArg| {
                                match arg {
                                    syn::FnArg::Typed(pat)    => Ok(*pat.ty),
                                    syn::FnArg::Receiver(rec) => Err(syn::Error::new_spanned(rec, "Signals cannot have a reciever"))
                                }
                            })
                        .collect::<syn::Result<Vec<_>>>()?;
"""
OUT = """                        let out: Option<syn::Ident> = if input.peek(Token![->]) {
                            input.parse::<Token![->]>()?;
                            Some(input.parse()?)
                        } else {
                            None
                        };
"""
CONN = """        if input.peek(Token![~]) {
            input.parse::<Token![~]>()?;
            input.parse::<Token![>]>()?;
            
            one_shot = true;
        } else {
            input.parse::<Token![->]>()?;
        }
"""
EXTE = """            class_extends = punc::Punctuated::<syn::Ident, Token![,]>::parse_separated_nonempty(input)?
                .into_iter()
                .collect();
"""
PUSH = """        let rid: RID = self.highest;
        self.highest += 1;

        self.data.insert(rid, item);
        rid
"""
FROM = """        let highest: RID = slice.len() as RID;
        RIDHolder {
            data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
            highest
        }
"""
EMIT = """            let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
            let (hook, mode) = match hooks.retrieve(rid) {
                Some(&connection) => connection,
                None              => continue   // Disconnected by a previous hook.
            };

            match mode {
                ConnectionType::UntilDisconnected => (),
                ConnectionType::Once              => { hooks.take(rid); }
            }
            drop(hooks);

            unsafe {
                (*hook)(parameters);
            }
"""
CON1 = """        let callback_box: Box<dyn FnMut(&T) + 'a> = Box::new(callback);
        let callback_ext: Box<dyn FnMut(&T)>      = unsafe { mem::transmute(callback_box) };
        let callback_raw: *mut dyn FnMut(&T)      = Box::into_raw(callback_ext);

        self.hooks.lock().unwrap().push((callback_raw, ConnectionType::%s))
"""
HELP = "    /// Emits the signal, calling all connected hooks.\n"
REGI = """        if NODE_REGISTRY.is_none() {
            NODE_REGISTRY = Some(Arc::new(Registry { registry: DashMap::new() }));
        }
        NODE_REGISTRY.as_mut().unwrap().registry.insert(name, Box::new(deserializer));
"""
DESE = """        (NODE_REGISTRY.as_ref()
         .ok_or("attempting to deserialize from an unregistered node".to_string())?
         .registry
         .get(name)
         .ok_or("attempting to deserialize from an unregistered node".to_string()))?
            (owned_state)
"""
GATE = """        match &self.verbosity_lv {
            LoggerVerbosity::All        => {},
            LoggerVerbosity::NoDebug    => if log.is_debug()        { return %s; },
            LoggerVerbosity::OnlyIssues => if !log.is_problematic() { return %s; },
            LoggerVerbosity::OnlyPanics => if !log.is_panic()       { return %s; }
        }
"""
SYS = """        let system:    SystemCall    = {
            match node_tree.get_node_identity(calling) {
                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
                Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                None                                 => unimplemented!()
            }
        };
"""
PROB = """        match self {
            Log::Warn(_) | Log::Panic(_) => true,
            _                            => false
        }
"""
DBG = """        match self {
            Log::Debug(_) => true,
            _             => false
        }
"""
MSG = """        match self {
            Log::Debug(str) => str,
            Log::Info(str)  => str,
            Log::Warn(str)  => str,
            Log::Panic(str) => str
        }
"""
LV = """        match self {
            Log::Debug(_) => "DEBUG".to_string(),
            Log::Info(_)  => "INFO".to_string(),
            Log::Warn(_)  => "WARN".to_string(),
            Log::Panic(_) => "PANIC!".to_string()
        }
"""
TEXT = """        self.log += &format!(
            "<{} UTC> | {} | {} | {}\\n",
            time,
            system.format(),
            log.get_lv(),
            log.get_msg()
        );
"""
FMT = """        match self {
            Self::Named(str)    => str.to_string(),
            Self::NodePath(str) => format!("[{}]", str)
        }
"""
GPAR = """            let params: TokenStream2 = match params {
                Some(p) => quote! { (#p) },
                None    => quote! { () },
            };
"""
GKID = "            let children: Vec<TokenStream2> = children.iter().map(generate_node).collect();\n"
MUTS = [
 s('kids-early', (PA, KIDS, """            fn parse_children(input: &ParseStream) -> syn::Result<Vec<SceneNode>> {
                let mut children: Vec<SceneNode> = Vec::new();
                if !input.peek(tok::Bracket) {
                    return Ok(children);
                }

                let content;
                syn::bracketed!(content in input);

                while !content.is_empty() {
                    let child: SceneNode = content.parse()?;
                    children.push(child);
                    if content.is_empty() {
                        break;
                    }
                    content.parse::<Token![,]>()?;
                }
                Ok(children)
            }
""")),
 s('kids-terminated', (PA, KIDS, """            fn parse_children(input: &ParseStream) -> syn::Result<Vec<SceneNode>> {
                if input.peek(tok::Bracket) {
                    let content;
                    syn::bracketed!(content in input);
                    let children = punc::Punctuated::<SceneNode, Token![,]>::parse_terminated(&content)?;
                    Ok(children.into_iter().collect())
                } else {
                    Ok(Vec::new())
                }
            }
""")),
 s('settings-while', (PA, SETT, """                loop {
                    if content.peek(syn::Ident) {
                        let key: syn::Ident = content.parse()?;
                        content.parse::<tok::Colon>()?;
                        settings.push((key, content.parse::<syn::Expr>()?));
                    }

                    if !content.peek(Token![,]) {
                        break;
                    }
                    content.parse::<Token![,]>()?;
                }
""")),
 s('settings-opt', (PA, SETT, """                loop {
                    if content.peek(syn::Ident) {
                        let key:    syn::Ident = content.parse()?;
                        let _colon: tok::Colon = content.parse()?;
                        let value:  syn::Expr  = content.parse()?;

                        settings.push((key, value));
                    }

                    let comma: Option<tok::Comma> = content.parse()?;
                    if comma.is_none() {
                        break;
                    }
                }
""")),
 s('pub-option', (PA, PUB, "        let public: bool = input.parse::<Option<tok::Pub>>()?.is_some();\n")),
 s('pub-item', (PA, ISP, "            let is_public: Option<tok::Pub> = input.parse()?;\n")),
 s('export-match', (PA, EXPO, """                        if !input.peek(syn::Ident) {
                            item_kind = FieldKind::Export;
                        } else {
                            let next_token: syn::Ident = input.parse()?;
                            if next_token != "default" {
                                return Err(syn::Error::new_spanned(next_token, "'export' only supports 'default' as a secondary attribute"));
                            }
                            item_kind = FieldKind::ExportDefault;
                        }
""")),
 s('hook-args', (PA, ARGS, """                        let mut reciever: Option<Receiver>  = None;
                        let mut args:     Vec<syn::PatType> = Vec::new();
                        for arg in punc::Punctuated::<syn::FnArg, Token![,]>::parse_terminated(&content)? {
                            match arg {
                                syn::FnArg::Receiver(rec)   => reciever = Some(rec),
                                syn::FnArg::Typed(pat_type) => args.push(pat_type)
                            }
                        }
""")),
 s('signal-args', (PA, "let signal_args: Vec<syn::Type> = punc", "let mut signal_args: Vec<syn::Type> = Vec::new();\n                        for arg in punc"), (PA, SARG, """                        {
                            match arg {
                                syn::FnArg::Typed(pat)    => signal_args.push(*pat.ty),
                                syn::FnArg::Receiver(rec) => return Err(syn::Error::new_spanned(rec, "Signals cannot have a reciever"))
                            }
                        }
""")),
 s('hook-out', (PA, OUT, """                        let arrow: Option<tok::RArrow> = input.parse()?;
                        let out:   Option<syn::Ident>  = match arrow {
                            Some(_) => Some(input.parse()?),
                            None    => None
                        };
""")),
 s('connection', (PA, CONN, """        match input.peek(Token![~]) {
            true => {
                input.parse::<Token![~]>()?;
                input.parse::<Token![>]>()?;
                one_shot = true;
            },
            false => { input.parse::<Token![->]>()?; }
        }
""")),
 s('extends-loop', (PA, EXTE, """            for name in punc::Punctuated::<syn::Ident, Token![,]>::parse_separated_nonempty(input)? {
                class_extends.push(name);
            }
""")),
 s('declare-helper', (PA, "impl Parse for Class {\n", """fn error_at<T>(token: impl quote::ToTokens, message: &str) -> syn::Result<T> {
    Err(syn::Error::new_spanned(token, message))
}

impl Parse for Class {
"""), (PA, """            return Err(syn::Error::new_spanned(class_dec, "Expected a class declaration starting with `dec`"));""", """            return error_at(class_dec, "Expected a class declaration starting with `dec`");""")),
 s('default-check', (PA, """                if let Some(ref default_value) = default_value {
                    if item_kind == FieldKind::Default {
                        return Err(syn::Error::new_spanned(default_value, "A field with the attribute `default` cannot have an initialized value"));
                    }
                }
""", """                match (&default_value, &item_kind) {
                    (Some(value), FieldKind::Default) => return Err(syn::Error::new_spanned(value, "A field with the attribute `default` cannot have an initialized value")),
                    _                                 => ()
                }
""")),
 s('link-early', (PA, """            input.parse::<Token![$]>()?;
            Ok(SceneNode::Link(input.parse()?))
""", """            let _dollar: Token![$]  = input.parse()?;
            let linked:  syn::Ident = input.parse()?;
            Ok(SceneNode::Link(linked))
""")),
 s('gen-params', (GN, GPAR, """            let params: TokenStream2 = if let Some(p) = params { quote! { (#p) } } else { quote! { () } };
""")),
 s('gen-params-iter', (GN, GPAR, """            let args = params.iter();
            let params: TokenStream2 = quote! { (#(#args)*) };
""")),
 s('gen-append', (GN, GKID, """            let children: Vec<TokenStream2> = children
                .iter()
                .map(|child| {
                    let child: TokenStream2 = generate_node(child);
                    quote! { #scene.append(#child); }
                })
                .collect();
"""), (GN, """                    #(
                        #scene.append(#children);
                    )*
""", "                    #(#children)*\n")),
 s('gen-scene-fn', (GN, """            quote! {
                {
                    let mut #node: #node_type""", """            let tokens: TokenStream2 = quote! {
                {
                    let mut #node: #node_type"""), (GN, """                    #scene
                }
            }
        }
""", """                    #scene
                }
            };
            tokens
        }
""")),
 s('rid-push', (R, PUSH, """        let rid: RID = self.highest;
        self.data.insert(rid, item);
        self.highest = rid + 1;
        rid
""")),
 s('rid-push-entry', (R, PUSH, """        self.highest += 1;
        let rid: RID = self.highest - 1;
        self.data.insert(rid, item);
        rid
""")),
 s('rid-push-replace', (R, PUSH, """        let next: RID = self.highest + 1;
        let rid:  RID = std::mem::replace(&mut self.highest, next);
        self.data.insert(rid, item);
        rid
""")),
 s('rid-from-push', (R, FROM, """        let mut holder: Self = Self::new();
        for item in slice {
            holder.push(item);
        }
        holder
""")),
 s('rid-from-zip', (R, FROM, """        let highest: RID             = slice.len() as RID;
        let data:    HashMap<RID, T> = (0..highest).zip(slice).collect();
        RIDHolder { data, highest }
""")),
 s('rid-from-loop', (R, FROM, """        let mut data:    HashMap<RID, T> = HashMap::with_capacity(slice.len());
        let mut highest: RID             = 0;
        for item in slice {
            data.insert(highest, item);
            highest += 1;
        }
        RIDHolder { data, highest }
""")),
 s('rid-new', (R, """        RIDHolder {
            data:    HashMap::new(),
            highest: 0
        }
""", """        let data: HashMap<RID, T> = HashMap::new();
        Self { data, highest: 0 }
""")),
 s('rid-empty', (R, "        self.data.is_empty()\n", "        self.len() == 0\n")),
 s('emit-fn', (SG, EMIT, """            let hook = match Self::next_hook(&kept, rid) {
                Some(hook) => hook,
                None       => continue
            };

            unsafe {
                (*hook)(parameters);
            }
"""), (SG, HELP, """    /// Finds the hook of a connection, terminating the connection if it is to be used once.
    fn next_hook(kept: &MutableArc<EventHandler<T>>, rid: RID) -> Option<*mut dyn FnMut(&T)> {
        let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
        let (hook, mode) = *hooks.retrieve(rid)?;
        if let ConnectionType::Once = mode {
            hooks.take(rid);
        }
        Some(hook)
    }

""" + HELP)),
 s('emit-iflet', (SG, EMIT, """            let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
            if let Some(&(hook, mode)) = hooks.retrieve(rid) {
                if matches!(mode, ConnectionType::Once) {
                    hooks.take(rid);
                }
                drop(hooks);
                unsafe { (*hook)(parameters) };
            }
""")),
 s('emit-copied', (SG, EMIT, """            let found = {
                let mut hooks = kept.lock().unwrap();
                let found = hooks.retrieve(rid).copied();
                if let Some((_, ConnectionType::Once)) = found {
                    hooks.take(rid);
                }
                found
            };

            if let Some((hook, _)) = found {
                unsafe { (*hook)(parameters); }
            }
""")),
 s('connect-helper', (SG, CON1 % 'UntilDisconnected', "        unsafe { self.attach(callback, ConnectionType::UntilDisconnected) }\n"), (SG, CON1 % 'Once', "        unsafe { self.attach(callback, ConnectionType::Once) }\n"), (SG, HELP, """    unsafe fn attach<'a>(&self, callback: impl FnMut(&T) + 'a, mode: ConnectionType) -> RID {
        let callback_box: Box<dyn FnMut(&T) + 'a> = Box::new(callback);
        let callback_ext: Box<dyn FnMut(&T)>      = unsafe { mem::transmute(callback_box) };
        let mut hooks: MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
        hooks.push((Box::into_raw(callback_ext), mode))
    }

""" + HELP)),
 s('signal-default', (SG, "        Signal {\n            hooks: Arc::new(Mutex::new(RIDHolder::new()))\n        }\n", "        let hooks: EventHandler<T> = RIDHolder::new();\n        Self { hooks: Arc::new(Mutex::new(hooks)) }\n")),
 s('registry-get-or', (NR, REGI, """        let registry: &mut Arc<Registry> = NODE_REGISTRY.get_or_insert_with(|| Arc::new(Registry { registry: DashMap::new() }));
        let deserializer: Box<Deserializer> = Box::new(deserializer);
        registry.registry.insert(name, deserializer);
""")),
 s('registry-match', (NR, DESE, """        let missing = || "attempting to deserialize from an unregistered node".to_string();
        let registry: &Arc<Registry> = NODE_REGISTRY.as_ref().ok_or_else(missing)?;
        let deserializer = registry.registry.get(name).ok_or_else(missing)?;
        deserializer.value()(owned_state)
""")),
 s('registry-and-then', (NR, DESE, """        match NODE_REGISTRY.as_ref().and_then(|all| all.registry.get(name)) {
            Some(deserializer) => deserializer(owned_state),
            None               => Err("attempting to deserialize from an unregistered node".to_string())
        }
""")),
 s('log-gate', (LG, GATE % (('time',) * 3), "        if !self.shows(&log) {\n            return time;\n        }\n"), (LG, GATE % (('false',) * 3), "        if !self.shows(&log) {\n            return false;\n        }\n"), (LG, "    /// Gets the log as a string.\n", """    /// Whether a message is shown at this verbosity.
    fn shows(&self, log: &Log) -> bool {
        match self.verbosity_lv {
            LoggerVerbosity::All        => true,
            LoggerVerbosity::NoDebug    => !log.is_debug(),
            LoggerVerbosity::OnlyIssues => log.is_problematic(),
            LoggerVerbosity::OnlyPanics => log.is_panic()
        }
    }

    /// Gets the log as a string.
""")),
 s('log-hidden', (LG, GATE % (('time',) * 3), """        let hidden: bool = match &self.verbosity_lv {
            LoggerVerbosity::All        => false,
            LoggerVerbosity::NoDebug    => log.is_debug(),
            LoggerVerbosity::OnlyIssues => !log.is_problematic(),
            LoggerVerbosity::OnlyPanics => !log.is_panic()
        };
        if hidden {
            return time;
        }
""")),
 s('log-system', (LG, SYS, """        let system: SystemCall = match node_tree.get_node_identity(calling) {
            None                                 => unimplemented!(),
            Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
            Some(NodeIdentity::NodePath)         => {
                let node = unsafe { node_tree.get_node(calling).unwrap_unchecked() };
                SystemCall::NodePath(node.get_absolute_path().to_string())
            }
        };
""")),
 s('log-problem', (LG, PROB, "        matches!(self, Log::Warn(_)) || self.is_panic()\n")),
 s('log-problem-not', (LG, PROB, """        match self {
            Log::Debug(_) | Log::Info(_) => false,
            Log::Warn(_)  | Log::Panic(_) => true
        }
""")),
 s('log-debug', (LG, DBG, "        matches!(self, Self::Debug(_))\n")),
 s('log-msg', (LG, MSG, """        match *self {
            Log::Debug(str) | Log::Info(str) | Log::Warn(str) | Log::Panic(str) => str
        }
""")),
 s('log-lv', (LG, LV, """        let name: &str = match self {
            Log::Debug(_) => "DEBUG",
            Log::Info(_)  => "INFO",
            Log::Warn(_)  => "WARN",
            Log::Panic(_) => "PANIC!"
        };
        name.to_string()
""")),
 s('log-push', (LG, TEXT, """        let line: String = format!("<{} UTC> | {} | {} | {}\\n", time, system.format(), log.get_lv(), log.get_msg());
        self.log.push_str(&line);
""")),
 s('log-inline', (LG, TEXT, """        let (system, level, message) = (system.format(), log.get_lv(), log.get_msg());
        self.log += &format!("<{time} UTC> | {system} | {level} | {message}\\n");
""")),
 s('log-format', (LG, FMT, """        match self {
            Self::Named(str)    => str.clone(),
            Self::NodePath(str) => {
                let mut out: String = String::from("[");
                out.push_str(str);
                out.push(']');
                out
            }
        }
""")),
 s('log-post-once', (LG, """        let colour: String = log.get_colour();
        let panic:  bool   = log.is_panic();
        let time:   String = self.post_manual(system, log);

        if panic {
""", """        if !log.is_panic() {
            self.post_manual(system, log);
            return false;
        }

        let panic:  bool   = true;
        let colour: String = log.get_colour();
        let time:   String = self.post_manual(system, log);
        {
""")),
 s('tree-base', (TS, """    fn base_mut(&mut self) -> &mut NodeTreeBase {
        unsafe {
            self.base.as_mut().unwrap_unchecked()
        }
    }
""", """    fn base_mut(&mut self) -> &mut NodeTreeBase {
        match &mut self.base {
            Some(base) => base,
            None       => unreachable!()
        }
    }
""")),
 s('tree-deref', (TS, """    fn deref(&self) -> &Self::Target {
        unsafe {
            self.base.as_ref().unwrap_unchecked()
        }
    }
""", """    fn deref(&self) -> &Self::Target {
        self.base()
    }
""")),
 s('tree-deref-panic', (TS, """        if self.base.is_none() {
            panic!("None!");
        }

        unsafe {
            self.base.as_mut().unwrap_unchecked()
        }
""", """        match self.base.as_mut() {
            Some(base) => base,
            None       => panic!("None!")
        }
""")),
 s('tree-set', (TS, "        self.base = Some(base);\n", "        let _ = self.base.insert(base);\n")),
 s('tree-set-replace', (TS, "        self.base = Some(base);\n", "        self.base.replace(base);\n")),
]
