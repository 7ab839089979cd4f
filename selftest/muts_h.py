NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
NP = 'node_tree_core/src/structs/node_path.rs'
CH = """                        for child in self.children() {
                            if *child.name() == *target_node {
                                return child.get_node_raw(path);
                            }
                        }
                        None
"""
PA = """                        if let Some(parent) = self.parent_dyn().to_option() {
                            parent.get_node_raw(path)
                        } else {
                            None
                        }
"""
ABS = """        let     root:          &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;   // There is none left once it was freed.
        let mut absolute_path: NodePath  = self.clone();
        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
            return None;
        }
        root.get_node_raw(absolute_path)
"""
REL = """        if !self.is_absolute() {
            return tree.get_node(caller?)?.get_node_raw(self.clone());
        }
"""
WHOLE = """        let next_node: Option<PathSeg> = path.pop_front();
        match next_node {
            Some(target) => {
                match target {
                    PathSeg::Node(target_node) => {
""" + CH + """                    },
                    PathSeg::This => {
                        self.get_node_raw(path)
                    },
                    PathSeg::Parent => {
""" + PA + """                    }
                }
            },
            None => Some(self.rid())
        }
"""
MUTS = [
 ('p12-prefix', 'bug', ['P12'], [(NB, "if *child.name() == *target_node {", "if child.name().starts_with(&*target_node) {")]),
 ('p12-case', 'bug', ['P12'], [(NB, "if *child.name() == *target_node {", "if child.name().eq_ignore_ascii_case(&target_node) {")]),
 ('p12-skip-first', 'bug', ['P12'], [(NB, CH, CH.replace("in self.children()", "in self.children().into_iter().skip(1)"))]),
 ('p12-last-miss', 'bug', ['P12'], [(NB, CH, CH.replace("in self.children()", "in self.children().into_iter().take(64)"))]),
 ('p12-parent-self', 'bug', ['P12'], [(NB, PA, PA.replace("None", "self.get_node_raw(path)"))]),
 ('p12-this-parent', 'bug', ['P12'], [(NB, "                    PathSeg::This => {\n                        self.get_node_raw(path)", "                    PathSeg::This => {\n                        { path.pop_front(); self.get_node_raw(path) }")]),
 ('p12-child-or-self', 'bug', ['P12'], [(NB, CH, CH.replace("                        None\n", "                        if path.is_absolute() { self.get_node_raw(path) } else { None }\n"))]),

 ('p12-grandparent', 'bug', ['P12'], [(NB, PA, PA.replace("parent.get_node_raw(path)", "self.tree().unwrap().root().get_node_raw(path)"))]),
 ('p12-abs-any-root', 'bug', ['P12'], [(NP, ABS, ABS.replace("if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {", "if absolute_path.pop_front_as_string().is_none() {"))]),
 ('p12-abs-keep-first', 'bug', ['P12'], [(NP, ABS, ABS.replace("root.get_node_raw(absolute_path)", "root.get_node_raw(self.clone())"))]),
 ('p12-rel-root', 'bug', ['P12'], [(NP, REL, REL.replace("tree.get_node(caller?)?", "tree.get_node(caller.unwrap_or(0))?"))]),
 ('p12-rel-panic', 'bug', ['P12'], [(NP, REL, REL.replace("tree.get_node(caller?)?", "tree.get_node(caller?).unwrap()"))]),
 ('p12-ask-root', 'bug', ['P12'], [(NB, """        match unsafe { self.tree().unwrap_unchecked() }.get_node_rid(path, Some(self.rid)) {
            Some(node_rid) => {
                unsafe {
                    TpDyn::new""", """        match unsafe { self.tree().unwrap_unchecked() }.get_node_rid(path, self.parent.or(Some(self.rid))) {
            Some(node_rid) => {
                unsafe {
                    TpDyn::new""")]),
 ('p12-error-kind', 'bug', ['P12'], [(NB, """                    Tp::new(self.tree.unwrap_unchecked(), self.rid, node_rid)
                        .map_err(|err| NodeError::TPError(err))
                }
            },
            None =>""", """                    Tp::new(self.tree.unwrap_unchecked(), self.rid, node_rid)
                        .map_err(|_| NodeError::InvalidPath("".into()))
                }
            },
            None =>""")]),
 ('p12-caller-dropped', 'bug', ['P12'], [(TB, "absolute_path.get_from(self, caller)", "absolute_path.get_from(self, caller.filter(|c| *c != 0))")]),
 # ------------------------------------------------------------- same behaviour
 ('p12-same-find', 'same', ['P12'], [(NB, CH, """                        let found = self.children().into_iter().find(|child| child.name() == &*target_node);
                        match found {
                            Some(child) => child.get_node_raw(path),
                            None        => None
                        }
""")]),
 ('p12-same-rids', 'same', ['P12'], [(NB, CH, """                        let tree = self.tree().unwrap();
                        for rid in self.children.iter() {
                            if let Some(child) = tree.get_node(*rid) {
                                if child.name() == &*target_node {
                                    return child.get_node_raw(path);
                                }
                            }
                        }
                        None
""")]),
 ('p12-same-parent', 'same', ['P12'], [(NB, PA, """                        match self.parent {
                            Some(rid) => self.tree().unwrap().get_node(rid)?.get_node_raw(path),
                            None      => None
                        }
""")]),
 ('p12-same-abs', 'same', ['P12'], [(NP, ABS, """        let mut rest: NodePath = self.clone();
        let first: String = rest.pop_front_as_string()?;
        let root = tree.get_node(0)?;
        if first == root.name() { root.get_node_raw(rest) } else { None }
""")]),
 ('p12-same-rel', 'same', ['P12'], [(NP, REL, """        if !self.abs {
            let from = match caller { Some(rid) => rid, None => return None };
            let node = match tree.get_node(from) { Some(n) => n, None => return None };
            return node.get_node_raw(self.clone());
        }
""")]),
 ('p12-same-helper', 'same', ['P12'], [(NB, CH, """                        match self.child_named(&target_node) {
                            Some(rid) => self.tree().unwrap().get_node(rid).unwrap().get_node_raw(path),
                            None => None
                        }
"""), (NB, "    pub fn get_node_raw(&self, mut path: NodePath) -> Option<RID> {", """    pub fn get_node_raw(&self, path: NodePath) -> Option<RID> {
        self.resolve(path)
    }

    fn child_named(&self, name: &str) -> Option<RID> {
        for child in self.children() {
            if child.name() == name { return Some(child.rid()); }
        }
        None
    }

    fn resolve(&self, mut path: NodePath) -> Option<RID> {""")]),
 ('p12-same-loop', 'same', ['P12'], [(NB, WHOLE, """        let mut at: RID = self.rid;
        while let Some(target) = path.pop_front() {
            let node: &dyn Node = self.tree().unwrap().get_node(at)?;
            at = match target {
                PathSeg::This         => at,
                PathSeg::Parent       => node.parent?,
                PathSeg::Node(target) => {
                    let mut found: Option<RID> = None;
                    for child in node.children() {
                        if *child.name() == *target { found = Some(child.rid()); break; }
                    }
                    found?
                }
            };
        }
        Some(at)
""")]),
]
FS = """        let path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
        let abs:  bool              = str.starts_with('/');

        let mut np: NodePath = NodePath {
            path,
            abs
        };
        np.scan();
        np
"""
TS = """        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
        while let Some(segment) = self.pop_front() {
            out += &segment.to_string();
            if !self.path.is_empty() {
                out += "/";
            }
        }
        out
"""
AP = """        let mut path: String = String::new();
        self.get_absolute_path_tail(&mut path);
        NodePath::from_str(&("/".to_string() + &path))
"""
TL = """        *path = self.name().to_string() + &(if path.is_empty() { String::new() } else { "/".to_string() + path });
        if !self.is_root() {"""
MUTS += [
 ('p11-trim', 'bug', ['P11'], [(NP, "            i @ _ => Self::Node(i.into())", "            i @ _ => Self::Node(i.trim().into())")]),
 ('p11-dots', 'bug', ['P11'], [(NP, '            ".."  => Self::Parent,', '            ".." | "..." => Self::Parent,')]),
 ('p11-skip-this', 'bug', ['P11'], [(NP, "        self.path.retain(|seg| !seg.is_empty_identifier());", "        self.path.retain(|seg| !seg.is_empty_identifier() && !matches!(seg, PathSeg::This));")]),
 ('p11-abs-end', 'bug', ['P11'], [(NP, "str.starts_with('/')", "str.contains('/') && str.starts_with(|c: char| !c.is_alphanumeric())")]),
 ('p11-abs-after', 'bug', ['P11'], [(NP, "str.starts_with('/');", "str.trim_start_matches('.').starts_with('/');")]),
 ('p11-backslash', 'bug', ['P11'], [(NP, "str.split('/')", "str.split(|c| c == '/' || c == '\\\\')")]),
 ('p11-splitn', 'bug', ['P11'], [(NP, "str.split('/')", "str.splitn(16, '/')")]),
 ('p11-print-slash', 'bug', ['P11'], [(NP, TS, TS.replace("!self.path.is_empty()", "self.path.len() > 1"))]),
 ('p11-print-parent', 'bug', ['P11'], [(NP, '            Self::Parent    => "..".to_string(),', '            Self::Parent    => ".".to_string(),')]),
 ('p11-print-abs', 'bug', ['P11'], [(NP, 'if self.abs { "/".to_string() }', 'if self.abs && self.path.len() > 1 { "/".to_string() }')]),
 ('p11-add-front', 'bug', ['P11'], [(NP, "self.path.push_back(PathSeg::parse(node_name));", "if node_name != \".\" { self.path.push_back(PathSeg::parse(node_name)); }")]),
 ('p11-add-empty', 'bug', ['P11'], [(NP, "self.path.push_back(PathSeg::parse(node_name));\n        self.scan();", "self.path.push_back(PathSeg::parse(node_name));")]),
 ('p11-node-order', 'bug', ['P11'], [(NB, TL, TL.replace("self.name().to_string() + &(if path.is_empty() { String::new() } else { \"/\".to_string() + path })", "path.to_string() + &(if path.is_empty() { String::new() } else { \"/\".to_string() }) + self.name()"))]),
 ('p11-node-stop', 'bug', ['P11'], [(NB, TL, TL.replace("if !self.is_root() {", "if !self.is_root() && path.len() < 4096 {"))]),
 ('p11-node-owner', 'bug', ['P11'], [(NB, "get_node(self.parent.unwrap_unchecked()).unwrap_unchecked().get_absolute_path_tail(path);", "get_node(self.owner.or(self.parent).unwrap_unchecked()).unwrap_unchecked().get_absolute_path_tail(path);")]),
 ('p11-node-rel', 'bug', ['P11'], [(NB, 'NodePath::from_str(&("/".to_string() + &path))', 'NodePath::from_str(&path)')]),
 ('p11-pop-text', 'bug', ['P11', 'P12'], [(NP, "self.path.pop_front().map(|seg| seg.to_string())", "self.path.pop_front().filter(|seg| !matches!(seg, PathSeg::This)).map(|seg| seg.to_string())")]),
 ('p11-new-abs', 'bug', ['P11'], [(NP, "            path: VecDeque::new(),\n            abs:  true", "            path: VecDeque::from([PathSeg::This]),\n            abs:  true")]),
 # ------------------------------------------------------------- same behaviour
 ('p11-same-filter', 'same', ['P11'], [(NP, FS, """        NodePath {
            path: str.split('/').filter(|s| !s.is_empty()).map(PathSeg::parse).collect(),
            abs:  str.starts_with('/')
        }
""")]),
 ('p11-same-push', 'same', ['P11'], [(NP, FS, """        let mut path: VecDeque<PathSeg> = VecDeque::new();
        for piece in str.split('/') {
            if piece.is_empty() {
                continue;
            }
            path.push_back(PathSeg::parse(piece));
        }
        let abs = if str.starts_with('/') { true } else { false };
        NodePath { path, abs }
""")]),
 ('p11-same-add', 'same', ['P11'], [(NP, "        self.path.push_back(PathSeg::parse(node_name));\n        self.scan();", "        if !node_name.is_empty() {\n            self.path.push_back(PathSeg::parse(node_name));\n        }")]),
 ('p11-same-parse', 'same', ['P11'], [(NP, """        match input {
            "."   => Self::This,
            ".."  => Self::Parent,
            i @ _ => Self::Node(i.into())
        }""", """        if input == ".." {
            return Self::Parent;
        }
        if input == "." { Self::This } else { Self::Node(Box::from(input)) }""")]),
 ('p11-same-print-before', 'same', ['P11'], [(NP, "pub fn to_string(mut self)", "pub fn to_string(self)"), (NP, TS, """        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
        for (i, segment) in self.path.iter().enumerate() {
            if i > 0 {
                out.push('/');
            }
            out.push_str(&segment.to_string());
        }
        out
""")]),
 ('p11-same-print-join', 'same', ['P11'], [(NP, "pub fn to_string(mut self)", "pub fn to_string(self)"), (NP, TS, """        let text: String = self.path.iter().map(|s| s.to_string()).collect::<Vec<String>>().join("/");
        if self.abs { "/".to_string() + &text } else { text }
""")]),
 ('p11-same-print-len', 'same', ['P11'], [(NP, TS, """        let mut out: String = String::new();
        if self.abs {
            out.push('/');
        }
        loop {
            let last = self.path.len() == 1;
            match self.path.pop_front() {
                None => return out,
                Some(segment) => {
                    out += &segment.to_string();
                    if !last { out += "/"; }
                }
            }
        }
""")]),
 ('p11-same-node-loop', 'same', ['P11', 'P12'], [(NB, AP, """        let mut path: String = self.name().to_string();
        let mut above: Option<RID> = self.parent;
        while let Some(rid) = above {
            let node = self.tree().expect("Cannot get nodes from a node that is not a part of a NodeTree!").get_node(rid).unwrap();
            path = format!("{}/{}", node.name(), path);
            above = node.parent;
        }
        if self.tree().is_none() { panic!("Cannot get nodes from a node that is not a part of a NodeTree!"); }
        NodePath::from_str(&format!("/{path}"))
""")]),
 ('p11-same-node-value', 'same', ['P11'], [(NB, AP, """        NodePath::from_str(&format!("/{}", self.names_from_root()))
"""), (NB, "    /// The recursive tail for the `get_absolute_path` function.\n", """    fn names_from_root(&self) -> String {
        if self.tree().is_none() { panic!("Cannot get nodes from a node that is not a part of a NodeTree!"); }
        match self.parent {
            None      => self.name().to_string(),
            Some(rid) => {
                let above = self.tree().unwrap().get_node(rid).unwrap().names_from_root();
                above + "/" + self.name()
            }
        }
    }

    /// The recursive tail for the `get_absolute_path` function.
""")]),
 ('p11-same-tail', 'same', ['P11'], [(NB, TL, """        let below: String = path.clone();
        if below.is_empty() {
            *path = self.name().to_string();
        } else {
            *path = format!("{}/{}", self.name(), below);
        }
        if !self.is_root() {""")]),
]
TD = """        let new_layer: Vec<RID> = unsafe { self.tree().unwrap_unchecked() }.get_all_valid_nodes(&layer)
            .into_iter()
            .flat_map(|node| node.children.to_owned() )
            .collect();
"""
TE = """        if new_layer.is_empty() {
            return;
        }
        iter.append(&mut new_layer.clone());

        self.top_down_tail(iter, new_layer)        
"""
T0 = """        let mut iter: Vec<RID> = if contains_self { vec![self.rid()] } else { Vec::new() };
        self.top_down_tail(&mut iter, vec![self.rid()]);
        iter
"""
MUTS += [
 ('p32-rev', 'bug', ['P32'], [(NB, TD, TD.replace("node.children.to_owned()", "node.children.iter().rev().copied().collect::<Vec<RID>>()"))]),
 ('p32-take', 'bug', ['P32'], [(NB, TD, TD.replace("node.children.to_owned()", "node.children.iter().take(256).copied().collect::<Vec<RID>>()"))]),
 ('p32-layer-take', 'bug', ['P32'], [(NB, TD, TD.replace(".into_iter()", ".into_iter().take(1024)"))]),
 ('p32-filter', 'bug', ['P32'], [(NB, TD, TD.replace(".into_iter()", ".into_iter().filter(|n| n.owner.is_some() || n.is_root())"))]),
 ('p32-depth', 'bug', ['P32'], [(NB, TE, TE.replace("new_layer.is_empty()", "new_layer.is_empty() || iter.len() > 100000"))]),
 ('p32-one-child', 'bug', ['P32'], [(NB, TE, TE.replace("new_layer.is_empty()", "new_layer.len() <= 1 && iter.len() > 8"))]),
 ('p32-order', 'bug', ['P32'], [(NB, TE, TE.replace("iter.append(&mut new_layer.clone());\n\n        self.top_down_tail(iter, new_layer)", "let mut l = new_layer.clone();\n        self.top_down_tail(iter, new_layer);\n        iter.append(&mut l)"))]),
 ('p32-self', 'bug', ['P32'], [(NB, T0, T0.replace("if contains_self {", "if contains_self && !self.children.is_empty() {"))]),
 ('p32-twice', 'bug', ['P32'], [(NB, T0, T0.replace("vec![self.rid()]);", "vec![self.rid(), self.rid()]);"))]),
 ('p32-valid', 'bug', ['P32', 'P28'], [(TB, ".filter_map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &**node })).collect::<Vec<_>>()", ".filter_map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &**node })).filter(|n| n.num_children() < 512).collect::<Vec<_>>()")]) ,
 # ------------------------------------------------------------- same behaviour
 ('p32-same-for', 'same', ['P32'], [(NB, TD, """        let mut new_layer: Vec<RID> = Vec::new();
        for node in unsafe { self.tree().unwrap_unchecked() }.get_all_valid_nodes(&layer) {
            for child in node.children.iter() {
                new_layer.push(*child);
            }
        }
""")]),
 ('p32-same-extend', 'same', ['P32'], [(NB, TD, """        let mut new_layer: Vec<RID> = Vec::new();
        for rid in layer.iter() {
            if let Some(node) = self.tree().unwrap().get_node(*rid) {
                new_layer.extend(node.children.iter().copied());
            }
        }
""")]),
 ('p32-same-extend-slice', 'same', ['P32'], [(NB, TD, """        let mut new_layer: Vec<RID> = Vec::new();
        for node in unsafe { self.tree().unwrap_unchecked() }.get_all_valid_nodes(&layer) {
            new_layer.extend_from_slice(&node.children);
        }
""")]),
 ('p32-same-tail', 'same', ['P32'], [(NB, TE, """        if !new_layer.is_empty() {
            iter.extend(new_layer.iter().copied());
            self.top_down_tail(iter, new_layer);
        }
""")]),
 ('p32-same-loop', 'same', ['P32'], [(NB, T0, """        if self.tree().is_none() {
            panic!("Cannot get nodes from a node that is not a part of a NodeTree!");
        }
        let mut iter:  Vec<RID> = if contains_self { vec![self.rid()] } else { Vec::new() };
        let mut layer: Vec<RID> = vec![self.rid()];
        loop {
            let next: Vec<RID> = self.tree().unwrap().get_all_valid_nodes(&layer).into_iter().flat_map(|node| node.children.to_owned()).collect();
            if next.is_empty() {
                return iter;
            }
            iter.extend(next.iter());
            layer = next;
        }
""")]),
 ('p32-same-start', 'same', ['P32'], [(NB, T0, """        let mut nodes: Vec<RID> = Vec::with_capacity(8);
        if contains_self {
            nodes.push(self.rid);
        }
        self.top_down_tail(&mut nodes, vec![self.rid]);
        nodes
""")]),
 ('p32-same-flatten', 'same', ['P32'], [(NB, TD, """        let tree = self.tree().unwrap();
        let new_layer: Vec<RID> = layer.iter().filter_map(|rid| tree.get_node(*rid)).flat_map(|node| node.children.clone().into_iter()).collect();
""")]),
]
