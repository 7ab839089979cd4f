"""edits of what makes loops and recursions end (P37)"""
C = 'node_tree_core/src/'
F = C + 'utils/functions.rs'
B = C + 'structs/node_base.rs'
P = C + 'structs/node_path.rs'
X = C + 'traits/exportable.rs'
N = C + 'structs/node_field.rs'
S = C + 'structs/signals.rs'
C_ = C + 'structs/node_scene.rs'
TB = C + 'structs/node_tree_base.rs'
LOOP = """    let mut new_value: usize = given_value.and_then(|value| value.checked_add(1)).unwrap_or(1);
    loop {
        let new_name: String = format!("{}{}", name_without_suffix, new_value);
        if !relative_to.iter().any(|n| *n == new_name) {
            return new_name;
        }
        new_value = new_value.wrapping_add(1);
    }
"""
RAW = """        let next_node: Option<PathSeg> = path.pop_front();
        match next_node {
            Some(target) => {
                match target {
                    PathSeg::Node(target_node) => {
                        for child in self.children() {
                            if *child.name() == *target_node {
                                return child.get_node_raw(path);
                            }
                        }
                        None
                    },
                    PathSeg::This => {
                        self.get_node_raw(path)
                    },
                    PathSeg::Parent => {
                        if let Some(parent) = self.parent_dyn().to_option() {
                            parent.get_node_raw(path)
                        } else {
                            None
                        }
                    }
                }
            },
            None => Some(self.rid())
        }
"""
PS = """        while let Some(segment) = self.pop_front() {
            out += &segment.to_string();
            if !self.path.is_empty() {
                out += "/";
            }
        }
"""
TD = """        if new_layer.is_empty() {
            return;
        }
"""
ABS = "                self.tree().unwrap_unchecked().get_node(self.parent.unwrap_unchecked()).unwrap_unchecked().get_absolute_path_tail(path);\n"
EM = "        for rid in connected {\n"
DOWN = "                walk(tree, child.rid(), &new_prefix, out, warnings, panics, level - 1);\n"
RC = """impl <T: Exportable> Exportable for std::rc::Rc<T> {
    fn to_value(&self) -> toml::Value {
        self.deref().to_value()
"""
MUTS = [
    ('p37-saturating', 'bug', ['P37'], [(F, 'new_value = new_value.wrapping_add(1);', 'new_value = new_value.saturating_add(1);')]),
    ('p37-no-count', 'bug', ['P37'], [(F, '        new_value = new_value.wrapping_add(1);\n', ''), (F, 'let mut new_value', 'let new_value')]),
    ('p37-count-max', 'bug', ['P37'], [(F, 'new_value = new_value.wrapping_add(1);', 'new_value = (new_value + 1).min(9999);')]),
    ('p37-other-name', 'bug', ['P37'], [(F, 'format!("{}{}", name_without_suffix, new_value)', 'format!("{}{}", name_without_suffix, given_value.unwrap_or(1))')]),
    ('p37-rc', 'bug', ['P37'], [(X, RC, RC.replace('self.deref().to_value()', 'std::rc::Rc::clone(self).to_value()'))]),
    ('p37-add', 'bug', ['P37'], [(N, 'ops::AddAssign for DefaultField<T> {\n    fn add_assign(&mut self, rhs: Self) {\n        *self.deref_mut() += rhs.0;', 'ops::AddAssign for DefaultField<T> {\n    fn add_assign(&mut self, rhs: Self) {\n        *self += rhs;')]),
    ('p37-leaf', 'bug', ['P37'], [(B, 'if new_layer.is_empty() {', 'if new_layer.is_empty() && !iter.is_empty() {')]),
    ('p37-same-layer', 'bug', ['P37'], [(B, '        self.top_down_tail(iter, new_layer)        \n', '        self.top_down_tail(iter, if contains_all(&layer) { layer } else { new_layer })\n'), (B, 'impl NodeBase {\n', 'fn contains_all(layer: &[RID]) -> bool { layer.len() > 100 }\n\nimpl NodeBase {\n')]),
    ('p37-this', 'bug', ['P37'], [(B, RAW, RAW.replace("""                    PathSeg::This => {
                        self.get_node_raw(path)""", """                    PathSeg::This => {
                        let rest: String = path.to_string();
                        self.get_node_raw(NodePath::from_str(&format!("./{rest}")))"""))]),
    ('p37-peek', 'bug', ['P37'], [(P, PS, """        while let Some(segment) = self.path.front().cloned() {
            out += &segment.to_string();
            if self.path.len() > 1 {
                out += "/";
                self.pop_front();
            } else if segment != PathSeg::Parent {
                self.pop_front();
            }
        }
""")]),
    ('p37-path-self', 'bug', ['P37'], [(B, ABS, ABS.replace('self.parent.unwrap_unchecked()', 'self.owner.unwrap_unchecked()'))]),
    ('p37-emit', 'bug', ['P37'], [(S, EM, """        let mut called: std::collections::HashSet<RID> = std::collections::HashSet::new();
        let _ = connected;
        while let Some(rid) = { let next = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).find(|rid| !called.contains(rid)); next } {
            called.insert(rid);
""")]),
    ('p37-draw-self', 'bug', ['P37'], [(F, DOWN, '                walk(tree, if child.is_owner() { child.rid() } else { node_rid }, &new_prefix, out, warnings, panics, level);\n')]),
    ('p37-hash', 'bug', ['P37'], [(C_, '            child.hash(state);\n', '            if child.children.len() < 2 { child.hash(state); } else { self.hash(state); }\n')]),
    ('p37-lock', 'bug', ['P37'], [(S, '    pub fn disconnect(&self, rid: RID) -> bool {\n', '    pub fn disconnect(&self, rid: RID) -> bool {\n        while self.hooks.try_lock().is_err() {}\n')]),
    ('p37-same-range', 'same', ['P37'], [(F, LOOP, """    let start: usize = given_value.and_then(|value| value.checked_add(1)).unwrap_or(1);
    let taken: std::collections::HashSet<&str> = relative_to.iter().map(|n| n.as_str()).collect();
    let mut value: usize = start;
    let mut found: String = format!("{}{}", name_without_suffix, value);
    while taken.contains(found.as_str()) {
        value = value.wrapping_add(1);
        found = format!("{}{}", name_without_suffix, value);
    }
    found
""")]),
    ('p37-same-raw', 'same', ['P37'], [(B, RAW, """        let target: PathSeg = match path.pop_front() {
            Some(target) => target,
            None         => return Some(self.rid())
        };
        match target {
            PathSeg::This   => self.get_node_raw(path),
            PathSeg::Parent => self.parent_dyn().to_option().and_then(|parent| parent.get_node_raw(path)),
            PathSeg::Node(target_node) => {
                let found = self.children().into_iter().find(|child| *child.name() == *target_node);
                found.and_then(|child| child.get_node_raw(path))
            }
        }
""")]),
    ('p37-same-path', 'same', ['P37'], [(P, PS, """        let mut first: bool = true;
        for segment in self.path.drain(..) {
            if !first {
                out += "/";
            }
            first = false;
            out += &segment.to_string();
        }
""")]),
    ('p37-same-walk', 'same', ['P37'], [(F, DOWN, "                let left: usize = level - 1;\n                let next: RID   = child.rid();\n                walk(tree, next, new_prefix.as_str(), out, warnings, panics, left);\n")]),
    ('p37-same-abs', 'same', ['P37'], [(B, ABS, """                let tree:   &NodeTreeBase = self.tree().unwrap_unchecked();
                let parent: RID           = self.parent.unwrap_unchecked();
                if let Some(parent) = tree.get_node(parent) {
                    parent.get_absolute_path_tail(path);
                }
""")]),
]
