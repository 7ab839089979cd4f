"""edits of the construction of trees (P36)"""
C = 'node_tree_core/src/'
T = C + 'structs/node_tree_base.rs'
S = C + 'trees/tree_simple.rs'
D = 'node_tree_derive/src/lib.rs'
SB = "        tree.set_base(base);\n\n"
INI = "        let tree_ptr: *mut dyn NodeTree = tree.as_dyn_raw_mut();\n        tree.base_mut().initialize(tree_ptr, scene);"
MUTS = [
    ('p36-no-set', 'bug', ['P36'], [(T, SB, "        let _ = base;\n")]),
    ('p36-set-after', 'bug', ['P36'], [(T, SB, ""), (T, INI, "        let tree_ptr: *mut dyn NodeTree = tree.as_dyn_raw_mut();\n        let mut base: NodeTreeBase = base;\n        base.initialize(tree_ptr, scene);\n        tree.set_base(base);")]),
    ('p36-set-twice', 'bug', ['P36'], [(T, 'NodeTreeBase::new(verbosity)', 'NodeTreeBase::new(verbosity.clone())'), (T, INI, INI + "\n        tree.set_base(NodeTreeBase::new(verbosity));")]),
    ('p36-verbosity', 'bug', ['P36'], [(T, "NodeTreeBase::new(verbosity)", "NodeTreeBase::new(LoggerVerbosity::OnlyPanics)")]),
    ('p36-paused', 'bug', ['P36'], [(T, "status:     TreeStatus::Process(TreeProcess::Running)", "status:     TreeStatus::Process(TreeProcess::Paused)")]),
    ('p36-no-init', 'bug', ['P36'], [(S, "        initialize_base(&mut tree, scene, verbosity);\n", "        let _ = (scene, verbosity);\n")]),
    ('p36-set-keeps-old', 'bug', ['P36'], [(S, "        self.base = Some(base);", "        self.base.get_or_insert(base);")]),
    ('p36-deref-mut', 'bug', ['P36'], [(S, "if self.base.is_none() {\n            panic!", "if self.base.is_some() {\n            panic!")]),
    ('p36-derive-set', 'bug', ['P36'], [(D, "                self.base = Some(base);\n", "                let _ = base;\n")]),
    ('p36-last-frame', 'bug', ['P36'], [(T, "            last_frame: Instant::now()\n", "            last_frame: Instant::now() - Duration::from_secs(1)\n")]),
    ('p36-same-inline', 'same', ['P36'], [(T, "    let base: NodeTreeBase = unsafe { NodeTreeBase::new(verbosity) };\n    unsafe {\n" + SB + INI, "    unsafe {\n        tree.set_base(NodeTreeBase::new(verbosity));\n        let outer: *mut dyn NodeTree = tree.as_dyn_raw_mut();\n        let base: &mut NodeTreeBase = tree.base_mut();\n        base.initialize(outer, scene);")]),
    ('p36-same-deref', 'same', ['P36'], [(S, "        if self.base.is_none() {\n            panic!(\"None!\");\n        }\n\n        unsafe {\n            self.base.as_mut().unwrap_unchecked()\n        }", "        self.base_mut()")]),
    ('p36-same-expect', 'same', ['P36'], [(D, "            fn base(&self) -> &node_tree::structs::node_tree_base::NodeTreeBase {\n                unsafe {\n                    self.base.as_ref().unwrap_unchecked()\n                }", "            fn base(&self) -> &node_tree::structs::node_tree_base::NodeTreeBase {\n                match &self.base {\n                    Some(base) => base,\n                    None => panic!(\"no base\")\n                }")]),
    ('p36-same-new', 'same', ['P36'], [(S, "        let mut tree: Box<TreeSimple> = Box::new(TreeSimple {\n            base: None\n        });\n", "        let empty: TreeSimple = TreeSimple { base: None };\n        let mut tree: Box<TreeSimple> = Box::new(empty);\n")]),
    ('p36-same-clock', 'same', ['P36'], [(T, "        // Create the NodeTreeBase.\n", "        let now: Instant = Instant::now();\n        // Create the NodeTreeBase.\n"), (T, "            last_frame: Instant::now()\n", "            last_frame: now\n")]),
]
