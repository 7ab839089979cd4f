"""edits for the rules extended in the last rounds"""
C = 'node_tree_core/src/structs/'
O = C + 'tree_option.rs'
B = C + 'node_base.rs'
T = C + 'node_tree_base.rs'
MUTS = [
    ('p15-slice-empty', 'bug', ['P15'], [(O, "        self.object.as_slice()", "        &[]")]),
    ('p15-same-slice', 'same', ['P15'], [(O, "        self.object.as_slice()", "        match &self.object { Some(x) => std::slice::from_ref(x), None => &[] }"), (O, "        self.object.as_mut_slice()", "        match &mut self.object { Some(x) => std::slice::from_mut(x), None => &mut [] }")]),
    ('p35-off-by-one', 'bug', ['P35'], [(B, "        if i >= self.num_children() {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new", "        if i > self.num_children() {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new")]),
    ('p35-guard-negated', 'bug', ['P35'], [(B, "        if self.tree.is_none() {\n            panic!(\"Cannot add a child to a node that is not in a `NodeTree`!\");\n        }\n\n        // TODO:", "        if self.tree.is_some() && self.children.is_empty() {\n            panic!(\"Cannot add a child to a node that is not in a `NodeTree`!\");\n        }\n\n        // TODO:")]),
    ('p35-path-root-panics', 'bug', ['P35'], [(C + 'node_path.rs', "&dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;", "&dyn Node = tree.root();")]),
    ('p35-process-tail-unwrap', 'bug', ['P35'], [(T, "        let node:   &mut dyn Node = match self.get_node_mut(node_rid) {\n            Some(node) => node,\n            None       => return   // It was freed or removed by another node during this frame.\n        };", "        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();")]),
    ('p35-same-get', 'same', ['P35'], [(B, "                Tp::new(self.tree.unwrap_unchecked(), self.rid, self.children[i])", "                Tp::new(self.tree.unwrap_unchecked(), self.rid, *self.children.get(i).unwrap())")]),
    ('p35-same-root', 'same', ['P35'], [(T, "        self.get_node(Self::ROOT_RID).expect(\"The root node of this tree has been freed!\")", "        match self.get_node(Self::ROOT_RID) { Some(x) => x, None => panic!(\"The root node of this tree has been freed!\") }")]),
    ('p35-same-guard', 'same', ['P35'], [(B, "        if self.tree().is_none() {\n            panic!(\"Cannot get a node from a node that is not a part of a NodeTree!\");\n        }\n\n        if i >= self.num_children() {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new", "        match self.tree {\n            None => panic!(\"Cannot get a node from a node that is not a part of a NodeTree!\"),\n            Some(_) => (),\n        }\n        let amount: usize = self.num_children();\n        if amount <= i {\n            unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                Tp::new")]),
]
