TP = 'node_tree_core/src/structs/tree_pointer.rs'
TRYGET = """        let node: Option<&dyn Node> = unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n });
        match node {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                match any.downcast_ref::<T>() {
                    Some(node) => unsafe { TreeResult::new(self.tree, self.owner, Ok(node)) },
                    None       => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::WrongType)) }
                }
            },
            None => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::IsNull)) }
        }
"""
ISNULL = """        match unsafe { &*self.tree }.get_node(self.node) {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                    any.downcast_ref::<T>().is_none()
            },
            None => true
        }
"""
ISVALID = """        match unsafe { &*self.tree }.get_node(self.node) {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                    any.downcast_ref::<T>().is_some()
            },
            None => false
        }
"""
DGET = """        match unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n }) {
            Some(node) => unsafe { TreeResult::new(self.tree, self.owner, Ok(node)) },
            None       => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::IsNull)) }
        }
"""
MUTS = [
 ('p08-err-swapped', 'bug', ['P08'], [(TP, TRYGET, TRYGET.replace('WrongType', 'X').replace('IsNull', 'WrongType').replace('TPError::X', 'TPError::IsNull'))]),
 ('p08-null-wrong', 'bug', ['P08'], [(TP, ISNULL, ISNULL.replace('any.downcast_ref::<T>().is_none()', '{ let _ = any; false }'))]),
 ('p08-dyn-owner', 'bug', ['P08'], [(TP, "            match TpDyn::new(self.tree, self.owner, self.node).ok().to_option() {", "            match TpDyn::new(self.tree, self.node, self.node).ok().to_option() {")]),
 ('p08-valid-owner', 'bug', ['P08'], [(TP, "unsafe { &*self.tree }.get_node(self.node).is_some()", "unsafe { &*self.tree }.get_node(self.owner).is_some()")]),
 ('p08-isof', 'bug', ['P08'], [(TP, "            Some(node) => <dyn Node as CastRef>::impls::<T>(node),\n", "            Some(_) => true,\n")]),
 ('p08-cast-err', 'bug', ['P08'], [(TP, "None         => unsafe { TreeResult::new(tree, owner, Err(TPError::DynCastFailed)) }", "None         => unsafe { TreeResult::new(tree, owner, Err(TPError::AttemptedDynCastOnNull)) }")]),
 ('p08-new-unchecked', 'bug', ['P08'], [(TP, "                    None    => return unsafe { TreeResult::new(tree, owner, Err(TPError::WrongType)) }\n", "                    None    => ()\n")]),
 ('p08-new-swapped', 'bug', ['P08'], [(TP, "            TreeResult::new(tree, owner, Ok(Tp {\n                tree,\n                owner,\n                node,", "            TreeResult::new(tree, owner, Ok(Tp {\n                tree,\n                owner: node,\n                node: owner,")]),
 ('p08-dyn-new', 'bug', ['P08'], [(TP, "            Some(_) => (),\n            None    => return unsafe { TreeResult::new(tree, owner, Err(TPError::IsNull)) }", "            Some(_) => (),\n            None if owner == node => (),\n            None    => return unsafe { TreeResult::new(tree, owner, Err(TPError::IsNull)) }")]),
 ('p08-fail-quiet', 'bug', ['P08'], [(TP, "    fn fail(&self, err: TPError) -> ! {\n        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {\n            owner.post(Log::Panic(&format!(\"{err:?}\")));\n        }\n", "    fn fail(&self, err: TPError) -> ! {\n        let _ = err;\n")]),
 ('p08-same-not', 'same', [], [(TP, ISNULL, "        !self.is_valid()\n")]),
 ('p08-same-map', 'same', [], [(TP, ISVALID, "        unsafe { &*self.tree }.get_node(self.node).map_or(false, |node| {\n            let any: &dyn Any = node.as_any_ref();\n            any.is::<T>()\n        })\n")]),
 ('p08-same-result', 'same', [], [(TP, TRYGET, """        let node: Option<&dyn Node> = unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n });
        let found: Result<&T, TPError> = match node {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                any.downcast_ref::<T>().ok_or(TPError::WrongType)
            },
            None => Err(TPError::IsNull)
        };
        unsafe { TreeResult::new(self.tree, self.owner, found) }
""")]),
 ('p08-same-early', 'same', [], [(TP, TRYGET, """        let Some(node) = (unsafe { &*self.tree }).get_node(self.node) else {
            return unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::IsNull)) };
        };
        let any: &dyn Any = node.as_any_ref();
        let Some(node) = any.downcast_ref::<T>() else {
            return unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::WrongType)) };
        };
        unsafe { TreeResult::new(self.tree, self.owner, Ok(node)) }
""")]),
 ('p08-same-dyn', 'same', [], [(TP, DGET, """        let found: Option<&dyn Node> = unsafe { &*self.tree }.get_node(self.node);
        unsafe { TreeResult::new(self.tree, self.owner, found.ok_or(TPError::IsNull)) }
""")]),
]
