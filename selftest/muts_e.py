O = 'node_tree_core/src/structs/tree_option.rs'
R = 'node_tree_core/src/structs/tree_result.rs'
XOR = """            (opta @ Some(_), None) => TreeOption { tree: self.tree, owner: self.owner, object: opta, p_life: self.p_life },
            (None, optb @ Some(_)) => TreeOption { tree: self.tree, owner: self.owner, object: optb, p_life: self.p_life },
            _                      => TreeOption { tree: self.tree, owner: self.owner, object: None, p_life: self.p_life }
"""
ORELSE = """            Ok(_)      => self,
            Err(ref e) => self.transfer_owner(op(e))
"""
MUTS = [
 ('p15-xor-both', 'bug', ['P15'], [(O, XOR, XOR.replace('_                      => TreeOption { tree: self.tree, owner: self.owner, object: None,', '(opta, _)              => TreeOption { tree: self.tree, owner: self.owner, object: opta,'))]),
 ('p15-and-returns-none', 'bug', ['P15'], [(O, "            Some(_) => self.transfer_owner(optb),\n            None    => self.as_none()", "            None => self.transfer_owner(optb),\n            Some(_)    => self.as_none()")]),
 ('p15-transfer-other-owner', 'bug', ['P15'], [(O, "TreeOption { tree: self.tree, owner: self.owner, object: other.object, p_life: self.p_life}", "TreeOption { tree: self.tree, owner: other.owner, object: other.object, p_life: self.p_life}")]),
 ('p15-r-transfer-other-tree', 'bug', ['P15'], [(R, "TreeResult { tree: self.tree, owner: self.owner, object: other.object, p_life: self.p_life}", "TreeResult { tree: other.tree, owner: self.owner, object: other.object, p_life: self.p_life}")]),
 ('p15-same-take-if-none', 'same', ['P15'], [(O, "object: if self.as_mut().map_or(false, predicate) { self.object.take() } else { None },", "object: if self.as_mut().map_or(true, predicate) { self.object.take() } else { None },"), ], ) ,
 ('p15-take-if-always', 'bug', ['P15'], [(O, "object: if self.as_mut().map_or(false, predicate) { self.object.take() } else { None },", "object: if self.as_mut().map_or(false, predicate) { self.object.take() } else { let _ = self.object.take(); None },"), ], ) ,
 ('p15-get-or-insert-overwrites', 'bug', ['P15'], [(O, "        if self.object.is_none() {\n            self.object = Some(value);\n        }", "        let _ = self.object.replace(value);")]),
 ('p15-with-called-always', 'bug', ['P15'], [(O, "        if self.object.is_none() {\n            self.object = Some(f());\n        }", "        let v = f();\n        if self.object.is_none() {\n            self.object = Some(v);\n        }")]),
 ('p15-filter-inverted', 'bug', ['P15'], [(O, "            if predicate(x) {", "            if !predicate(x) {")]),
 ('p15-transpose-none', 'bug', ['P15'], [(R, "                    None    => unsafe { TreeOption::new(self.tree, self.owner, None) },", "                    None    => panic!(),")]),
 ('p15-transpose-attach', 'bug', ['P15'], [(O, "        match self.object {\n            Some(inner) => {\n                match inner.to_result() {\n                    Ok(x)  => unsafe { TreeResult::new(self.tree, self.owner, Ok(TreeOption::new(self.tree, self.owner, Some(x)))) },",
    "        match self.object {\n            Some(inner) => {\n                let (t, o) = inner.attached();\n                match inner.to_result() {\n                    Ok(x)  => unsafe { TreeResult::new(self.tree, self.owner, Ok(TreeOption::new(t, o, Some(x)))) },"),
    (R, "    fn fail(&self, msg: &str, error", "    pub(crate) fn attached(&self) -> (*mut dyn NodeTree, RID) { (self.tree, self.owner) }\n    fn fail(&self, msg: &str, error")]),
 ('p15-or-else-loses', 'bug', ['P15'], [(R, ORELSE, "            Ok(_)      => self,\n            Err(ref e) => { op(e); self }\n")]),
 ('p15-unwrap-or-else-twice', 'bug', ['P15'], [(R, "            Err(e) => op(&e),\n        }", "            Err(e) => { let _ = op(&e); op(&e) }\n        }"), (R, "unwrap_or_else<F: FnOnce(&E) -> T>", "unwrap_or_else<F: Fn(&E) -> T>")]),
 ('p15-fail-silent', 'bug', ['P15'], [(R, 'owner.post(Log::Panic(&format!("{msg}: {error:?}")));', 'owner.post(Log::Warn(&format!("{msg}: {error:?}")));')]),
 ('p15-unzip-swapped-none', 'bug', ['P15'], [(O, "                object: Some(b),\n", "                object: None,\n"), (O, "            Some((a, b)) => (", "            Some((a, _b)) => (")]),
 ('p15-inspect-err', 'bug', ['P15'], [(R, "        if let Err(ref", "        if let Err(ref"), (R, "is_ok_and", "is_ok_and")]),
 ('p15-same-map', 'same', ['P15'], [(O, "TreeOption { tree: self.tree, owner: self.owner, object: self.object.map(f), p_life: self.p_life }", "match self.object {\n            Some(x) => TreeOption { tree: self.tree, owner: self.owner, object: Some(f(x)), p_life: self.p_life },\n            None => TreeOption { tree: self.tree, owner: self.owner, object: None, p_life: self.p_life }\n        }")]),
 ('p15-same-xor', 'same', ['P15'], [(O, "        match (self.object, optb.object) {\n" + XOR + "        }", "        let (tree, owner, p_life) = (self.tree, self.owner, self.p_life);\n        let object = if self.object.is_some() { if optb.object.is_some() { None } else { self.object } } else { optb.object };\n        TreeOption { tree, owner, object, p_life }")]),
 ('p15-same-filter', 'same', ['P15'], [(O, "        if let Some(ref x) = self.object {\n            if predicate(x) {\n                return self;\n            }\n        }\n        self.as_none()", "        TreeOption { tree: self.tree, owner: self.owner, object: self.object.filter(predicate), p_life: self.p_life }")]),
 ('p15-same-goi', 'same', ['P15'], [(O, "        if self.object.is_none() {\n            self.object = Some(value);\n        }\n        unsafe { self.as_mut().unwrap_unchecked() }", "        self.object.get_or_insert(value)")]),
 ('p15-same-unwrap', 'same', ['P15'], [(O, """            None         => self.fail("called `TreeOption::unwrap()` on a `None` value")
        }""", """            None         => {
                if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
                    owner.post(Log::Panic("called `TreeOption::unwrap()` on a `None` value"));
                }
                panic!()
            }
        }""")]),
 ('p15-same-orelse', 'same', ['P15'], [(R, ORELSE, "            Ok(t)      => unsafe { TreeResult::new(self.tree, self.owner, Ok(t)) },\n            Err(e) => { let r = op(&e); unsafe { TreeResult::new(self.tree, self.owner, r.to_result()) } }\n")]),
 ('p15-same-flatten', 'same', ['P15'], [(O, "            Some(object) => TreeOption { tree: self.tree, owner: self.owner, object: object.to_option(), p_life: self.p_life },\n            None         => self.as_none()", "            Some(object) => { let o = object.object; TreeOption { object: o, tree: self.tree, owner: self.owner, p_life: self.p_life } },\n            None         => unsafe { TreeOption::new(self.tree, self.owner, None) }")]),
]
MUTS = [m for m in MUTS if m[0] != 'p15-inspect-err']
