NS = 'node_tree_core/src/structs/node_scene.rs'
NB = 'node_tree_core/src/structs/node_base.rs'
ND = 'node_tree_core/src/traits/node.rs'
MUTS = [
 # ---- P18 writer
 ('scn-w-no-root-zero', 'bug', ['P18'], [(NS, "        unsafe { (&mut *self.this).set_rid(0) };\n", "")]),
 ('scn-w-update-after-clone', 'bug', ['P18'], [(NS, "        self.update_internal(0);\n        self.clone().iterate(|parent, node, is_owner| {", "        let copy = self.clone();\n        self.update_internal(0);\n        copy.iterate(|parent, node, is_owner| {")]),
 ('scn-w-sep', 'bug', ['P18'], [(NS, 'format!("{}_{}", node.name(), node.rid())', 'format!("{}-{}", node.name(), node.rid())')]),
 ('scn-w-no-owner-when-false', 'bug', ['P18'], [(NS, '            document[&node_key]["metadata"]["is_owner"]  = is_owner.into();\n', '            if is_owner { document[&node_key]["metadata"]["is_owner"]  = is_owner.into(); }\n')]),
 ('scn-w-parent-of-self', 'bug', ['P18'], [(NS, "if let Some(parent_rid) = parent.map(|p| p.rid()) {", "if let Some(parent_rid) = parent.map(|_| node.rid()) {")]),
 ('scn-w-skip-zero-parent', 'bug', ['P18'], [(NS, "if let Some(parent_rid) = parent.map(|p| p.rid()) {", "if let Some(parent_rid) = parent.map(|p| p.rid()).filter(|rid| *rid != 0) {")]),
 ('scn-w-ghost-inverted', 'bug', ['P18'], [(NS, "if unsafe { value.is_ghost_export() } {", "if !unsafe { value.is_ghost_export() } {")]),
 ('scn-w-ghost-break', 'bug', ['P18'], [(NS, "if unsafe { value.is_ghost_export() } {\n                    continue;", "if unsafe { value.is_ghost_export() } {\n                    break;")]),
 ('scn-w-no-comment-nl', 'bug', ['P18'], [(NS, "in front of their parents.\\n\\n\"", "in front of their parents. \"")]),
 ('scn-w-key-no-rid', 'bug', ['P18'], [(NS, 'format!("{}_{}", node.name(), node.rid())', 'format!("{}_{}", node.name(), parent.map_or(0, |p| p.rid()))')]),
 # ---- numbering
 ('scn-n-no-advance', 'bug', ['P18'], [(NS, "            counter = child.update_internal(counter);\n", "            child.update_internal(counter);\n")]),
 ('scn-n-return-start', 'bug', ['P18'], [(NS, "    pub fn update_internal(&self, mut counter: u64) -> u64 {\n", "    pub fn update_internal(&self, mut counter: u64) -> u64 {\n        let start = counter;\n"), (NS, "        }\n        counter\n    }", "        }\n        start + self.children.len() as u64\n    }")]),
 ('scn-n-rev', 'same', [], [(NS, "            Box::into_raw(node_new)\n        };", "            let raw = Box::into_raw(node_new);\n            raw\n        };")]),
 # ---- reader
 ('scn-r-split-once', 'bug', ['P18'], [(NS, "key.rsplit_once('_')", "key.split_once('_')")]),
 ('scn-r-owner-swap', 'bug', ['P18'], [(NS, """                            if is_owner {
                                found_parent.append_as_owner(new_scene);
                            } else {
                                found_parent.append(new_scene);
                            }""", """                            if is_owner && cached_path.len() < 2 {
                                found_parent.append_as_owner(new_scene);
                            } else {
                                found_parent.append(new_scene);
                            }""")]),
 ('scn-r-no-from-disk-deep', 'bug', ['P18'], [(NS, "                            let mut new_scene:    NodeScene      = NodeScene::new_dyn(node);\n                                    new_scene.from_disk          = true;\n", "                            let     new_scene:    NodeScene      = NodeScene::new_dyn(node);\n")]),
 ('scn-r-no-cache-deep', 'bug', ['P18'], [(NS, "                            path.push(found_parent.children.len() - 1);\n                            traversal.insert(local_rid, path);", "                            path.push(found_parent.children.len() - 1);\n                            if path.len() < 4 { traversal.insert(local_rid, path); }")]),
 ('scn-r-cache-parent-rid', 'bug', ['P18'], [(NS, "                            path.push(found_parent.children.len() - 1);\n                            traversal.insert(local_rid, path);", "                            path.push(found_parent.children.len() - 1);\n                            traversal.insert(parent_rid, path);")]),
 ('scn-r-path-first-child', 'bug', ['P18', 'P19'], [(NS, "path.push(found_parent.children.len() - 1);", "path.push(0);")]),
 ('scn-r-off-by-one', 'bug', ['P18', 'P19'], [(NS, "vec![node_scene.children.len() - 1]", "vec![node_scene.children.len()]")]),
 ('scn-r-cursor-root', 'bug', ['P18', 'P19'], [(NS, "cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _)", "cursor = cursor.map(|_| &mut node_scene.children[segment] as *mut _)")]),
 ('scn-r-refuse-reserved', 'bug', ['P18'], [(NS, "            unsafe {\n                node.set_name_unchecked(name);", "            if name.is_empty() { return Err(\"Node without a name\".to_string()); }\n            unsafe {\n                node.set_name_unchecked(name);")]),
 ('scn-r-field-skip', 'bug', ['P18'], [(NS, ".filter(|(field, _)| *field != \"metadata\")", ".filter(|(field, _)| *field != \"metadata\" && !field.starts_with('_'))")]),
 ('scn-r-name-trim', 'bug', ['P18'], [(NS, "node.set_name_unchecked(name);", "node.set_name_unchecked(name.trim());")]),
 ('scn-r-rid-not-set', 'bug', ['P18'], [(NS, "                node.set_rid(local_rid);\n", "                if local_rid != 0 { node.set_rid(local_rid); }\n")]),
 ('scn-r-parent-zero-none', 'bug', ['P18'], [(NS, "let parent_rid: RID = parent.ok_or(\"No parent registered for a non-root node\".to_string())?;", "let parent_rid: RID = parent.unwrap_or(0);")]),
 ('scn-r-owner-default', 'same', [], [(NS, ".ok_or(format!(\"Failed to parse {}'s ownership status\", key))?", ".ok_or_else(|| format!(\"Failed to parse {}'s ownership status\", key))?")]),
 ('scn-r-i32', 'bug', ['P18'], [(NS, "p.as_integer().map(|rid| rid as RID)", "p.as_integer().map(|rid| rid as u32 as RID)")]),
 # ---- files
 ('scn-f-ext-any', 'bug', ['P18'], [(NS, "            Some(_)     => return Err(\"Attempted to load a file with an extension differing from .scn\".to_string()),\n", "            Some(_)     => (),\n")]),
 ('scn-f-save-ext', 'bug', ['P18'], [(NS, 'format!("{name}.scn")', 'format!("{name}.scene")')]),
 ('scn-f-write', 'bug', ['P18'], [(NS, "file.write_all(buffer.as_bytes())", "file.write(buffer.as_bytes())")]),
 ('scn-f-write-ignored', 'bug', ['P18'], [(NS, "                file.write_all(buffer.as_bytes()).map_err(|err| format!(\"{err}\"))?;\n", "        let _ = file.write_all(buffer.as_bytes());\n")]),
 ('scn-f-lossy', 'bug', ['P18'], [(NS, "let document: String = String::from_utf8(buffer).map_err(|err| format!(\"{err}\"))?;", "let document: String = String::from_utf8_lossy(&buffer).trim_matches('\\0').to_string();")]),
 # ---- P19
 ('scn-p-unwrap-parent', 'bug', ['P19'], [(NS, "parent.ok_or(\"No parent registered for a non-root node\".to_string())?", "parent.expect(\"No parent registered for a non-root node\")")]),
 ('scn-p-index-meta', 'bug', ['P19'], [(NS, "let metadata:  &toml::InlineTable = node_data.get(\"metadata\").map(|nd| nd.as_inline_table()).flatten().ok_or(format!(\"Failed to parse {}'s metadata\", key))?;", "let metadata:  &toml::InlineTable = node_data[\"metadata\"].as_inline_table().ok_or(format!(\"Failed to parse {}'s metadata\", key))?;")]),
 ('scn-p-trav-index', 'bug', ['P19'], [(NS, "match traversal.get(&parent_rid) {", "match Some(&traversal[&parent_rid]) {")]),
 ('scn-p-parse-unwrap', 'bug', ['P19'], [(NS, ".map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!(\"{err}\")))\n                .ok_or(\"Failed to parse Node key\".to_string())??;", ".map(|(name, local_rid)| (name, local_rid.parse().unwrap()))\n                .ok_or(\"Failed to parse Node key\".to_string())?;")]),
 ('scn-p-empty-path-root', 'bug', ['P19', 'P18'], [(NS, "                            root_scene.is_owner   = is_owner;\n", "                            root_scene.is_owner   = is_owner;\n                    traversal.insert(local_rid, Vec::new());\n")]),
 ('scn-p-from-utf8', 'bug', ['P19'], [(NS, "String::from_utf8(buffer).map_err(|err| format!(\"{err}\"))?", "String::from_utf8(buffer).expect(\"utf-8\")")]),
 # ---- P22
 ('hash-no-count', 'bug', ['P22'], [(NS, "        self.children.len().hash(state);\n", "")]),
 ('hash-name', 'bug', ['P22'], [(NS, "unsafe { &*self.this }.name_as_type().hash(state);", "unsafe { &*self.this }.name().hash(state);")]),
 ('hash-from-disk', 'bug', ['P22'], [(NS, "        self.is_owner.hash(state);\n", "        (self.is_owner || self.from_disk).hash(state);\n")]),
 ('hash-skip-owned', 'bug', ['P22'], [(NS, "        for child in &self.children {\n            child.hash(state);", "        for child in self.children.iter().filter(|c| !c.is_owner || c.children.is_empty()) {\n            child.hash(state);")]),
 ('hash-first-only', 'bug', ['P22'], [(NS, "        for child in &self.children {\n            child.hash(state);", "        if let Some(child) = self.children.first() {\n            child.hash(state);")]),
 ('hash-twice-finish', 'bug', ['P22'], [(NS, "        self.internal_structural_hash(&mut hasher);\n        hasher.finish()", "        if !self.from_disk { self.internal_structural_hash(&mut hasher); }\n        hasher.finish()")]),
 ('hash-same-order', 'same', [], [(NS, "        self.is_owner.hash(state);\n        self.children.len().hash(state);\n", "        self.children.len().hash(state);\n        self.is_owner.hash(state);\n")]),
 ('hash-same-foreach', 'same', [], [(NS, "        for child in &self.children {\n            child.hash(state);\n        }", "        self.children.iter().for_each(|child| child.internal_structural_hash(state));")]),
 ('hash-same-vec', 'same', [], [(NS, "        self.children.len().hash(state);\n", ""), (NS, "        for child in &self.children {\n            child.hash(state);\n        }", "        self.children.hash(state);")]),
 # ---- P23
 ('scene-new-not-owner', 'bug', ['P23'], [(NS, "            from_disk: false,\n            is_owner:  true\n", "            from_disk: false,\n            is_owner:  false\n")]),
 ('scene-append-front', 'bug', ['P23'], [(NS, "        child.is_owner = true;\n        self.children.push(child);", "        child.is_owner = true;\n        self.children.insert(0, child);")]),
 ('scene-append-keeps', 'bug', ['P23'], [(NS, "        child.is_owner = false; // Have", "        child.is_owner &= child.from_disk; // Have")]),
 ('scene-append-deep', 'bug', ['P23'], [(NS, "        child.is_owner = false; // Have", "        for c in &mut child.children { c.is_owner = false; }\n        child.is_owner = false; // Have")]),
 ('iter-post-order', 'bug', ['P23'], [(NS, "        iterator(None, self_this, self.is_owner);\n        traverse(self, self_this, &mut iterator);", "        let owner = self.is_owner;\n        traverse(self, self_this, &mut iterator);\n        iterator(None, self_this, owner);")]),
 ('iter-root-not-loaded', 'bug', ['P23'], [(NS, "        if self.from_disk {\n            let self_mut", "        if self.from_disk && self.children.is_empty() {\n            let self_mut")]),
 ('iter-child-loaded-by-root', 'bug', ['P23'], [(NS, "                if child.from_disk {", "                if child.from_disk || child.is_owner {")]),
 ('iter-parent-grand', 'bug', ['P23'], [(NS, "                traverse(child, child_this, iterator);", "                traverse(child, if child_this.is_null() { child_this } else { parent }, iterator);")]),
 ('iter-mark-late', 'bug', ['P23'], [(NS, """                if child.from_disk {
                    let child_mut: &mut dyn Node = unsafe { &mut *child.this };
                    unsafe {
                        child_mut.mark_as_loaded();
                    }
                }
                iterator(Some(parent), child.this, child.is_owner);
""", """                iterator(Some(parent), child.this, child.is_owner);
                if child.from_disk {
                    let child_mut: &mut dyn Node = unsafe { &mut *child.this };
                    unsafe {
                        child_mut.mark_as_loaded();
                    }
                }
""")]),
 ('iter-rev', 'bug', ['P23'], [(NS, "            for child in node.children {", "            for child in node.children.into_iter().rev() {")]),
 ('iter-single-owner', 'bug', ['P23'], [(ND, "Box::into_raw(self.to_dyn_box()), false)", "Box::into_raw(self.to_dyn_box()), true)")]),
 ('iter-same-foreach', 'same', [], [(NS, "            for child in node.children {\n", "            let below = node.children;\n            for child in below.into_iter() {\n")]),
 ('iter-same-traverse-root', 'same', [], [(NS, """        // Recursive function to traverse the tree
        fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
            node:     NodeScene,
            parent:   *mut dyn Node,
            iterator: &mut F
        ) {
            for child in node.children {

                // Call the iterator for the child node
                if child.from_disk {
                    let child_mut: &mut dyn Node = unsafe { &mut *child.this };
                    unsafe {
                        child_mut.mark_as_loaded();
                    }
                }
                iterator(Some(parent), child.this, child.is_owner);

                // Recursively traverse the child's children
                let child_this: *mut dyn Node = child.this;
                traverse(child, child_this, iterator);
            }
        }

        // Start the traversal from the root.
        let self_this: *mut dyn Node = self.this;
        if self.from_disk {
            let self_mut:  &mut dyn Node = unsafe { &mut *self_this };
            unsafe {
                self_mut.mark_as_loaded();
            }
        }
        iterator(None, self_this, self.is_owner);
        traverse(self, self_this, &mut iterator);""", """        fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(scene: NodeScene, parent: Option<*mut dyn Node>, iterator: &mut F) {
            let this: *mut dyn Node = scene.this;
            if scene.from_disk {
                unsafe { (&mut *this).mark_as_loaded() };
            }
            iterator(parent, this, scene.is_owner);
            for child in scene.children {
                traverse(child, Some(this), iterator);
            }
        }
        traverse(self, None, &mut iterator);""")]),
 ('scene-same-append', 'same', [], [(NS, "        child.is_owner = true;\n        self.children.push(child);", "        self.children.push(NodeScene { is_owner: true, ..child });")] ),
 ('scene-same-append2', 'same', [], [(NS, "    pub fn append(&mut self, mut child: NodeScene) {\n        child.is_owner = false; // Have this only be applied for single nodes, not whole node scenes!\n        self.children.push(child);", "    pub fn append(&mut self, child: NodeScene) {\n        self.adopt(child, false)\n    }\n\n    fn adopt(&mut self, mut child: NodeScene, owner: bool) {\n        child.is_owner = owner;\n        self.children.push(child);"), (NS, "    pub fn append_as_owner(&mut self, mut child: NodeScene) {\n        child.is_owner = true;\n        self.children.push(child);", "    pub fn append_as_owner(&mut self, child: NodeScene) {\n        self.adopt(child, true)")]),
 # ---- P24
 ('clone-no-rid', 'bug', ['P24'], [(NS, "            node_new.set_rid(node_original.rid());\n", "")]),
 ('clone-from-disk', 'bug', ['P24'], [(NS, "            from_disk: self.from_disk,\n", "            from_disk: false,\n")]),
 ('clone-owner', 'bug', ['P24'], [(NS, "            is_owner:  self.is_owner,\n", "            is_owner:  self.is_owner || self.children.is_empty(),\n")]),
 ('clone-children-one', 'bug', ['P24'], [(NS, "self.children.to_vec()", "self.children.iter().take(8).cloned().collect()")]),
 ('clone-children-rev', 'bug', ['P24'], [(NS, "self.children.to_vec()", "self.children.iter().rev().cloned().collect()")]),
 ('clone-alias', 'bug', ['P24'], [(NS, "            this:      cloned_node,", "            this:      if cloned_children.is_empty() { cloned_node } else { self.this },")]),
 ('clone-same-map', 'same', [], [(NS, "self.children.to_vec()", "self.children.iter().map(|child| child.clone()).collect()")]),
 ('clone-same-ptr', 'same', [], [(NS, """            let     node_original: &dyn Node     = &*self.this; // Only borrowed, as a clone that panics must not deallocate it.
            let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
            
            node_new.set_rid(node_original.rid());
            node_new.set_name(node_original.name());

            Box::into_raw(node_new)""", """            let original: &dyn Node     = &*self.this;
            let mut copy: Box<dyn Node> = original.clone_as_instance();
            copy.set_name_unchecked(original.name());
            copy.set_rid(original.rid());
            Box::into_raw(copy)""")]),
 ('branch-owner-all', 'bug', ['P24'], [(NB, "            if child.is_owner() {\n                scene.append_as_owner", "            if child.is_owner() || child.num_children() > 0 {\n                scene.append_as_owner")]),
 ('branch-rev', 'bug', ['P24'], [(NB, "        // For each child, append their representation of a node scene.\n        for &child in &self.children {", "        // For each child, append their representation of a node scene.\n        for &child in self.children.iter().rev() {")]),
 ('branch-skip', 'bug', ['P24'], [(NB, "            if child.is_owner() {\n                scene.append_as_owner(child.save_as_branch_tail());", "            if child.is_owner() {\n                if child.childless() { continue; }\n                scene.append_as_owner(child.save_as_branch_tail());")]),
 ('branch-no-panic', 'bug', ['P24'], [(NB, "            panic!(\"Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!\");\n        }\n        self.save_as_branch_tail()", "            return NodeScene::new_dyn(Box::new(NodeSceneless));\n        }\n        self.save_as_branch_tail()")]) if 0 else
 ('base-clone-loaded', 'bug', ['P24'], []),
 ('branch-same-tail', 'same', [], [(NB, """            if child.is_owner() {
                scene.append_as_owner(child.save_as_branch_tail());
            } else {
                scene.append(child.save_as_branch_tail());
            }""", """            let below: NodeScene = child.save_as_branch_tail();
            match child.is_owner() {
                true  => scene.append_as_owner(below),
                false => scene.append(below)
            }""")]),
]
MUTS = [m for m in MUTS if m[3]]
