NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
RI = 'node_tree_core/src/structs/rid.rs'
FU = 'node_tree_core/src/utils/functions.rs'
READY = """        if let Some(tree) = self.tree_mut() {
            for rid in added.into_iter().rev() {
                tree.make_ready(rid);
            }
        }
"""
ITER = """            if let Some(parent) = parent {
                unsafe {
                    let parent: &mut dyn Node = &mut *parent;
                    added.push(parent.add_child_from_ptr(node, is_owner, true));
                }
            } else {
                unsafe {
                    added.push(self.add_child_from_ptr(node, is_owner, true));
                }
            }
"""
MAKE = """        if self.get_node(rid).is_some_and(|node| node.has_just_loaded()) {
            if let Some(node) = self.get_node_mut(rid) {
                node.loaded();
            }
            if let Some(node) = self.get_node_mut(rid) {
                unsafe { node.mark_as_final(); }
            }
        }
        if let Some(node) = self.get_node_mut(rid) {
            node.ready();
        }
"""
SETNAME = """            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
"""
NAMES = """        let names_of_children: &[String] = &self.children().iter().map(|c| c.name().to_string()).collect::<Vec<_>>();
"""
LINK = """            let rid:   RID           = tree.register_node(child_ptr);
            let child: &mut dyn Node = tree.get_node_mut(rid).unwrap_unchecked();

            child.set_name_unchecked(&unique_name);
            child.set_parent(parent_rid);
            child.set_owner(if owner_is_self { rid } else { owner_rid });
            child.set_tree(tree_raw);
            child.set_depth(new_depth);   // This is the only place where depth is updated.
            
            child.set_rid(rid);
            rid
        };
        self.children.push(child_rid);
"""
UNREG = """        let mut singleton_name: Option<String> = None;
        for (name, singleton_rid) in &self.singletons {
            if *singleton_rid == rid {
                singleton_name = Some(name.to_string());
            }
        }

        if let Some(singleton_name) = singleton_name {
            self.singletons.remove(&singleton_name);
        }
"""
EUN = """    let mut new_value: usize = given_value.and_then(|value| value.checked_add(1)).unwrap_or(1);
    loop {
        let new_name: String = format!("{}{}", name_without_suffix, new_value);
        if !relative_to.iter().any(|n| *n == new_name) {
            return new_name;
        }
        new_value = new_value.wrapping_add(1);
    }
"""
GNM = """        if rids.len() != rids.iter().collect::<HashSet<_>>().len() {
            panic!("Duplicate RIDs found!");
        }

        rids.iter()
            .map("""
GN = """        rids.iter()
            .map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &**node })).collect::<Vec<_>>()
"""
MUTS = [
 # ---------------------------------------------------------------- P04
 ('p04-parent-first', 'bug', ['P04'], [(NB, "for rid in added.into_iter().rev() {", "for rid in added.into_iter() {")]),
 ('p04-init-parent-first', 'bug', ['P04'], [(TB, "for rid in initialization_history.into_iter().rev() {", "for rid in initialization_history.into_iter() {")]),
 ('p04-ready-while-attaching', 'bug', ['P04'], [(NB, "added.push(parent.add_child_from_ptr(node, is_owner, true));", "parent.add_child_from_ptr(node, is_owner, false);")]),
 ('p04-root-not-ready', 'bug', ['P04'], [(NB, "for rid in added.into_iter().rev() {", "for rid in added.into_iter().skip(1).rev() {")]),
 ('p04-init-root-not-ready', 'bug', ['P04'], [(TB, "                initialization_history.push(Self::ROOT_RID);\n", "                if !is_owner { initialization_history.push(Self::ROOT_RID); }\n")]),
 ('p04-mark-kept', 'bug', ['P04'], [(TB, "            if let Some(node) = self.get_node_mut(rid) {\n                unsafe { node.mark_as_final(); }\n            }\n", "")]),
 ('p04-loaded-for-all', 'bug', ['P04'], [(TB, "if self.get_node(rid).is_some_and(|node| node.has_just_loaded()) {", "if self.get_node(rid).is_some() {")]),
 ('p04-loaded-only', 'bug', ['P04'], [(TB, "        if let Some(node) = self.get_node_mut(rid) {\n            node.ready();\n        }\n", "        else if let Some(node) = self.get_node_mut(rid) {\n            node.ready();\n        }\n")]),
 ('p04-stale', 'bug', ['P04'], [(TB, MAKE, """        if let Some(node) = self.get_node_mut(rid) {
            if node.has_just_loaded() {
                node.loaded();
                unsafe { node.mark_as_final(); }
            }
            node.ready();
        }
""")]),
 ('p04-loaded-after', 'bug', ['P04'], [(TB, MAKE, """        if let Some(node) = self.get_node_mut(rid) {
            node.ready();
        }
        if self.get_node(rid).is_some_and(|node| node.has_just_loaded()) {
            if let Some(node) = self.get_node_mut(rid) {
                node.loaded();
            }
            if let Some(node) = self.get_node_mut(rid) {
                unsafe { node.mark_as_final(); }
            }
        }
""")]),
 ('p04-fromptr-inverted', 'bug', ['P04'], [(NB, "        if !ignore_ready {\n            unsafe", "        if !ignore_ready && !owner_is_self {\n            unsafe")]),
 ('p04-same-inline', 'same', [], [(NB, READY, """        if let Some(tree) = self.tree_mut() {
            let mut order = added;
            order.reverse();
            for rid in order {
                tree.make_ready(rid);
            }
        }
""")]),
 ('p04-same-while-pop', 'same', [], [(NB, READY, """        let tree = match self.tree_mut() { Some(tree) => tree, None => return };
        for &rid in added.iter().rev() {
            tree.make_ready(rid);
        }
""")]),
 ('p04-same-match', 'same', [], [(NB, ITER, """            let rid: RID = unsafe { match parent {
                Some(parent) => (&mut *parent).add_child_from_ptr(node, is_owner, true),
                None         => self.add_child_from_ptr(node, is_owner, true)
            } };
            added.push(rid);
""")]),
 ('p04-same-make', 'same', [], [(TB, MAKE, """        let just_loaded: bool = match self.get_node(rid) {
            Some(node) => node.has_just_loaded(),
            None       => return
        };
        if just_loaded {
            if let Some(node) = self.get_node_mut(rid) { node.loaded(); }
            if let Some(node) = self.get_node_mut(rid) { unsafe { node.mark_as_final(); } }
        }
        match self.get_node_mut(rid) {
            Some(node) => node.ready(),
            None       => ()
        }
""")]),
 # ---------------------------------------------------------------- P05
 ('p05-no-check', 'bug', ['P05'], [(NB, "self.set_name_unchecked(&ensure_unique_name(name, siblings));", "self.set_name_unchecked(if siblings.is_empty() { name } else { name });")]),
 ('p05-self-included', 'bug', ['P05'], [(NB, ".filter(|a| a.rid() != self.rid)", "")]),
 ('p05-skip-first', 'bug', ['P05'], [(NB, NAMES, NAMES.replace(".iter()", ".iter().skip(1)"))]),
 ('p05-unique-of-wrong', 'bug', ['P05'], [(NB, "child.set_name_unchecked(&unique_name);", "child.set_name_unchecked(if owner_is_self { self.name() } else { &unique_name });")]),
 ('p05-eun-prefix', 'bug', ['P05'], [(FU, "if !relative_to.iter().any(|n| *n == new_name) {", "if !relative_to.iter().take(8).any(|n| *n == new_name) {")]),
 ('p05-eun-first', 'bug', ['P05'], [(FU, "if !relative_to.iter().any(|n| n == name) {", "if relative_to.first().is_none_or(|n| n != name) {")]),
 ('p05-eun-all', 'bug', ['P05'], [(FU, "if !relative_to.iter().any(|n| *n == new_name) {", "if !relative_to.iter().all(|n| *n == new_name) {")]),
 ('p05-eun-starts', 'bug', ['P05'], [(FU, "            return new_name;\n", "            return new_name.trim_start().to_string();\n")]),
 ('p05-type-filter', 'bug', ['P05'], [(NB, ".filter(|a| a.rid() != self.rid)", ".filter(|a| a.rid() != self.rid && !a.is_owner())")]),
 ('p05-same-loop', 'same', [], [(NB, SETNAME, """            let mut others: Vec<String> = Vec::new();
            for sibling in parent.children() {
                if sibling.rid() == self.rid { continue; }
                others.push(sibling.name().to_string());
            }
            let     siblings:  &[String]    = &others;
""")]),
 ('p05-same-eun', 'same', [], [(FU, EUN, """    let mut new_value: usize = match given_value { Some(value) => value.checked_add(1).unwrap_or(1), None => 1 };
    let mut new_name: String = format!("{}{}", name_without_suffix, new_value);
    while relative_to.contains(&new_name) {
        new_value = new_value.wrapping_add(1);
        new_name  = format!("{}{}", name_without_suffix, new_value);
    }
    new_name
""")]),
 ('p05-same-helper', 'same', [], [(FU, EUN, EUN.replace("!relative_to.iter().any(|n| *n == new_name)", "is_free(&new_name, relative_to)")), (FU, "pub fn ensure_unique_name(", "fn is_free(name: &str, taken: &[String]) -> bool {\n    for n in taken { if n == name { return false; } }\n    true\n}\n\npub fn ensure_unique_name("), (FU, "if !relative_to.iter().any(|n| n == name) {", "if is_free(name, relative_to) {")]),
 ('p05-same-collect', 'same', [], [(NB, NAMES, """        let mut names_of_children: Vec<String> = Vec::with_capacity(self.num_children());
        for child in self.children().iter() {
            names_of_children.push(child.name().to_owned());
        }
        let names_of_children: &[String] = &names_of_children;
""")]),
 # ---------------------------------------------------------------- P06
 ('p06-depth', 'bug', ['P06'], [(NB, "let new_depth:  usize             = self.depth() + 1; ", "let new_depth:  usize             = if owner_is_self { 1 } else { self.depth() + 1 };")]),
 ('p06-owner-parent', 'bug', ['P06'], [(NB, "child.set_owner(if owner_is_self { rid } else { owner_rid });", "child.set_owner(if owner_is_self { rid } else { parent_rid });")]),
 ('p06-owner-flip', 'bug', ['P06'], [(NB, "child.set_owner(if owner_is_self { rid } else { owner_rid });", "child.set_owner(if owner_is_self { owner_rid } else { rid });")]),
 ('p06-front', 'bug', ['P06'], [(NB, "        self.children.push(child_rid);\n", "        self.children.insert(0, child_rid);\n")]),
 ('p06-twice', 'bug', ['P06'], [(NB, "        self.children.push(child_rid);\n", "        self.children.push(child_rid);\n        if owner_is_self { self.children.push(child_rid); }\n")]),
 ('p06-rid', 'bug', ['P06'], [(NB, "            child.set_rid(rid);\n", "            child.set_rid(parent_rid);\n")]),
 ('p06-norid', 'bug', ['P06'], [(NB, "            child.set_rid(rid);\n", "            if owner_is_self { child.set_rid(rid); }\n")]),
 ('p06-parent-owner', 'bug', ['P06'], [(NB, "child.set_parent(parent_rid);", "child.set_parent(owner_rid);")]),
 ('p06-flat-scene', 'bug', ['P06'], [(NB, "added.push(parent.add_child_from_ptr(node, is_owner, true));", "let _ = parent; added.push(self.add_child_from_ptr(node, is_owner, true));")]),
 ('p06-no-owner', 'bug', ['P06'], [(TB, "parent.add_child_from_ptr(node, is_owner, true)", "parent.add_child_from_ptr(node, false, true)")]),
 ('p06-new-depth', 'bug', ['P06'], [(TB, "                    root.set_owner(Self::ROOT_RID);\n", "                    root.set_owner(Self::ROOT_RID);\n                    root.set_depth(1);\n")]),
 ('p06-set-parent-leak', 'bug', ['P06'], [(NB, "    pub fn childless(&self)", "    /// x\n    pub fn reparent(&mut self, p: RID) { unsafe { self.set_parent(p) } }\n\n    /// x\n    pub fn childless(&self)")]),
 ('p06-same-order', 'same', [], [(NB, LINK, """            let rid:   RID           = tree.register_node(child_ptr);
            rid
        };
        self.children.push(child_rid);
        unsafe {
            let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
            child.set_rid(child_rid);
            child.set_depth(new_depth_of(self));
            child.set_tree(self.tree.unwrap_unchecked());
            let owner = match owner_is_self { true => child_rid, false => self.owner.unwrap_unchecked() };
            child.set_owner(owner);
            child.set_parent(self.rid);
            child.set_name_unchecked(&unique_name);
        }
"""), (NB, """            let owner_rid:  RID               = self.owner.unwrap_unchecked();
            let parent_rid: RID               = self.rid;
            let new_depth:  usize             = self.depth() + 1; 
            let tree_raw:   *mut dyn NodeTree = self.tree.unwrap_unchecked();
""", ""), (NB, "impl std::fmt::Debug for NodeBase", "fn new_depth_of(parent: &NodeBase) -> usize { parent.depth + 1 }\n\nimpl std::fmt::Debug for NodeBase")]),
 # ---------------------------------------------------------------- P07
 ('p07-reuse-max', 'bug', ['P07'], [(RI, "        let rid: RID = self.highest;\n        self.highest += 1;\n", "        let rid: RID = self.data.len() as RID;\n        self.highest += 1;\n")]),
 ('p07-take-rewinds', 'bug', ['P07'], [(RI, "        self.data.remove(&rid)\n", "        if rid + 1 == self.highest { self.highest = rid; }\n        self.data.remove(&rid)\n")]),
 ('p07-take-keeps', 'bug', ['P07'], [(TB, "let node: Option<*mut dyn Node> = self.nodes.take(rid);", "let node: Option<*mut dyn Node> = self.nodes.retrieve(rid).copied();")]),
 ('p07-identity-kept', 'bug', ['P07'], [(TB, "        self.identity.remove(&rid);\n", "        if node.is_none() { self.identity.remove(&rid); }\n")]),
 ('p07-lookup-falls-back', 'bug', ['P07'], [(TB, "self.nodes.modify(rid).map(|node| unsafe { &mut **node })", "self.nodes.modify(rid.max(1)).map(|node| unsafe { &mut **node })")]),
 ('p07-from-vec', 'bug', ['P07'], [(RI, "let highest: RID = slice.len() as RID;", "let highest: RID = (slice.len() as RID).saturating_sub(1);")]),
 ('p07-same', 'same', [], [(RI, "        let rid: RID = self.highest;\n        self.highest += 1;\n\n        self.data.insert(rid, item);\n        rid\n", "        let rid: RID = self.highest;\n        self.data.insert(rid, item);\n        self.highest = rid + 1;\n        rid\n"), (TB, "self.nodes.retrieve(rid).map(|node| unsafe { &**node })\n    }\n\n    /// Gets a vector of node references", "match self.nodes.retrieve(rid) {\n            Some(&node) => Some(unsafe { &*node }),\n            None        => None\n        }\n    }\n\n    /// Gets a vector of node references")]),
 # ---------------------------------------------------------------- P10
 ('p10-steals', 'bug', ['P10'], [(TB, "if !self.identity.values().all(|x| x.does_not_match(&name)) {", "if !self.identity.values().any(|x| x.does_not_match(&name)) {")]),
 ('p10-keeps-old', 'bug', ['P10'], [(TB, "        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);\n", "")]),
 ('p10-drops-others', 'bug', ['P10'], [(TB, "self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);", "self.singletons.retain(|_, singleton_rid| *singleton_rid == rid);")]),
 ('p10-unreg-inverted', 'bug', ['P10'], [(TB, "            if *singleton_rid == rid {\n", "            if *singleton_rid >= rid {\n")]),
 ('p10-unreg-none', 'bug', ['P10'], [(TB, "            self.singletons.remove(&singleton_name);\n", "            if self.status.is_active() { self.singletons.remove(&singleton_name); }\n")]),
 ('p10-no-identity', 'bug', ['P10'], [(TB, "        self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));\n", "        self.identity.entry(rid).or_insert(NodeIdentity::UniqueName(name.clone()));\n")]),
 ('p10-match', 'bug', ['P10'], [(TB, "Self::UniqueName(this_name) => this_name != name,", "Self::UniqueName(this_name) => !this_name.starts_with(name),")]),
 ('p10-lookup-trim', 'bug', ['P10'], [(TB, "self.to_string().get_from(tree, caller)", "self.trim().to_string().get_from(tree, caller)")]),
 ('p10-unknown', 'bug', ['P10'], [(TB, "        self.nodes.retrieve(rid)?;\n", "        if self.nodes.is_empty() { return None; }\n")]),
 ('p10-same-find', 'same', [], [(TB, UNREG, """        let singleton_name: Option<String> = self.singletons.iter().find(|(_, singleton_rid)| **singleton_rid == rid).map(|(name, _)| name.clone());
        if let Some(singleton_name) = singleton_name {
            self.singletons.remove(&singleton_name);
        }
""")]),
 ('p10-same-retain', 'same', [], [(TB, UNREG, "        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);\n")]),
 ('p10-same-any', 'same', [], [(TB, """        if !self.identity.values().all(|x| x.does_not_match(&name)) {
            return Some(false);
        }
""", """        for identity in self.identity.values() {
            if let NodeIdentity::UniqueName(taken) = identity {
                if *taken == name { return Some(false); }
            }
        }
""")]),
 ('p10-same-matches', 'same', [], [(TB, """        match self {
            Self::UniqueName(this_name) => this_name != name,
            Self::NodePath              => true
        }
""", "        !matches!(self, Self::UniqueName(this_name) if this_name == name)\n")]),
 # ---------------------------------------------------------------- P28
 ('p28-no-dup', 'bug', ['P28'], [(TB, GNM, "        rids.iter()\n            .map(")]),
 ('p28-filter-slots', 'bug', ['P28'], [(TB, ".map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &mut **node })).collect::<Vec<_>>()", ".map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &mut **node })).filter(|n| n.is_some()).collect::<Vec<_>>()")]),
 ('p28-rev', 'bug', ['P28'], [(TB, GN, GN.replace("rids.iter()", "rids.iter().rev()"))]),
 ('p28-dup-len', 'bug', ['P28'], [(TB, GNM, GNM.replace("rids.len() != rids", "rids.len() < rids"))]),
 ('p28-same-insert', 'same', [], [(TB, GNM, """        let mut seen: HashSet<RID> = HashSet::new();
        for rid in rids {
            if !seen.insert(*rid) {
                panic!("Duplicate RIDs found!");
            }
        }

        rids.iter()
            .map(""")]),
 ('p28-same-loop', 'same', [], [(TB, GN, """        let mut found: Vec<Option<&dyn Node>> = Vec::with_capacity(rids.len());
        for &rid in rids {
            found.push(self.get_node(rid));
        }
        found
""")]),
]
