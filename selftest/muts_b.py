NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
FREE_HOOK = """        for &node in &freed {
            if let Some(node) = tree.get_node_mut(node) {
                node.terminal(TerminationReason::Freed); // Has to be called externally!
            }
        }
"""
FREE_REST = """        // Remove the reference of this node from its parent if it has a parent.
        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
            parent.children.retain(|&c_rid| c_rid != rid);
        }

        for node in freed {
            unsafe {
                tree.unregister_node(node);
            }
        }
"""
RM_LOOP = """        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
            
            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                queued_node.disconnnect_parent();
                queued_node.disconnnect_owner();
                queued_node.disconnnect_tree();
            }
            tree.unregister_node(queued_rid);
        }}
"""
RM_FIND = """        let child: Option<(usize, TpDyn)> = self.children()
            .into_iter()
            .enumerate()
            .find(|(_, c)| c.name() == name);
"""
MUTS = [
 ('p02-queued-to-terminated', 'bug', ['P02'], [(TB, "TreeStatus::QueuedTermination(_) => self.status = TreeStatus::Terminating,", "TreeStatus::QueuedTermination(TreeProcess::Paused) => self.status = TreeStatus::Terminated,\n            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::Terminating,")]),
 ('p02-queue-from-terminated', 'bug', ['P02'], [(TB, """            _                            => ()
        }
    }

    /// Immediately""", """            TreeStatus::Terminated       => self.status = TreeStatus::Terminating,
            _                            => ()
        }
    }

    /// Immediately""")]),
 ('p02-queue-running', 'bug', ['P02'], [(TB, "TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),", "TreeStatus::Process(_) => self.status = TreeStatus::QueuedTermination(TreeProcess::Running),")]),
 ('p02-returns-before', 'bug', ['P02'], [(TB, """        match self.status {
            TreeStatus::QueuedTermination(_) =>""", """        let before = self.status;
        match self.status {
            TreeStatus::QueuedTermination(_) =>"""), (TB, """            _                                => ()
        }
        self.status""", """            _                                => ()
        }
        before""")]),
 ('p02-stale-status', 'bug', ['P02'], [(TB, """        // Process the node tree recursively.
""", """        let st = self.status;
"""), (TB, """        match self.status {
            TreeStatus::QueuedTermination(_) => self.status""", """        match st {
            TreeStatus::QueuedTermination(_) => self.status""")]),
 ('p02-terminate-graceful', 'bug', ['P02'], [(TB, "        self.status = TreeStatus::Terminated;\n    }", "        if self.status != TreeStatus::Terminating { self.status = TreeStatus::Terminated; }\n    }")]),
 ('p03-free-detach-first', 'bug', ['P03'], [(NB, FREE_HOOK, ''), (NB, FREE_REST, FREE_REST.replace("            unsafe {\n                tree.unregister", "            if let Some(node) = tree.get_node_mut(node) { node.terminal(TerminationReason::Freed); }\n            unsafe {\n                tree.unregister"))]),
 ('p03-free-not-self', 'bug', ['P03'], [(NB, "for &node in &freed {", "for &node in freed.iter().skip(1) {")]),
 ('p03-free-rev', 'bug', ['P03'], [(NB, "for &node in &freed {", "for &node in freed.iter().rev() {")]),
 ('p03-free-parent-first', 'bug', ['P03'], [(NB, "parent.children.retain(|&c_rid| c_rid != rid);", "parent.children.retain(|&c_rid| c_rid < rid);")]),
 ('p03-free-root-only-childless', 'bug', ['P03'], [(NB, """        if is_root {
            tree.terminate();""", """        if is_root && rid == 0 && !tree.status_is_queued() {
            tree.terminate();"""), (TB, "    /// Gets the current log as a string.", "    pub(crate) fn status_is_queued(&self) -> bool { matches!(self.status, TreeStatus::QueuedTermination(_)) }\n    /// Gets the current log as a string.")]),
 ('p03-remove-reason', 'bug', ['P03'], [(NB, "queued_node.terminal(TerminationReason::RemovedAsChild);", "queued_node.terminal(if queued_node.childless() { TerminationReason::RemovedAsChild } else { TerminationReason::Freed });")]),
 ('p03-remove-wrong-idx', 'bug', ['P03'], [(NB, "        self.children.remove(child_idx);\n", "        self.children.swap_remove(child_idx);\n")]),
 ('p03-remove-keep-owner', 'bug', ['P03'], [(NB, "                queued_node.disconnnect_owner();\n", "                if !queued_node.is_owner() { queued_node.disconnnect_owner(); }\n")]),
 ('p03-remove-late-list', 'bug', ['P03'], [(NB, "for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe {", "for (idx, queued_rid) in connected.into_iter().enumerate().filter(|(_, r)| *r != child_idx as u64) { unsafe {")]),
 ('p03-remove-prefix', 'bug', ['P03'], [(NB, ".find(|(_, c)| c.name() == name);", ".find(|(_, c)| c.name().starts_with(name));")]),
 # ---- same behaviour
 ('same-free-helper', 'same', [], [(NB, FREE_HOOK, "        Self::say_goodbye(tree, &freed, TerminationReason::Freed);\n"), (NB, "    /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be", """    fn say_goodbye(tree: &mut NodeTreeBase, branch: &[RID], reason: TerminationReason) {
        branch.iter().for_each(|rid| {
            if let Some(n) = tree.get_node_mut(*rid) {
                n.terminal(reason);
            }
        });
    }

    /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be""")]),
 ('same-free-position', 'same', [], [(NB, """            parent.children.retain(|&c_rid| c_rid != rid);
""", """            if let Some(at) = parent.children.iter().position(|c| *c == rid) {
                parent.children.remove(at);
            }
""")]),
 ('same-free-match', 'same', [], [(NB, """        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
            parent.children.retain(|&c_rid| c_rid != rid);
        }
""", """        match parent {
            Some(p) => match tree.get_node_mut(p) {
                Some(p) => p.children.retain(|c| !(*c == rid)),
                None    => {}
            },
            None => {}
        }
""")]),
 ('same-free-order', 'same', [], [(NB, """        if is_root {
            tree.terminate();
        }
    }

    /// Saves""", """    }

    /// Saves"""), (NB, "        // Remove the reference of this node from its parent if it has a parent.\n", "        if is_root { tree.terminate(); }\n")]),
 ('same-free-while', 'same', [], [(NB, """        for node in freed {
            unsafe {
                tree.unregister_node(node);
            }
        }
""", """        let mut k = 0;
        while k < freed.len() {
            let node = freed[k];
            k += 1;
            let _ = unsafe { tree.unregister_node(node) };
        }
""")]),
 ('same-remove-forfind', 'same', [], [(NB, RM_FIND, """        let mut child: Option<(usize, TpDyn)> = None;
        for (i, c) in self.children().into_iter().enumerate() {
            if c.name() == name {
                child = Some((i, c));
                break;
            }
        }
""")]),
 ('same-remove-retain', 'same', [], [(NB, "        self.children.remove(child_idx);\n", "        let gone = self.children[child_idx];\n        self.children.retain(|c| *c != gone);\n")]),
 ('same-remove-position', 'same', [], [(NB, RM_FIND, """        let kids = self.children();
        let child: Option<(usize, TpDyn)> = kids.iter().position(|c| c.name() == name).map(|i| (i, kids[i].clone()));
""")]),
 ('same-remove-loop', 'same', [], [(NB, RM_LOOP, """        for queued_rid in connected {
            unsafe { Self::let_go(tree, queued_rid); }
        }
"""), (NB, "    /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be", """    unsafe fn let_go(tree: &mut NodeTreeBase, rid: RID) {
        if let Some(node) = tree.get_node_mut(rid) {
            node.disconnnect_tree();
            node.disconnnect_parent();
            node.disconnnect_owner();
        }
        tree.unregister_node(rid);
    }

    /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be""")]),
 ('same-remove-letelse', 'same', [], [(NB, """        if child.is_none() {
            self.post(Log::Warn(&format!("Attempted to remove invalid node of name \\"{}\\" from node \\"{}\\"!", name, self.name())));
            return false;
        }
""", """        let Some(_) = &child else {
            let msg = format!("Attempted to remove invalid node of name \\"{}\\" from node \\"{}\\"!", name, self.name());
            self.post(Log::Warn(&msg));
            return false;
        };
""")]),
]
