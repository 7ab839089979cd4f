"""stale nodes after hooks (P09), threads (P29), ownership of node memory (P33)"""
NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
S = 'node_tree_core/src/structs/signals.rs'
NS = 'node_tree_core/src/structs/node_scene.rs'
TP = 'node_tree_core/src/structs/tree_pointer.rs'
REG = 'node_tree_core/src/services/node_registry.rs'
LIB = 'node_tree_derive/src/lib.rs'
SIMPLE = 'node_tree_core/src/trees/tree_simple.rs'
P09, P29, P33 = ['P09'], ['P29'], ['P33']


def bug(i, p, *e):
    return (i, 'bug', p, list(e))


def same(i, *e):
    return (i, 'same', [], list(e))


READY = """        if self.get_node(rid).is_some_and(|node| node.has_just_loaded()) {
            if let Some(node) = self.get_node_mut(rid) {
                node.loaded();
            }
            if let Some(node) = self.get_node_mut(rid) {
                unsafe { node.mark_as_final(); }
            }
        }
        if let Some(node) = self.get_node_mut(rid) {
            node.ready();
        }
"""
AFTER = """        let children: Vec<RID> = match self.get_node(node_rid) {
            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
            None       => return
        };
"""
CLONE = """        let cloned_node = unsafe {
            let     node_original: &dyn Node     = &*self.this; // Only borrowed, as a clone that panics must not deallocate it.
            let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
            
            node_new.set_rid(node_original.rid());
            node_new.set_name(node_original.name());

            Box::into_raw(node_new)
        };
"""
RETAIN = """        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
            parent.children.retain(|&c_rid| c_rid != rid);
        }
"""
FREED = """        for &node in &freed {
            if let Some(node) = tree.get_node_mut(node) {
                node.terminal(TerminationReason::Freed); // Has to be called externally!
            }
        }
"""
TAKE = """        // Unregister this node from the tree.
        let node: Option<*mut dyn Node> = self.nodes.take(rid);
"""
MUTS = [
    # ---- P09
    bug('p09-ready-holds', P09, (TB, READY, """        if let Some(node) = self.get_node_mut(rid) {
            if node.has_just_loaded() {
                node.loaded();
                unsafe { node.mark_as_final(); }
            }
            node.ready();
        }
""")),
    bug('p09-mark-late', P09, (TB, READY, """        if let Some(node) = self.get_node_mut(rid) {
            let first: bool = node.has_just_loaded();
            if first { node.loaded(); }
            node.ready();
            if first { unsafe { node.mark_as_final(); } }
        }
""")),
    bug('p09-ready-name', P09, (TB, "        if let Some(node) = self.get_node_mut(rid) {\n            node.ready();\n        }\n", "        if let Some(node) = self.get_node_mut(rid) {\n            node.ready();\n            unsafe { node.set_status(NodeStatus::Normal); }\n        }\n")),
    bug('p09-raw-children', P09, (TB, "        let status: TreeStatus    = self.status;\n", "        let status: TreeStatus    = self.status;\n        let raw: Option<*mut dyn Node> = self.get_node_mut_raw(node_rid);\n"),
        (TB, AFTER, """        if self.get_node(node_rid).is_none() && self.status != TreeStatus::Terminated { return; }
        let children: Vec<RID> = match raw {
            Some(node) => unsafe { &*node }.children().into_iter().map(|c| c.rid()).collect(),
            None       => return
        };
""")),
    bug('p09-children-live', P09, (TB, AFTER + "        for child_node in children {\n            self.process_tail(child_node, delta, process_mode);", """        let node: *const dyn Node = match self.get_node_raw(node_rid) {
            Some(node) => node,
            None       => return
        };
        let count: usize = unsafe { &*node }.num_children();
        for i in 0..count {
            let child_node: RID = match unsafe { &*node }.children().get(i) {
                Some(child) => child.rid(),
                None        => break
            };
            self.process_tail(child_node, delta, process_mode);""")),
    bug('p09-process-after', P09, (TB, "            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),\n", "            TreeStatus::Terminating => { node.terminal(TerminationReason::TreeExit); unsafe { node.set_status(NodeStatus::Normal); } }\n")),
    bug('p09-free-self-rid', P09, (NB, RETAIN, """        let parent: Option<RID> = if freed.len() > 1 { self.parent } else { parent };
""" + RETAIN)),
    bug('p09-free-parent-early', P09, (NB, FREED, "        let parent: Option<*mut dyn Node> = parent.and_then(|parent| tree.get_node_mut_raw(parent));\n" + FREED),
        (NB, "        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {\n            parent.children.retain", "        if let Some(parent) = parent.map(|parent| unsafe { &mut *parent }) {\n            parent.children.retain")),
    bug('p09-free-root-late', P09, (NB, "        if is_root {\n            tree.terminate();", "        if is_root || self.parent.is_none() && parent.is_some() {\n            tree.terminate();")),
    bug('p09-free-nodes-early', P09, (NB, FREED, """        for node in tree.get_all_valid_nodes_mut(&freed) {
            node.terminal(TerminationReason::Freed);
        }
""")),
    bug('p09-remove-nodes-early', P09, (NB, "        for &queued_rid in &connected {\n            if let Some(queued_node) = tree.get_node_mut(queued_rid) {\n                queued_node.terminal(TerminationReason::RemovedAsChild);\n            }\n        }\n", "        for queued_node in tree.get_all_valid_nodes_mut(&connected) {\n            queued_node.terminal(TerminationReason::RemovedAsChild);\n        }\n")),
    bug('p09-remove-self-children', P09, (NB, "        self.children.remove(child_idx);\n\n", "        let gone: RID = self.children[child_idx];\n\n"),
        (NB, "        if tree.get_node(rid).is_some() {\n            tree.post(rid", "        self.children.retain(|&c| c != gone);\n        if tree.get_node(rid).is_some() {\n            tree.post(rid")),
    bug('p09-remove-post-self', P09, (NB, "        if tree.get_node(rid).is_some() {\n            tree.post(rid, Log::Debug(&format!(\"Removed", "        if !self.children.is_empty() || tree.get_node(rid).is_some() {\n            tree.post(rid, Log::Debug(&format!(\"Removed")),
    bug('p09-add-self-after', P09, (NB, "            for rid in added.into_iter().rev() {\n                tree.make_ready(rid);\n            }\n        }\n", "            for rid in added.into_iter().rev() {\n                tree.make_ready(rid);\n            }\n        }\n        self.children.shrink_to_fit();\n")),
    bug('p09-add-tree-each', P09, (NB, "        if let Some(tree) = self.tree_mut() {\n            for rid in added.into_iter().rev() {\n                tree.make_ready(rid);\n            }\n        }\n", "        for rid in added.into_iter().rev() {\n            if let Some(tree) = self.tree_mut() {\n                tree.make_ready(rid);\n            }\n        }\n")),
    bug('p09-ptr-ready-rid', P09, (NB, "            unsafe { self.tree_mut().unwrap_unchecked() }.make_ready(child_rid);\n        }\n        child_rid\n", "            unsafe { self.tree_mut().unwrap_unchecked() }.make_ready(child_rid);\n        }\n        self.children.iter().copied().find(|&c| c == child_rid).unwrap_or(child_rid)\n")),
    bug('p09-emit-self', P09, (S, "kept.lock().unwrap();\n            let (hook", "self.hooks.lock().unwrap();\n            let (hook")),
    bug('p09-emit-kept-ref', P09, (S, "let kept: MutableArc<EventHandler<T>> = self.hooks.clone();", "let kept: &MutableArc<EventHandler<T>> = &self.hooks;")),
    bug('p09-emit-once-later', P09, (S, "                ConnectionType::Once              => { hooks.take(rid); }\n            }\n            drop(hooks);\n", "                ConnectionType::Once              => { hooks.take(rid); }\n            }\n            drop(hooks);\n            let last: bool = matches!(mode, ConnectionType::Once);\n"),
        (S, "                (*hook)(parameters);\n            }\n", "                (*hook)(parameters);\n            }\n            if last { self.disconnect(rid); }\n")),
    bug('p09-init-parents', P09, (TB, "                let rid:    RID           = unsafe { parent.add_child_from_ptr(node, is_owner, true) };", "                let rid:    RID           = unsafe { parent.add_child_from_ptr(node, is_owner, !initialization_history.is_empty()) };")) if 0 else
    bug('p09-init-collect', P09, (TB, "        for rid in initialization_history.into_iter().rev() {\n            self.make_ready(rid);\n        }\n", "        initialization_history.reverse();\n        let all: Vec<*mut dyn Node> = initialization_history.iter().filter_map(|&rid| self.get_node_mut_raw(rid)).collect();\n        for (rid, node) in initialization_history.into_iter().zip(all) {\n            if unsafe { &*node }.has_just_loaded() { self.make_ready(rid); continue; }\n            if let Some(node) = self.get_node_mut(rid) { node.ready(); }\n        }\n")),
    same('p09-same-ready-match', (TB, READY, """        let fresh: bool = match self.get_node(rid) {
            Some(node) => node.has_just_loaded(),
            None       => return
        };
        if fresh {
            self.get_node_mut(rid).map(|node| node.loaded());
            match self.get_node_mut(rid) {
                Some(node) => unsafe { node.mark_as_final() },
                None       => return
            }
        }
        let Some(node) = self.get_node_mut(rid) else { return };
        node.ready();
""")),
    same('p09-same-children-helper', (TB, AFTER, "        let Some(children) = self.rids_below(node_rid) else { return };\n"),
         (TB, "    /// The recursive tail-end of the process function", """    /// The ids of a node's children, if it is still there.
    fn rids_below(&self, rid: RID) -> Option<Vec<RID>> {
        let node: &dyn Node = self.get_node(rid)?;
        Some(node.children().iter().map(|child| child.rid()).collect())
    }

    /// The recursive tail-end of the process function""")),
    same('p09-same-free-match', (NB, RETAIN, """        match parent {
            Some(above) => if let Some(above) = tree.get_node_mut(above) {
                if let Some(at) = above.children.iter().position(|&c| c == rid) { above.children.remove(at); }
            },
            None => ()
        }
""")) if 0 else
    same('p09-same-free-iflet', (NB, RETAIN, """        if let Some(parent) = parent {
            if let Some(above) = tree.get_node_mut(parent) {
                above.children.retain(|&below| below != rid);
            }
        }
""")),
    same('p09-same-add-raw', (NB, "        if let Some(tree) = self.tree_mut() {\n            for rid in added.into_iter().rev() {\n                tree.make_ready(rid);\n            }\n        }\n", "        if let Some(tree) = self.tree {\n            let base: &mut NodeTreeBase = unsafe { &mut *tree };\n            while let Some(rid) = added.pop() {\n                base.make_ready(rid);\n            }\n        }\n")),
    same('p09-same-emit-arc', (S, "        let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();\n\n", ""),
         (S, "let kept: MutableArc<EventHandler<T>> = self.hooks.clone();", "let kept: MutableArc<EventHandler<T>> = Arc::clone(&self.hooks);\n        let connected: Vec<RID> = kept.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();")),
    same('p09-same-remove-tail', (NB, "        if tree.get_node(rid).is_some() {\n            tree.post(rid, Log::Debug(&format!(\"Removed child node \\\"{}\\\" from parent node \\\"{}\\\"!\", child_name, parent_name)));\n        }\n", "        let message: String = format!(\"Removed child node \\\"{}\\\" from parent node \\\"{}\\\"!\", child_name, parent_name);\n        match tree.get_node(rid) {\n            Some(_) => tree.post(rid, Log::Debug(&message)),\n            None    => ()\n        }\n")),
    # ---- P29
    bug('p29-tp-send', P29, (TP, "impl <'a, T: Node> Tp<'a, T> {\n    \n    /// Creates", "unsafe impl <T: Node + Send> Send for Tp<'_, T> {}\n\nimpl <'a, T: Node> Tp<'a, T> {\n    \n    /// Creates")),
    bug('p29-signal-send', P29, (S, "impl <T> Signal<T> {\n\n    /// Creates a new", "unsafe impl <T: Send> Send for Signal<T> {}\n\nimpl <T> Signal<T> {\n\n    /// Creates a new")),
    bug('p29-scene-send', P29, (NS, "impl Clone for NodeScene {", "unsafe impl Send for NodeScene {}\n\nimpl Clone for NodeScene {")),
    bug('p29-tree-address', P29, (TP, "pub struct Tp<'a, T: Node> {\n    tree:   *mut dyn NodeTree,", "pub struct Tp<'a, T: Node> {\n    tree:   *mut dyn NodeTree,\n")) if 0 else
    bug('p29-class-send', P29, (LIB, "        impl node_tree::traits::node::NodeAbstract for #name {", "        unsafe impl Send for #name {}\n        impl node_tree::traits::node::NodeAbstract for #name {")),
    bug('p29-tree-sync', P29, (SIMPLE, "impl NodeTree for TreeSimple {", "unsafe impl Sync for TreeSimple {}\n\nimpl NodeTree for TreeSimple {")) if 0 else
    bug('p29-base-sync', P29, (NB, "impl NodeBase {", "unsafe impl Sync for NodeBase {}\n\nimpl NodeBase {")),
    # ---- P33
    bug('p33-unregister-retrieve', P33, (TB, "self.nodes.take(rid);\n", "self.nodes.retrieve(rid).copied();\n"), (TB, "        node.map(|ptr| unsafe {\n            Box::from_raw(ptr)\n        })\n", "        let boxed: Option<Box<dyn Node>> = node.map(|ptr| unsafe { Box::from_raw(ptr) });\n        if boxed.as_ref().is_some_and(|node| node.childless()) { self.nodes.take(rid); }\n        boxed\n")),
    bug('p33-unregister-twice', P33, (TB, "        node.map(|ptr| unsafe {\n            Box::from_raw(ptr)\n        })\n", "        if rid == Self::ROOT_RID { node.map(|ptr| unsafe { drop(Box::from_raw(ptr)) }); }\n        node.map(|ptr| unsafe {\n            Box::from_raw(ptr)\n        })\n")),
    bug('p33-scene-drop', P33, (NS, "impl Clone for NodeScene {", "impl Drop for NodeScene {\n    fn drop(&mut self) {\n        if !self.from_disk { unsafe { drop(self.get_node()); } }\n    }\n}\n\nimpl Clone for NodeScene {"),
        (NS, "for child in node.children {\n\n                // Call", "for child in node.children.clone() {\n\n                // Call")),
    bug('p33-disconnect-frees', P33, (S, "self.hooks.lock().unwrap().take(rid).is_some()", "match self.hooks.lock().unwrap().take(rid) {\n            Some((hook, _)) => { unsafe { drop(Box::from_raw(hook)); } true },\n            None => false\n        }")),
    bug('p33-once-frees', P33, (S, "                (*hook)(parameters);\n            }\n", "                (*hook)(parameters);\n                if let ConnectionType::Once = mode { drop(Box::from_raw(hook)); }\n            }\n")),
    bug('p33-clone-box', P33, (NS, CLONE, """        let cloned_node = unsafe {
            let     node_original: Box<dyn Node> = Box::from_raw(self.this);
            let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
            
            node_new.set_rid(node_original.rid());
            node_new.set_name(node_original.name());

            let _ = Box::into_raw(node_original);
            Box::into_raw(node_new)
        };
""")),
    bug('p33-clone-shares', P33, (NS, "        NodeScene {\n            this:      cloned_node,", "        NodeScene {\n            this:      if self.children.len() == 1 { self.this } else { cloned_node },")),
    bug('p33-save-get-node', P33, (NS, "    pub fn update_internal(&self, mut counter: u64) -> u64 {\n", "    pub fn update_internal(&self, mut counter: u64) -> u64 {\n        let own: Box<dyn Node> = unsafe { self.get_node() };\n        if own.rid() > counter { counter = own.rid(); }\n        std::mem::forget(own);\n")),
    bug('p33-base-drop', P33, (NB, "impl NodeBase {", "impl Drop for NodeBase {\n    fn drop(&mut self) {\n        if let Some(tree) = self.tree {\n            for &child in &self.children { unsafe { (&mut *tree).unregister_node(child); } }\n        }\n    }\n}\n\nimpl NodeBase {")),
    same('p33-same-box-match', (TB, "        node.map(|ptr| unsafe {\n            Box::from_raw(ptr)\n        })\n", "        match node {\n            Some(ptr) => Some(unsafe { Box::from_raw(ptr) }),\n            None      => None\n        }\n")),
    same('p33-same-let-else', (TB, TAKE, "        let taken: Option<*mut dyn Node> = self.nodes.take(rid);\n"), (TB, "        node.map(|ptr| unsafe {\n            Box::from_raw(ptr)\n        })\n", "        let raw: *mut dyn Node = taken?;\n        Some(unsafe { Box::from_raw(raw) })\n")),
    same('p33-same-clone-helper', (NS, CLONE, "        let cloned_node = Self::copy_of(unsafe { &*self.this });\n"), (NS, "impl hash::Hash for NodeScene {", """impl NodeScene {
    fn copy_of(original: &dyn Node) -> *mut dyn Node {
        let mut copy: Box<dyn Node> = original.clone_as_instance();
        unsafe { copy.set_rid(original.rid()); }
        copy.set_name(original.name());
        Box::into_raw(copy)
    }
}

impl hash::Hash for NodeScene {""")),
    same('p33-same-disconnect', (S, "self.hooks.lock().unwrap().take(rid).is_some()", "let taken = self.hooks.lock().unwrap().take(rid);\n        matches!(taken, Some(_))")),
]
