"""more edits that change nothing: nodes and the tree"""
C = 'node_tree_core/src/'
NB, TB = C + 'structs/node_base.rs', C + 'structs/node_tree_base.rs'


def s(i, *e):
    return ('x-%s-same' % i, 'same', [], list(e))


GUARD = """        if self.tree().is_none() {
            panic!("Cannot get a node from a node that is not a part of a NodeTree!");
        }
"""
CH = """        self.children.iter().map(|&c| unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, c).unwrap_unchecked() }).collect()
"""
GC = """        if i >= self.num_children() {
            unsafe {
                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))
            }
        } else {
            unsafe {
                TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.children[i])
                    .map_err(|err| NodeError::TPError(err))
            }
        }
"""
RAWB = """        let next_node: Option<PathSeg> = path.pop_front();
        match next_node {
            Some(target) => {
                match target {
                    PathSeg::Node(target_node) => {
                        for child in self.children() {
                            if *child.name() == *target_node {
                                return child.get_node_raw(path);
                            }
                        }
                        None
                    },
                    PathSeg::This => {
                        self.get_node_raw(path)
                    },
                    PathSeg::Parent => {
                        if let Some(parent) = self.parent_dyn().to_option() {
                            parent.get_node_raw(path)
                        } else {
                            None
                        }
                    }
                }
            },
            None => Some(self.rid())
        }
"""
TD = """        let mut iter: Vec<RID> = if contains_self { vec![self.rid()] } else { Vec::new() };
        self.top_down_tail(&mut iter, vec![self.rid()]);
        iter
"""
TDT = """        let new_layer: Vec<RID> = unsafe { self.tree().unwrap_unchecked() }.get_all_valid_nodes(&layer)
            .into_iter()
            .flat_map(|node| node.children.to_owned() )
            .collect();
        if new_layer.is_empty() {
            return;
        }
        iter.append(&mut new_layer.clone());

        self.top_down_tail(iter, new_layer)        
"""
ABS = """        *path = self.name().to_string() + &(if path.is_empty() { String::new() } else { "/".to_string() + path });
"""
POST = """        unsafe {
            match &log {
                Log::Warn(str)  => self.set_status(NodeStatus::JustWarned(str.to_string())),
                Log::Panic(str) => self.set_status(NodeStatus::JustPanicked(str.to_string())),
                _               => ()
            }
        }

        let rid: RID = self.rid();
        match self.tree_mut() {
            Some(root) => {
                root.post(rid, log);
            },
            None => panic!("Cannot post to log on a disconnected node!")
        }
"""
FREE1 = """        for &node in &freed {
            if let Some(node) = tree.get_node_mut(node) {
                node.terminal(TerminationReason::Freed); // Has to be called externally!
            }
        }

        // Remove the reference of this node from its parent if it has a parent.
        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
            parent.children.retain(|&c_rid| c_rid != rid);
        }

        for node in freed {
            unsafe {
                tree.unregister_node(node);
            }
        }
"""
SAVE = """        for &child in &self.children {
            let child: &dyn Node = unsafe { (&*self.tree.unwrap_unchecked()).get_node(child).unwrap_unchecked() };
            if child.is_owner() {
                scene.append_as_owner(child.save_as_branch_tail());
            } else {
                scene.append(child.save_as_branch_tail());
            }
        }
        scene
"""
FIND = """        let child: Option<(usize, TpDyn)> = self.children()
            .into_iter()
            .enumerate()
            .find(|(_, c)| c.name() == name);
"""
REM1 = """        for &queued_rid in &connected {
            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                queued_node.terminal(TerminationReason::RemovedAsChild);
            }
        }
"""
REM2 = """        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
            
            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                queued_node.disconnnect_parent();
                queued_node.disconnnect_owner();
                queued_node.disconnnect_tree();
            }
            tree.unregister_node(queued_rid);
        }}
"""
SETN = """        if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
            let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();

            unsafe {
                self.set_name_unchecked(&ensure_unique_name(name, siblings));
            }
        } else {
            unsafe {
                self.set_name_unchecked(name);
            }
        }
"""
ADDC = """        child.iterate(|parent, node, is_owner| {
            if let Some(parent) = parent {
                unsafe {
                    let parent: &mut dyn Node = &mut *parent;
                    added.push(parent.add_child_from_ptr(node, is_owner, true));
                }
            } else {
                unsafe {
                    added.push(self.add_child_from_ptr(node, is_owner, true));
                }
            }
        });
"""
READY = """        if let Some(tree) = self.tree_mut() {
            for rid in added.into_iter().rev() {
                tree.make_ready(rid);
            }
        }
"""
CONN = """            let owner_rid:  RID               = self.owner.unwrap_unchecked();
            let parent_rid: RID               = self.rid;
            let new_depth:  usize             = self.depth() + 1; 
            let tree_raw:   *mut dyn NodeTree = self.tree.unwrap_unchecked();
            let tree:       &mut dyn NodeTree = self.tree_mut().unwrap_unchecked();
            
            let rid:   RID           = tree.register_node(child_ptr);
            let child: &mut dyn Node = tree.get_node_mut(rid).unwrap_unchecked();

            child.set_name_unchecked(&unique_name);
            child.set_parent(parent_rid);
            child.set_owner(if owner_is_self { rid } else { owner_rid });
            child.set_tree(tree_raw);
            child.set_depth(new_depth);   // This is the only place where depth is updated.
            
            child.set_rid(rid);
            rid
"""
PROC = """        // Reset the prior frame's node statuses.
        for node in self.get_nodes_mut(&self.root().top_down(true)) {
            unsafe {
                node.unwrap_unchecked().set_status(NodeStatus::Normal);
            }
        }

        // Process the node tree recursively.
        self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);

        // Check the tree's status.
        match self.status {
            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::Terminating,
            TreeStatus::Terminating          => self.status = TreeStatus::Terminated,
            _                                => ()
        }
        self.status
"""
MODE = """        let mut process_mode: ProcessMode = node.process_mode();
        if process_mode == ProcessMode::Inherit {
            process_mode = inherited_process_mode;
        }
"""
RULES = """        match status {
            TreeStatus::Process(process) | TreeStatus::QueuedTermination(process) => {
                match process {
                    TreeProcess::Running => {
                        match process_mode {
                            ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                            ProcessMode::Always   => node.process(delta),
                            ProcessMode::Pausable => node.process(delta),
                            ProcessMode::Inverse  => ()
                        }
                    },

                    TreeProcess::Paused => {
                        match process_mode {
                            ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                            ProcessMode::Always   => node.process(delta),
                            ProcessMode::Pausable => (),
                            ProcessMode::Inverse  => node.process(delta)
                        }
                    }
                }
            }
            
            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),
            TreeStatus::Terminated  => ()
        }
"""
KIDS = """        let children: Vec<RID> = match self.get_node(node_rid) {
            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
            None       => return
        };
        for child_node in children {
            self.process_tail(child_node, delta, process_mode);
            if self.status == TreeStatus::Terminated {
                break;
            }
        }
"""
INIT1 = """            if let Some(parent) = parent {
                let parent: &mut dyn Node = unsafe { &mut *parent };
                let rid:    RID           = unsafe { parent.add_child_from_ptr(node, is_owner, true) };

                initialization_history.push(rid);
            } else {
                self.identity.insert(Self::ROOT_RID, NodeIdentity::NodePath);
                initialization_history.push(Self::ROOT_RID);
"""
INIT2 = """        for rid in initialization_history.into_iter().rev() {
            self.make_ready(rid);
        }
"""
SING = """        let mut singleton_name: Option<String> = None;
        for (name, singleton_rid) in &self.singletons {
            if *singleton_rid == rid {
                singleton_name = Some(name.to_string());
            }
        }

        if let Some(singleton_name) = singleton_name {
            self.singletons.remove(&singleton_name);
        }
"""
DUP = """        if rids.len() != rids.iter().collect::<HashSet<_>>().len() {
            panic!("Duplicate RIDs found!");
        }

        rids.iter()
            .map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &mut **node })).collect::<Vec<_>>()
"""
REG = """        self.nodes.retrieve(rid)?;
        
        if !self.identity.values().all(|x| x.does_not_match(&name)) {
            return Some(false);
        }
"""
TPOST = """        let ptr: *mut NodeTreeBase = self;
        unsafe {
            if self.logger.post(calling, log, ptr) {
                self.terminate();
            }
        }
"""
IMPL = "impl NodeBase {\n\n    /// Creates a new `NodeBase` instance"
TIMPL = "    /// Creates an empty `NodeTreeBase`, ready for initialization."
MUTS = [
 s('children-loop', (NB, CH, """        let tree: *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
        let mut found: Vec<TpDyn> = Vec::with_capacity(self.children.len());
        for &child in self.children.iter() {
            found.push(unsafe { TpDyn::new(tree, self.rid, child).unwrap_unchecked() });
        }
        found
""")),
 s('children-index', (NB, CH, """        let mut found: Vec<TpDyn> = Vec::new();
        let mut i: usize = 0;
        while i < self.children.len() {
            found.push(unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.children[i]).unwrap_unchecked() });
            i += 1;
        }
        found
""")),
 s('children-helper', (NB, CH, """        self.children.iter().copied().map(|child| self.pointer_to(child)).collect()
"""), (NB, IMPL, """impl NodeBase {

    /// A pointer to a node that is known to be in the tree.
    fn pointer_to(&self, rid: RID) -> TpDyn<'_> {
        unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, rid).unwrap_unchecked() }
    }

    /// Creates a new `NodeBase` instance""")),
 s('get-child-get', (NB, GC, """        let tree: *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
        match self.children.get(i) {
            Some(&child) => unsafe { TpDyn::new(tree, self.rid, child) }.map_err(NodeError::TPError),
            None         => unsafe {
                TreeResult::new(tree, self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.children.len() }))
            }
        }
""")),
 s('get-child-early', (NB, GC, """        let count: usize = self.num_children();
        if i < count {
            return unsafe { TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.children[i]).map_err(|err| NodeError::TPError(err)) };
        }
        let error: NodeError = NodeError::IndexOutOfRange { index: i, children_count: count };
        unsafe { TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(error)) }
""")),
 s('guard-helper', (NB, GUARD + """        
        unsafe {
            TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.owner.unwrap_unchecked()).unwrap_unchecked()
        }
""", """        self.require_tree();
        unsafe {
            TpDyn::new(self.tree.unwrap_unchecked(), self.rid, self.owner.unwrap_unchecked()).unwrap_unchecked()
        }
"""), (NB, IMPL, """impl NodeBase {

    fn require_tree(&self) {
        assert!(self.in_tree(), "Cannot get a node from a node that is not a part of a NodeTree!");
    }

    /// Creates a new `NodeBase` instance""")),
 s('raw-loop', (NB, RAWB, """        let Some(segment) = path.pop_front() else {
            return Some(self.rid);
        };
        match segment {
            PathSeg::This         => self.get_node_raw(path),
            PathSeg::Parent       => match self.parent_dyn().to_option() {
                Some(parent) => parent.get_node_raw(path),
                None         => None
            },
            PathSeg::Node(wanted) => {
                let children: Vec<TpDyn> = self.children();
                let index: usize = children.iter().position(|child| child.name() == &*wanted)?;
                children[index].get_node_raw(path)
            }
        }
""")),
 s('raw-iter-find', (NB, RAWB, """        match path.pop_front() {
            None => Some(self.rid()),
            Some(PathSeg::This) => self.get_node_raw(path),
            Some(PathSeg::Parent) => self.parent_dyn().to_option()?.get_node_raw(path),
            Some(PathSeg::Node(target)) => {
                for child in self.children().into_iter() {
                    if child.name() != &*target {
                        continue;
                    }
                    return child.get_node_raw(path);
                }
                None
            }
        }
""")),
 s('top-down-push', (NB, TD, """        let start: RID = self.rid;
        let mut found: Vec<RID> = Vec::new();
        if contains_self {
            found.push(start);
        }
        self.top_down_tail(&mut found, vec![start]);
        found
""")),
 s('top-down-after', (NB, TD, """        let mut below: Vec<RID> = Vec::new();
        self.top_down_tail(&mut below, vec![self.rid()]);
        if contains_self {
            below.insert(0, self.rid());
        }
        below
""")),
 s('tail-extend', (NB, TDT, """        let mut next: Vec<RID> = Vec::new();
        for node in unsafe { self.tree().unwrap_unchecked() }.get_all_valid_nodes(&layer) {
            next.extend(node.children.iter().copied());
        }
        if !next.is_empty() {
            iter.extend_from_slice(&next);
            self.top_down_tail(iter, next);
        }
""")),
 s('tail-lookup', (NB, TDT, """        let tree: &dyn NodeTree = unsafe { self.tree().unwrap_unchecked() };
        let mut next: Vec<RID> = Vec::new();
        for rid in layer {
            if let Some(node) = tree.get_node(rid) {
                for &child in &node.children {
                    next.push(child);
                }
            }
        }
        if next.is_empty() {
            return;
        }
        iter.extend(next.iter());
        self.top_down_tail(iter, next)
""")),
 s('tail-loop', (NB, TDT, """        let tree: &dyn NodeTree = unsafe { self.tree().unwrap_unchecked() };
        let mut layer: Vec<RID> = layer;
        loop {
            layer = tree.get_all_valid_nodes(&layer).into_iter().flat_map(|node| node.children.clone()).collect();
            if layer.is_empty() {
                break;
            }
            iter.extend_from_slice(&layer);
        }
""")),
 s('abs-if', (NB, ABS, """        let mut whole: String = self.name().to_string();
        if !path.is_empty() {
            whole.push('/');
            whole.push_str(path);
        }
        *path = whole;
""")),
 s('abs-insert', (NB, ABS, """        *path = if path.is_empty() { self.name().to_string() } else { format!("{}/{}", self.name(), path) };
""")),
 s('post-if', (NB, POST, """        if let Log::Warn(text) = &log {
            unsafe { self.set_status(NodeStatus::JustWarned(text.to_string())); }
        } else if let Log::Panic(text) = &log {
            unsafe { self.set_status(NodeStatus::JustPanicked(text.to_string())); }
        }
        let Some(tree) = self.tree_mut() else {
            panic!("Cannot post to log on a disconnected node!");
        };
        tree.post(self.rid, log);
""")),
 s('post-opt', (NB, POST, """        let status: Option<NodeStatus> = match log {
            Log::Warn(text)              => Some(NodeStatus::JustWarned(text.to_string())),
            Log::Panic(text)             => Some(NodeStatus::JustPanicked(text.to_string())),
            Log::Debug(_) | Log::Info(_) => None
        };
        if let Some(status) = status {
            unsafe { self.set_status(status); }
        }
        self.tree_mut().expect("Cannot post to log on a disconnected node!").post(self.rid, log);
""")),
 s('free-iter', (NB, FREE1, """        freed.iter().for_each(|&node| if let Some(node) = tree.get_node_mut(node) {
            node.terminal(TerminationReason::Freed);
        });

        if let Some(parent) = parent {
            if let Some(parent) = tree.get_node_mut(parent) {
                if let Some(place) = parent.children.iter().position(|&child| child == rid) {
                    parent.children.remove(place);
                }
            }
        }

        freed.into_iter().for_each(|node| unsafe {
            tree.unregister_node(node);
        });
""")),
 s('free-helper', (NB, FREE1, """        Self::end_all(tree, &freed, TerminationReason::Freed);

        // Remove the reference of this node from its parent if it has a parent.
        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
            parent.children.retain(|&c_rid| c_rid != rid);
        }

        for node in freed {
            drop(unsafe { tree.unregister_node(node) });
        }
"""), (NB, REM1, "        Self::end_all(tree, &connected, TerminationReason::RemovedAsChild);\n"), (NB, IMPL, """impl NodeBase {

    /// Runs the terminal hook of each of the nodes that is still there.
    fn end_all(tree: &mut NodeTreeBase, nodes: &[RID], reason: TerminationReason) {
        for &rid in nodes {
            match tree.get_node_mut(rid) {
                Some(node) => node.terminal(reason),
                None       => continue
            }
        }
    }

    /// Creates a new `NodeBase` instance""")),
 s('save-match', (NB, SAVE, """        let tree: &dyn NodeTree = unsafe { &*self.tree.unwrap_unchecked() };
        for child in self.children.iter() {
            let child:  &dyn Node = unsafe { tree.get_node(*child).unwrap_unchecked() };
            let branch: NodeScene = child.save_as_branch_tail();
            match child.is_owner() {
                true  => { scene.append_as_owner(branch); },
                false => { scene.append(branch); }
            }
        }
        scene
""")),
 s('remove-position', (NB, FIND, """        let children: Vec<TpDyn> = self.children();
        let place: Option<usize> = children.iter().position(|c| c.name() == name);
        let child: Option<(usize, TpDyn)> = place.map(|place| (place, children[place].clone()));
""")),
 s('remove-loop', (NB, FIND, """        let mut child: Option<(usize, TpDyn)> = None;
        for (idx, c) in self.children().into_iter().enumerate() {
            if c.name() == name {
                child = Some((idx, c));
                break;
            }
        }
""")),
 s('remove-plain', (NB, REM2, """        for queued_rid in connected {
            let queued_node: Option<&mut dyn Node> = tree.get_node_mut(queued_rid);
            unsafe {
                if let Some(queued_node) = queued_node {
                    queued_node.disconnnect_owner();
                    queued_node.disconnnect_parent();
                    queued_node.disconnnect_tree();
                }
                let removed: Option<Box<dyn Node>> = tree.unregister_node(queued_rid);
                drop(removed);
            }
        }
""")),
 s('rename-match', (NB, SETN, """        let unique: String = match (self.parent, self.tree()) {
            (Some(parent), Some(tree)) => {
                let parent: &dyn Node = unsafe { tree.get_node(parent).unwrap_unchecked() };
                let mut siblings: Vec<String> = Vec::new();
                for sibling in parent.children() {
                    if sibling.rid() == self.rid {
                        continue;
                    }
                    siblings.push(sibling.name().to_string());
                }
                ensure_unique_name(name, &siblings)
            },
            _ => name.to_string()
        };
        unsafe { self.set_name_unchecked(&unique); }
""")),
 s('rename-filter-map', (NB, ".filter(|a| a.rid() != self.rid).map(|a| a.name().to_string())", ".filter_map(|a| (a.rid() != self.rid).then(|| a.name().to_string()))")),
 s('add-target', (NB, ADDC, """        child.iterate(|parent, node, is_owner| unsafe {
            let rid: RID = match parent {
                Some(parent) => (*parent).add_child_from_ptr(node, is_owner, true),
                None         => self.add_child_from_ptr(node, is_owner, true)
            };
            added.push(rid);
        });
""")),
 s('add-pop', (NB, READY, """        if let Some(tree) = self.tree_mut() {
            while let Some(rid) = added.pop() {
                tree.make_ready(rid);
            }
        }
""")),
 s('add-reverse', (NB, READY, """        added.reverse();
        let Some(tree) = self.tree_mut() else { return };
        for rid in added {
            tree.make_ready(rid);
        }
""")),
 s('connect-order', (NB, CONN, """            let tree_raw: *mut dyn NodeTree = self.tree.unwrap_unchecked();
            let owner:    RID               = self.owner.unwrap_unchecked();
            let (rid_of_parent, depth): (RID, usize) = (self.rid, self.depth);
            let rid: RID = (*tree_raw).register_node(child_ptr);
            if let Some(child) = (*tree_raw).get_node_mut(rid) {
                child.set_rid(rid);
                child.set_depth(depth + 1);
                child.set_tree(tree_raw);
                child.set_parent(rid_of_parent);
                if owner_is_self {
                    child.set_owner(rid);
                } else {
                    child.set_owner(owner);
                }
                child.set_name_unchecked(unique_name.as_str());
            }
            rid
""")),
 s('connect-fields', (NB, CONN, """            let owner_rid: RID               = self.owner.unwrap_unchecked();
            let tree_raw:  *mut dyn NodeTree = self.tree.unwrap_unchecked();
            let rid:       RID               = self.tree_mut().unwrap_unchecked().register_node(child_ptr);
            let child:     &mut NodeBase     = &mut *self.tree_mut().unwrap_unchecked().get_node_mut(rid).unwrap_unchecked();

            child.name   = unique_name.clone();
            child.parent = Some(self.rid);
            child.owner  = Some(if owner_is_self { rid } else { owner_rid });
            child.tree   = Some(tree_raw);
            child.depth  = self.depth + 1;
            child.rid    = rid;
            rid
""")),
 s('process-if', (TB, PROC, """        let all: Vec<RID> = self.root().top_down(true);
        for rid in all {
            if let Some(node) = self.get_node(rid) {
                unsafe { node.set_status(NodeStatus::Normal); }
            }
        }

        // Process the node tree recursively.
        self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);

        // Check the tree's status.
        if let TreeStatus::QueuedTermination(_) = self.status {
            self.status = TreeStatus::Terminating;
        } else if self.status == TreeStatus::Terminating {
            self.status = TreeStatus::Terminated;
        }
        self.status
""")),
 s('process-next', (TB, PROC, """        let all: Vec<RID> = self.root().top_down(true);
        for node in self.get_nodes_mut(&all).into_iter().flatten() {
            unsafe { node.set_status(NodeStatus::Normal); }
        }
        self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);
        self.status = self.status.after_frame();
        self.status
"""), (TB, "    /// Determines if the tree has terminated.\n", """    /// The status that follows once a frame is over.
    fn after_frame(self) -> Self {
        match self {
            Self::QueuedTermination(_) => Self::Terminating,
            Self::Terminating          => Self::Terminated,
            other                      => other
        }
    }

    /// Determines if the tree has terminated.
""")),
 s('mode-match', (TB, MODE, """        let process_mode: ProcessMode = match node.process_mode() {
            ProcessMode::Inherit => inherited_process_mode,
            own                  => own
        };
""")),
 s('rules-runs', (TB, RULES, """        let process: TreeProcess = match status {
            TreeStatus::Process(process)           => process,
            TreeStatus::QueuedTermination(process) => process,
            TreeStatus::Terminating                => { node.terminal(TerminationReason::TreeExit); TreeProcess::Paused },
            TreeStatus::Terminated                 => TreeProcess::Paused
        };
        if matches!(status, TreeStatus::Process(_) | TreeStatus::QueuedTermination(_)) {
            let runs: bool = match process_mode {
                ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                ProcessMode::Always   => true,
                ProcessMode::Pausable => process == TreeProcess::Running,
                ProcessMode::Inverse  => process == TreeProcess::Paused
            };
            if runs {
                node.process(delta);
            }
        }
""")),
 s('rules-tuple', (TB, RULES, """        match (status, process_mode) {
            (TreeStatus::Terminated, _)  => (),
            (TreeStatus::Terminating, _) => node.terminal(TerminationReason::TreeExit),
            (_, ProcessMode::Inherit)    => panic!("Inherited process mode not set!"),
            (_, ProcessMode::Always)     => node.process(delta),
            (TreeStatus::Process(TreeProcess::Running) | TreeStatus::QueuedTermination(TreeProcess::Running), ProcessMode::Pausable) => node.process(delta),
            (TreeStatus::Process(TreeProcess::Paused) | TreeStatus::QueuedTermination(TreeProcess::Paused), ProcessMode::Inverse)    => node.process(delta),
            _ => ()
        }
""")),
 s('kids-any', (TB, KIDS, """        let Some(node) = self.get_node(node_rid) else { return };
        let mut children: Vec<RID> = Vec::new();
        for child in node.children() {
            children.push(child.rid());
        }
        for child_node in children {
            self.process_tail(child_node, delta, process_mode);
            if self.status.has_terminated() {
                return;
            }
        }
""")),
 s('kids-clone', (TB, KIDS, """        let children: Vec<RID> = self.get_node(node_rid).map(|node| node.children().iter().map(|c| c.rid()).collect()).unwrap_or_default();
        let mut children: std::vec::IntoIter<RID> = children.into_iter();
        while let Some(child_node) = children.next() {
            self.process_tail(child_node, delta, process_mode);
            if !self.status.is_active() {
                break;
            }
        }
""")),
 s('init-match', (TB, INIT1, """            if let Some(parent) = parent {
                initialization_history.push(unsafe { (*parent).add_child_from_ptr(node, is_owner, true) });
            } else {
                initialization_history.push(Self::ROOT_RID);
                self.identity.insert(Self::ROOT_RID, NodeIdentity::NodePath);
""")),
 s('init-pop', (TB, INIT2, """        while let Some(rid) = initialization_history.pop() {
            self.make_ready(rid);
        }
""")),
 s('dup-unique', (TB, DUP, """        let unique: HashSet<RID> = rids.iter().copied().collect();
        assert!(unique.len() == rids.len(), "Duplicate RIDs found!");
        let mut found: Vec<Option<&mut dyn Node>> = Vec::new();
        for &rid in rids {
            found.push(match self.nodes.retrieve(rid) {
                Some(node) => Some(unsafe { &mut **node }),
                None       => None
            });
        }
        found
""")),
 s('register-has', (TB, REG, """        if self.nodes.retrieve(rid).is_none() {
            return None;
        }
        for identity in self.identity.values() {
            if !identity.does_not_match(&name) {
                return Some(false);
            }
        }
""")),
 s('tree-post', (TB, TPOST, """        let base: *mut NodeTreeBase = self;
        let panicked: bool = unsafe { self.logger.post(calling, log, base) };
        if panicked {
            self.status = TreeStatus::Terminated;
        }
""")),
 s('get-nodes-single', (TB, "            .map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &**node })).collect::<Vec<_>>()", "            .map(|&rid| self.get_node(rid)).collect()")),
 s('valid-single', (TB, "            .filter_map(|rid| self.nodes.retrieve(*rid).map(|node| unsafe { &**node })).collect::<Vec<_>>()", "            .flat_map(|rid| self.get_node(*rid)).collect()")),
 s('status-eq', (TB, """        match self {
            Self::Terminated => false,
            _                => true
        }
""", "        *self != Self::Terminated\n")),
 s('get-log-raw', (TB, "        self.nodes.retrieve(rid).copied()\n", "        match self.nodes.retrieve(rid) {\n            Some(&node) => Some(node),\n            None        => None\n        }\n")),
]
MUTS += [
 ('x-top-down-front', 'bug', ['P32'], [(NB, TD, """        let mut below: Vec<RID> = Vec::new();
        self.top_down_tail(&mut below, vec![self.rid()]);
        if !contains_self {
            below.insert(0, self.rid());
        }
        below
""")]),
 ('x-top-down-end', 'bug', ['P32'], [(NB, TD, """        let mut below: Vec<RID> = Vec::new();
        self.top_down_tail(&mut below, vec![self.rid()]);
        if contains_self {
            below.push(self.rid());
        }
        below
""")]),
]
