TB = 'node_tree_core/src/structs/node_tree_base.rs'
MUTS = [
 ('p01-running-inverse', 'bug', ['P01'], [(TB, """                            ProcessMode::Pausable => node.process(delta),
                            ProcessMode::Inverse  => ()""", """                            ProcessMode::Pausable => node.process(delta),
                            ProcessMode::Inverse  => if inherited_process_mode == ProcessMode::Always { node.process(delta) }""")]),
 ('p01-inherit-own', 'bug', ['P01'], [(TB, "self.process_tail(child_node, delta, process_mode);", "self.process_tail(child_node, delta, if process_mode == ProcessMode::Inverse { inherited_process_mode } else { process_mode });")]),
 ('p01-skip-gone', 'bug', ['P01'], [(TB, """            self.process_tail(child_node, delta, process_mode);
            if self.status == TreeStatus::Terminated {""", """            self.process_tail(child_node, delta, process_mode);
            if self.status == TreeStatus::Terminated || self.get_node(child_node).is_none() {""")]),
 ('p01-queued-stops', 'bug', ['P01'], [(TB, """            if self.status == TreeStatus::Terminated {
                break;""", """            if self.status != status {
                break;""")]),
 ('p01-rev-children', 'bug', ['P01'], [(TB, "Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),", "Some(node) => node.children().into_iter().rev().map(|c| c.rid()).collect(),")]),
 ('p01-skip-first', 'bug', ['P01'], [(TB, "Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),", "Some(node) => node.children().into_iter().map(|c| c.rid()).filter(|c| *c != delta as u64).collect(),")]),
 ('p01-lastframe-late', 'bug', ['P01'], [(TB, "        self.last_frame       = now;\n", ""), (TB, "        // Check the tree's status.\n", "        self.last_frame = Instant::now();\n        // Check the tree's status.\n")]),
 ('p01-delta-millis', 'bug', ['P01'], [(TB, "elapsed.as_secs_f32();", "elapsed.as_millis() as f32 / 1000.0;")]),
 ('p01-prior-children', 'bug', ['P01'], [(TB, "            None       => return   // It was freed or removed by another node during this frame.\n        };", "            None       => return   // It was freed or removed by another node during this frame.\n        };\n        if status == TreeStatus::Terminating { node.terminal(TerminationReason::TreeExit); }"), (TB, "            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),", "            TreeStatus::Terminating => if process_mode != ProcessMode::Inverse { node.terminal(TerminationReason::TreeExit) },")]),
 ('p01-root-mode', 'bug', ['P01'], [(TB, "self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);", "self.process_tail(Self::ROOT_RID, delta, ProcessMode::Always);")]),
 ('p01-term-reason', 'bug', ['P01', 'P03'], [(TB, "node.terminal(TerminationReason::TreeExit)", "node.terminal(TerminationReason::Freed)")]),
 # ---- same behaviour
 ('same-tail-extract', 'same', [], [(TB, """        let children: Vec<RID> = match self.get_node(node_rid) {
            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
            None       => return
        };
        for child_node in children {""", """        let children = match self.rids_below(node_rid) {
            Some(c) => c,
            None    => return
        };
        for child_node in children {"""), (TB, "    /// Registers the node to the tree and gives it a unique RID.", """    fn rids_below(&self, rid: RID) -> Option<Vec<RID>> {
        let node = self.get_node(rid)?;
        let mut out = Vec::with_capacity(4);
        for c in node.children() { out.push(c.rid()); }
        Some(out)
    }

    /// Registers the node to the tree and gives it a unique RID.""")]),
 ('same-tail-decide', 'same', [], [(TB, """        match status {
            TreeStatus::Process(process) | TreeStatus::QueuedTermination(process) => {
                match process {
                    TreeProcess::Running => {
                        match process_mode {
                            ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                            ProcessMode::Always   => node.process(delta),
                            ProcessMode::Pausable => node.process(delta),
                            ProcessMode::Inverse  => ()
                        }
                    },

                    TreeProcess::Paused => {
                        match process_mode {
                            ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                            ProcessMode::Always   => node.process(delta),
                            ProcessMode::Pausable => (),
                            ProcessMode::Inverse  => node.process(delta)
                        }
                    }
                }
            }
            
            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),
            TreeStatus::Terminated  => ()
        }
""", """        match status {
            TreeStatus::Process(process) | TreeStatus::QueuedTermination(process) => {
                let paused = matches!(process, TreeProcess::Paused);
                let run = match process_mode {
                    ProcessMode::Inherit  => panic!("Inherited process mode not set!"),
                    ProcessMode::Always   => true,
                    ProcessMode::Pausable => !paused,
                    ProcessMode::Inverse  => paused
                };
                if run { node.process(delta); }
            }
            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),
            TreeStatus::Terminated  => ()
        }
""")]),
 ('same-tail-while', 'same', [], [(TB, """        for child_node in children {
            self.process_tail(child_node, delta, process_mode);
            if self.status == TreeStatus::Terminated {
                break;
            }
        }""", """        let mut i = 0;
        while i < children.len() {
            self.process_tail(children[i], delta, process_mode);
            if !self.status.is_active() {
                return;
            }
            i += 1;
        }""")]),
 ('same-tail-iter', 'same', [], [(TB, """        for child_node in children {
            self.process_tail(child_node, delta, process_mode);
            if self.status == TreeStatus::Terminated {
                break;
            }
        }""", """        for i in 0..children.len() {
            let child_node = children[i];
            self.process_tail(child_node, delta, process_mode);
            match self.status { TreeStatus::Terminated => break, _ => {} }
        }""")]),
 ('same-process-order', 'same', [], [(TB, """        let now:     Instant  = Instant::now();
        let elapsed: Duration = now.duration_since(self.last_frame);
        let delta:   f32      = elapsed.as_secs_f32();
        self.last_frame       = now;

        // Reset the prior frame's node statuses.
        for node in self.get_nodes_mut(&self.root().top_down(true)) {
            unsafe {
                node.unwrap_unchecked().set_status(NodeStatus::Normal);
            }
        }
""", """        // Reset the prior frame's node statuses.
        let everyone = self.root().top_down(true);
        for node in self.get_nodes_mut(&everyone).into_iter().flatten() {
            unsafe { node.set_status(NodeStatus::Normal); }
        }
        let delta: f32 = self.tick();
"""), (TB, "    /// Registers the node to the tree and gives it a unique RID.", """    fn tick(&mut self) -> f32 {
        let now  = Instant::now();
        let prev = std::mem::replace(&mut self.last_frame, now);
        now.duration_since(prev).as_secs_f32()
    }

    /// Registers the node to the tree and gives it a unique RID.""")]),
 ('same-process-status', 'same', [], [(TB, """        match self.status {
            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::Terminating,
            TreeStatus::Terminating          => self.status = TreeStatus::Terminated,
            _                                => ()
        }
        self.status""", """        let next = match self.status {
            TreeStatus::QueuedTermination(_) => TreeStatus::Terminating,
            TreeStatus::Terminating          => TreeStatus::Terminated,
            same                             => same
        };
        self.status = next;
        next""")]),
 ('same-queue', 'same', [], [(TB, """        match self.status {
            TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),
            _                            => ()
        }""", """        if let TreeStatus::Process(process) = self.status {
            self.status = TreeStatus::QueuedTermination(process);
        }""")]),
]
