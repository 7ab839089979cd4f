L = 'node_tree_core/src/structs/logger.rs'
NB = 'node_tree_core/src/structs/node_base.rs'
TB = 'node_tree_core/src/structs/node_tree_base.rs'
PM = """            LoggerVerbosity::NoDebug    => if log.is_debug()        { return time; },
            LoggerVerbosity::OnlyIssues => if !log.is_problematic() { return time; },
            LoggerVerbosity::OnlyPanics => if !log.is_panic()       { return time; }
        }
"""
PP = PM.replace('time', 'false')
RESET = """        for node in self.get_nodes_mut(&self.root().top_down(true)) {
            unsafe {
                node.unwrap_unchecked().set_status(NodeStatus::Normal);
            }
        }
"""
MUTS = [
 ('p13-problematic', 'bug', ['P13'], [(L, "Log::Warn(_) | Log::Panic(_) => true,", "Log::Warn(_) => true,")]),
 ('p13-manual-issues', 'bug', ['P13'], [(L, PM, PM.replace('!log.is_problematic()', '!log.is_panic()'))]),
 ('p13-post-issues', 'bug', ['P13'], [(L, PP, PP.replace('!log.is_problematic()', '!log.is_panic()'))]),
 ('p13-post-panics-lost', 'bug', ['P13', 'P14'], [(L, PP, PP.replace('!log.is_panic()       { return false; }', '!log.is_panic()       { return false; } else { return true; }'))]),
 ('p13-label', 'bug', ['P13'], [(L, 'Log::Info(_)  => "INFO".to_string()', 'Log::Info(_)  => "WARN".to_string()')]),
 ('p13-result', 'bug', ['P13'], [(L, "        panic\n    }", "        panic && self.log.len() < 100000\n    }")]),
 ('p13-replace', 'bug', ['P13'], [(L, """        self.log += &format!(
            "<{} UTC> | {} | {} | {}\\n",""", """        self.log = format!(
            "<{} UTC> | {} | {} | {}\\n",""")]),
 ('p13-cap', 'bug', ['P13'], [(L, "        println!(\n            \"{}<{} UTC>", "        if self.log.len() > 1 << 20 { self.log.clear(); }\n        println!(\n            \"{}<{} UTC>")]),
 ('p13-named-path', 'bug', ['P13'], [(L, "Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),", "Some(NodeIdentity::UniqueName(name)) => SystemCall::NodePath(name),")]),
 ('p13-double', 'bug', ['P13'], [(L, "        let panic:  bool   = log.is_panic();", "        if log.is_panic() { self.post_manual(system.clone(), log.clone()); }\n        let panic:  bool   = log.is_panic();")]),
 ('p13-newline', 'bug', ['P13'], [(L, '"<{} UTC> | {} | {} | {}\\n",', '"<{} UTC> | {} | {} | {}",')]),
 ('p13-swap', 'bug', ['P13'], [(L, """            "<{} UTC> | {} | {} | {}\\n",
            time,
            system.format(),
            log.get_lv(),""", """            "<{} UTC> | {} | {} | {}\\n",
            time,
            log.get_lv(),
            system.format(),""")]),
 ('p13-verb', 'bug', ['P13'], [(L, "    pub fn set_default_header_on_panic(&mut self, msg: &str) {", "    pub fn set_default_header_on_panic(&mut self, msg: &str) {\n        self.verbosity_lv = LoggerVerbosity::All;")]),
 ('p13-same-fn', 'same', ['P13', 'P14'], [(L, PM, "            _ if !self.passes(&log) => return time,\n            _ => ()\n        }\n"), (L, "            LoggerVerbosity::All        => {},\n            _ if", "            _ if"), (L, "    pub fn set_default_header_on_panic(", """    fn passes(&self, log: &Log) -> bool {
        match self.verbosity_lv {
            LoggerVerbosity::All        => true,
            LoggerVerbosity::NoDebug    => !log.is_debug(),
            LoggerVerbosity::OnlyIssues => log.is_problematic(),
            LoggerVerbosity::OnlyPanics => log.is_panic()
        }
    }
    pub fn set_default_header_on_panic(""")]),
 ('p13-same-entry', 'same', ['P13'], [(L, """        self.log += &format!(
            "<{} UTC> | {} | {} | {}\\n",
            time,
            system.format(),
            log.get_lv(),
            log.get_msg()
        );
""", """        let entry = format!("<{time} UTC> | {} | {} | {}", system.format(), log.get_lv(), log.get_msg());
        self.log.push_str(&entry);
        self.log.push('\\n');
""")]),
 ('p13-same-matches', 'same', ['P13'], [(L, "        match self {\n            Log::Debug(_) => true,\n            _             => false\n        }", "        matches!(self, Log::Debug(..))")]),
 ('p13-same-identity', 'same', ['P13'], [(L, """            match node_tree.get_node_identity(calling) {
                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
                Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                None                                 => unimplemented!()
            }""", """            let Some(identity) = node_tree.get_node_identity(calling) else { panic!("not registered") };
            if let NodeIdentity::UniqueName(name) = identity {
                SystemCall::Named(name)
            } else {
                let node = node_tree.get_node(calling).expect("a registered node");
                SystemCall::NodePath(format!("{}", node.get_absolute_path().to_string()))
            }""")]),
 ('p14-no-terminate', 'bug', ['P14'], [(TB, "            if self.logger.post(calling, log, ptr) {\n                self.terminate();", "            if self.logger.post(calling, log, ptr) {\n                self.queue_termination();")]),
 ('p14-warn-mark', 'bug', ['P14'], [(NB, "Log::Warn(str)  => self.set_status(NodeStatus::JustWarned(str.to_string())),", "Log::Warn(str)  => if let NodeStatus::Normal = self.status() { self.set_status(NodeStatus::JustWarned(str.to_string())) },")]),
 ('p14-panic-mark', 'bug', ['P14'], [(NB, "NodeStatus::JustPanicked(str.to_string())", "NodeStatus::JustWarned(str.to_string())")]),
 ('p14-reset-after', 'bug', ['P14'], [(TB, RESET, ""), (TB, "        // Check the tree's status.\n", RESET + "        // Check the tree's status.\n")]),
 ('p14-reset-children', 'bug', ['P14'], [(TB, "for node in self.get_nodes_mut(&self.root().top_down(true)) {", "for node in self.get_nodes_mut(&self.root().top_down(false)) {")]),
 ('p14-reset-paused', 'bug', ['P14'], [(TB, RESET, "        if self.status.is_running() {\n" + RESET + "        }\n"), (TB, "    pub fn is_active(&self)", "    pub fn is_running(&self) -> bool { matches!(self, TreeStatus::Process(TreeProcess::Running)) }\n    pub fn is_active(&self)")]),
 ('p14-reset-valid-only', 'bug', ['P14'], [(TB, "                node.unwrap_unchecked().set_status(NodeStatus::Normal);", "                let node = node.unwrap_unchecked();\n                if let NodeStatus::JustWarned(_) = node.status() { node.set_status(NodeStatus::Normal); }")]),
 ('p14-forward-owner', 'bug', ['P14'], [(NB, "                root.post(rid, log);", "                root.post(self.parent.unwrap_or(rid), log);")]),
 ('p14-same-reset', 'same', ['P14'], [(TB, RESET, """        let all = self.root().top_down(true);
        for rid in &all {
            if let Some(node) = self.get_node_mut(*rid) {
                unsafe { node.set_status(NodeStatus::Normal) };
            }
        }
""")]),
 ('p14-same-valid', 'same', ['P14'], [(TB, RESET, """        for node in self.get_all_valid_nodes_mut(&self.root().top_down(true)) {
            unsafe { node.set_status(NodeStatus::Normal) };
        }
""")]),
 ('p14-same-order', 'same', ['P14'], [(TB, "            if self.logger.post(calling, log, ptr) {\n                self.terminate();\n            }", "            let crashed = self.logger.post(calling, log, ptr);\n            if !crashed { return; }\n            self.status = TreeStatus::Terminated;")]),
 ('p14-same-iflet', 'same', ['P14'], [(NB, """                Log::Warn(str)  => self.set_status(NodeStatus::JustWarned(str.to_string())),
                Log::Panic(str) => self.set_status(NodeStatus::JustPanicked(str.to_string())),
                _               => ()
""", """                Log::Debug(_) | Log::Info(_) => (),
                Log::Warn(_) | Log::Panic(_) => {
                    let text = log.get_msg().to_owned();
                    self.set_status(if log.is_panic() { NodeStatus::JustPanicked(text) } else { NodeStatus::JustWarned(text) });
                }
""")]),
]
