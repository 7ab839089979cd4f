S = 'node_tree_core/src/structs/signals.rs'
NB = 'node_tree_core/src/structs/node_base.rs'
SNAP = "        let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();\n"
LOOK = """            let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
            let (hook, mode) = match hooks.retrieve(rid) {
                Some(&connection) => connection,
                None              => continue   // Disconnected by a previous hook.
            };

            match mode {
                ConnectionType::UntilDisconnected => (),
                ConnectionType::Once              => { hooks.take(rid); }
            }
            drop(hooks);

            unsafe {
                (*hook)(parameters);
            }
"""
BODY = LOOK
MUTS = [
 ('p16-once-kept', 'bug', ['P16'], [(S, "ConnectionType::Once              => { hooks.take(rid); }", "ConnectionType::Once              => { hooks.retrieve(rid); }")]),
 ('p16-once-after', 'bug', ['P16'], [(S, "                ConnectionType::Once              => { hooks.take(rid); }\n            }\n            drop(hooks);\n\n            unsafe {\n                (*hook)(parameters);\n            }", "                ConnectionType::Once              => ()\n            }\n            drop(hooks);\n\n            unsafe {\n                (*hook)(parameters);\n            }\n            if let ConnectionType::Once = mode { self.disconnect(rid); }")]),
 ('p16-connect-once-mode', 'bug', ['P16'], [(S, "push((callback_raw, ConnectionType::Once))", "push((callback_raw, ConnectionType::UntilDisconnected))")]),
 ('p16-stops-at-gone', 'bug', ['P16'], [(S, "None              => continue ", "None              => break ")]),
 ('p16-snapshot-calls', 'bug', ['P16'], [(S, SNAP, "        let connected:  Vec<(RID, (*mut dyn FnMut(&T), ConnectionType))> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, &c)| (rid, c)).collect();\n"), (S, "        for rid in connected {\n", "        for (rid, (hook, mode)) in connected {\n"), (S, "            let (hook, mode) = match hooks.retrieve(rid) {\n                Some(&connection) => connection,\n                None              => continue   // Disconnected by a previous hook.\n            };\n", "")]),
 ('p16-skip-first', 'bug', ['P16'], [(S, ".map(|(&rid, _)| rid).collect();\n", ".map(|(&rid, _)| rid).take(16).collect();\n")]),
 ('p16-only-lasting', 'bug', ['P16'], [(S, ".iter_enumerated().map(|(&rid, _)| rid)", ".iter_enumerated().filter(|(_, c)| matches!(c.1, ConnectionType::UntilDisconnected)).map(|(&rid, _)| rid)")]),
 ('p16-clone-shares', 'bug', ['P16'], [(S, "impl <T> Clone for Signal<T> {\n    fn clone(&self) -> Self {\n        Self::new()", "impl <T> Clone for Signal<T> {\n    fn clone(&self) -> Self {\n        Signal { hooks: self.hooks.clone() }")]),
 ('p16-disconnect-says', 'bug', ['P16'], [(S, "self.hooks.lock().unwrap().take(rid).is_some()", "self.hooks.lock().unwrap().take(rid); true")]),
 ('p16-disconnect-keeps', 'bug', ['P16'], [(S, "self.hooks.lock().unwrap().take(rid).is_some()", "self.hooks.lock().unwrap().retrieve(rid).is_some()")]),
 ('p16-ghost', 'bug', ['P16'], [(S, "unsafe fn is_ghost_export(&self) -> bool { true }", "unsafe fn is_ghost_export(&self) -> bool { false }")]),
 ('p17-call-under-lock', 'bug', ['P17'], [(S, "            drop(hooks);\n\n            unsafe {\n                (*hook)(parameters);\n            }", "            unsafe {\n                (*hook)(parameters);\n            }\n            drop(hooks);")]),
 ('p17-if-let', 'bug', ['P17', 'P16'], [(S, LOOK, "            if let Some(&(hook, mode)) = self.hooks.lock().unwrap().retrieve(rid) {\n                unsafe { (*hook)(parameters); }\n                if let ConnectionType::Once = mode { self.disconnect(rid); }\n            }\n")]),
 ('p17-iterate-locked', 'bug', ['P17'], [(S, "        let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();\n", "        let hooks = self.hooks.lock().unwrap();\n        let connected:  Vec<RID> = hooks.iter_enumerated().map(|(&rid, _)| rid).collect();\n")]),
 ('p17-status-post', 'bug', ['P17'], [(NB, "        *self.status.lock().unwrap() = status;", "        let mut held = self.status.lock().unwrap();\n        if let NodeStatus::JustWarned(m) = &status { self.post(Log::Info(m)); }\n        *held = status;")]),
 ('p16-same-pairs', 'same', ['P16', 'P17'], [(S, SNAP, "        let connected:  Vec<(RID, (*mut dyn FnMut(&T), ConnectionType))> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, &c)| (rid, c)).collect();\n"), (S, "        for rid in connected {\n", "        for (rid, (hook, mode)) in connected {\n"), (S, "            let (hook, mode) = match hooks.retrieve(rid) {\n                Some(&connection) => connection,\n                None              => continue   // Disconnected by a previous hook.\n            };\n", "            if hooks.retrieve(rid).is_none() { continue; }\n")]),
 ('p16-same-helper', 'same', ['P16', 'P17'], [(S, LOOK, "            if let Some(hook) = Self::due(&kept, rid) { unsafe { (*hook)(parameters); } }\n"), (S, "    pub fn disconnect(", """    fn due(kept: &MutableArc<EventHandler<T>>, rid: RID) -> Option<*mut dyn FnMut(&T)> {
        let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
        let &(hook, mode) = hooks.retrieve(rid)?;
        if matches!(mode, ConnectionType::Once) { hooks.take(rid); }
        Some(hook)
    }
    pub fn disconnect("""), ]),
 ('p16-same-locked', 'same', ['P16', 'P17'], [(S, "    pub fn disconnect(", """    fn locked(&self) -> MutexGuard<'_, EventHandler<T>> { self.hooks.lock().unwrap() }
    pub fn disconnect("""), (S, "self.hooks.lock().unwrap().take(rid).is_some()", "self.locked().take(rid).is_some()"), (S, SNAP, "        let mut connected:  Vec<RID> = Vec::new();\n        for (rid, _) in self.locked().iter_enumerated() { connected.push(*rid); }\n")]),
 ('p16-same-scope', 'same', ['P16', 'P17'], [(S, LOOK, """            let hook = {
                let mut hooks = kept.lock().unwrap();
                match hooks.retrieve(rid) {
                    None => continue,
                    Some(&(hook, ConnectionType::UntilDisconnected)) => hook,
                    Some(_) => match hooks.take(rid) { Some((hook, _)) => hook, None => continue }
                }
            };
            unsafe { (*hook)(parameters) };
""")]),
 ('p16-same-sorted', 'same', ['P16', 'P17'], [(S, "        for rid in connected {\n", "        let mut connected = connected;\n        connected.sort_unstable();\n        for rid in connected {\n")]),
 ('p16-same-match', 'same', ['P16'], [(S, "self.hooks.lock().unwrap().take(rid).is_some()", "match self.hooks.lock().unwrap().take(rid) { Some(_) => true, None => false }")]),
]
