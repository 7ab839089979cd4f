"""edits of what an error says and where it is reported (P40)"""
C = 'node_tree_core/src/'
TP, TO, TR, NB = C + 'structs/tree_pointer.rs', C + 'structs/tree_option.rs', C + 'structs/tree_result.rs', C + 'structs/node_base.rs'
TB, NS, DL, NR = C + 'structs/node_tree_base.rs', C + 'structs/node_scene.rs', 'node_tree_derive/src/lib.rs', C + 'services/node_registry.rs'
Q = ['P40']
FP = """    fn fail(&self, err: TPError) -> ! {
        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
            owner.post(Log::Panic(&format!("{err:?}")));
        }
"""
FD = FP.replace('{err:?}', '{err}')
FO = """    fn fail(&self, msg: &str) -> ! {
        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
            owner.post(Log::Panic(msg));
        }
"""
FR = """    fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
            owner.post(Log::Panic(&format!("{msg}: {error:?}")));
        }
"""


def b(i, *e):
    return ('p40-' + i, 'bug', Q, list(e))


def bx(i, p, *e):
    return ('p40-' + i, 'bug', [p], list(e))


def s(i, *e):
    return ('p40-%s-same' % i, 'same', Q, list(e))


MUTS = [
 bx('tp-nopost', 'P08', (TP, FP, "    fn fail(&self, err: TPError) -> ! {\n        let _ = err;\n")),
 bx('tp-warn', 'P08', (TP, FP, FP.replace('Panic', 'Warn'))),
 b('tp-fixed', (TP, FP, FP.replace('&format!("{err:?}")', '{ let _ = err; "tree pointer error" }'))),
 bx('tp-node', 'P08', (TP, FP, FP.replace('self.owner', 'self.node'))),
 bx('dyn-root', 'P08', (TP, FD, FD.replace('get_node(self.owner)', 'get_node(0)'))),
 bx('opt-info', 'P15', (TO, FO, FO.replace('Panic', 'Info'))),
 b('opt-msg', (TO, FO, FO.replace('Panic(msg)', 'Panic({ let _ = msg; "called `TreeOption::unwrap()` on a `None` value" })'))),
 bx('opt-owner-only', 'P15', (TO, FO, FO.replace('            owner.post(Log::Panic(msg));', '            if owner.is_owner() {\n                owner.post(Log::Panic(msg));\n            }'))),
 b('res-error', (TR, FR, FR.replace('{msg}: {error:?}', '{msg}').replace('        if let', '        let _ = error;\n        if let'))),
 b('res-msg', (TR, FR, FR.replace('{msg}: {error:?}', '{error:?}').replace('        if let', '        let _ = msg;\n        if let'))),
 b('expect-msg', (TO, 'None         => self.fail(msg)', 'None         => self.fail("called `TreeOption::expect()` on a `None` value")')),
 b('unwrap-err-text', (TR, 'Err(ref err) => self.fail("called `TreeResult::unwrap()` on an `Err` value", err)', 'Err(_) => self.fail("called `TreeResult::unwrap()` on an `Err` value", &"unknown")')),
 b('index-swap', (NB, 'Index {index} was out of the range of this node\'s children count of {children_count}', 'Index {children_count} was out of the range of this node\'s children count of {index}')),
 b('index-no-count', (NB, 'Index {index} was out of the range of this node\'s children count of {children_count}', 'Index {index} was out of the range of this node\'s children count')),
 b('path-text', (NB, 'The path \\"{0}\\" is invalid', 'The path is invalid')),
 b('tp-in-node', (NB, 'The following Tree Pointer error occured: {0:?}', 'A Tree Pointer error occured')),
 b('same-text', (TP, 'The node exists but ultimately is of the wrong type', 'A non-existent node was referenced')),
 b('add-names', (NB, 'generated!", child.name(), self.name(), child.rid)', 'generated!", self.name(), child.name(), child.rid)')),
 b('add-id', (NB, 'generated!", child.name(), self.name(), child.rid)', 'generated!", child.name(), self.name(), self.rid)')),
 b('add-silent', (NB, 'self.post(Log::Debug(&format!("Node \\"{}\\" added', 'let _ = (Log::Debug(&format!("Node \\"{}\\" added')),
 b('remove-warn', (NB, 'from node \\"{}\\"!", name, self.name())', 'from node \\"{}\\"!", self.name(), name)')),
 b('removed-names', (NB, '!", child_name, parent_name)', '!", parent_name, child_name)')),
 bx('removed-by', 'P35', (NB, 'tree.post(rid, Log::Debug(&format!("Removed', 'tree.post(0, Log::Debug(&format!("Removed')),
 b('root-id', (TB, '                            root.name(), root.rid()\n', '                            root.rid(), root.name()\n')),
 ('p40-index-values', 'bug', ['P30'], [ (NB, 'unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: i, children_count: self.num_children() }))\n            }\n        } else {\n            unsafe {\n                TpDyn::new', 'unsafe {\n                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::IndexOutOfRange { index: self.num_children(), children_count: i }))\n            }\n        } else {\n            unsafe {\n                TpDyn::new')]),
 b('load-key', (NS, 'format!("Failed to parse {}\'s metadata", key)', 'format!("Failed to parse {}\'s metadata", document.len())')),
 b('load-what', (NS, 'format!("Failed to parse {}\'s ownership status", key)', 'format!("Failed to parse {}\'s type name", key)')),
 b('load-parse', (NS, 'document.parse().map_err(|err| format!("{err}"))', 'document.parse().map_err(|_| "Failed to parse the document".to_string())')),
 b('load-rid', (NS, 'map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}"))', 'map(|local_rid| (name, local_rid)).map_err(|_| String::new())')),
 b('field-name', (DL, 'format!("corrupt save data; `{}` missing", stringify!(#field_name))', 'format!("corrupt save data; `{}` missing", stringify!(#name))')),
 b('field-type', (DL, 'format!("corrupt save data; `{}` invalid type", stringify!(#field_name))', '"corrupt save data".to_string()')),
 b('debug-alike', (TP, '#[derive(Error, Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub enum TPError', '#[derive(Error, Clone, Copy, PartialEq, Eq, Hash)]\npub enum TPError'), (TP, 'use std::', 'impl std::fmt::Debug for TPError {\n    fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result {\n        f.write_str("TPError")\n    }\n}\n\nuse std::')) if False else b('add-id-parent', (NB, 'generated!", child.name(), self.name(), child.rid)', 'generated!", child.name(), self.name(), child.depth())')),
 s('display', (TP, FP, FP.replace('err:?', 'err'))),
 s('fail-helper', (TO, FO, FO.replace('owner.post(Log::Panic(msg));', 'let log: Log = Log::Panic(msg);\n            owner.post(log);'))),
 s('fail-text', (TR, FR, FR.replace('&format!("{msg}: {error:?}")', '&text').replace('        if let', '        let text: String = format!("{}: {:?}", msg, error);\n        if let'))),
 s('fail-push', (TR, FR, FR.replace('&format!("{msg}: {error:?}")', '&text').replace('        if let', '        let mut text: String = msg.to_string();\n        text.push_str(": ");\n        text.push_str(&format!("{error:?}"));\n        if let'))),
 s('display-match', (TP, '#[derive(Error, Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub enum TPError', '#[derive(Error, Debug, PartialEq, Eq, Hash, Copy, Clone)]\npub enum TPError')),
 s('add-let', (NB, '''        self.post(Log::Debug(&format!("Node \\"{}\\" added to the scene as the child of \\"{}\\"! Unique ID of \\"{}\\" generated!", child.name(), self.name(), child.rid)));
''', '''        let text: String = format!("Node \\"{}\\" added to the scene as the child of \\"{}\\"! Unique ID of \\"{}\\" generated!", child.name(), self.name(), child_rid);
        self.post(Log::Debug(&text));
''')),
 s('add-name', (NB, 'generated!", child.name(), self.name(), child.rid)', 'generated!", unique_name, self.name(), child_rid)')),
 s('remove-name', (NB, '!", child_name, parent_name)', '!", name, parent_name)')),
 s('load-else', (NS, 'ok_or(format!("Failed to parse {}\'s metadata", key))', 'ok_or_else(|| format!("Failed to parse {key}\'s metadata"))')),
 s('load-string', (NS, 'document.parse().map_err(|err| format!("{err}"))?', 'document.parse().map_err(|err: toml_edit::TomlError| err.to_string())?')),
 s('load-letelse', (NS, '''            let node_data: &toml::Table       = node_data.as_table().ok_or(format!("Failed to parse {}'s data", key))?;
''', '''            let Some(node_data) = node_data.as_table() else {
                return Err(format!("Failed to parse {}'s data", key));
            };
''')),
 s('field-let', (DL, 'format!("corrupt save data; `{}` missing", stringify!(#field_name))', 'concat!("corrupt save data; `", stringify!(#field_name), "` missing").to_string()')),
]
