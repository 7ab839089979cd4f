"""rewrites of the scene reader and writer that keep what they do"""
NS = 'node_tree_core/src/structs/node_scene.rs'
READ_CURSOR = """                            // Funny pointer traversal
                            let mut cursor: Option<*mut NodeScene> = None;
                            let mut path:   Vec<usize>             = Vec::new();
                            for &segment in cached_path {
                                path.push(segment);
                                match cursor {
                                    Some(_) => cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _),
                                    None    => cursor = Some(&mut node_scene.children[segment])
                                }
                            }

                            // This should always be `Some(_)`:
                            let     found_parent: &mut NodeScene = unsafe { &mut *cursor.expect("Could not find a parent - internal bug") };
"""
KEY = """            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                .ok_or("Failed to parse Node key".to_string())??;
"""
FIELDS = """            let node_fields: Option<SFieldMap> = node_data.into_iter()
                .filter(|(field, _)| *field != "metadata")
                .map(|(field, value)| {
                    match value {
                        toml::Item::Value(value) => Some((field.into(), value.to_owned())),
                        _                        => None
                    }
                }).collect();
"""
WMETA = """            document[&node_key]                          = toml::Item::Table(toml::Table::new());
            document[&node_key]["metadata"]              = toml::InlineTable::new().into();
            document[&node_key]["metadata"]["type_name"] = node.name_as_type().into();
            document[&node_key]["metadata"]["is_owner"]  = is_owner.into();

            if let Some(parent_rid) = parent.map(|p| p.rid()) {
                document[&node_key]["metadata"]["parent"] = (parent_rid as i64).into();
            }
"""
WFIELDS = """            for (field_name, value) in node_fields {
                if unsafe { value.is_ghost_export() } {
                    continue;
                }
                document[&node_key][&field_name.to_string()] = toml::Item::Value(value.to_value());
            }
"""
ROOTCASE = """                        let mut new_scene: NodeScene = NodeScene::new_dyn(node);
                                new_scene.from_disk  = true;

                        if is_owner {
                            node_scene.append_as_owner(new_scene);
                        } else {
                            node_scene.append(new_scene);
                        }
                        traversal.insert(local_rid, vec![node_scene.children.len() - 1]);
                        continue;
"""
DEEPCASE = """                            let mut new_scene:    NodeScene      = NodeScene::new_dyn(node);
                                    new_scene.from_disk          = true;

                            if is_owner {
                                found_parent.append_as_owner(new_scene);
                            } else {
                                found_parent.append(new_scene);
                            }
                            
                            path.push(found_parent.children.len() - 1);
                            traversal.insert(local_rid, path);
"""
MUTS = [
 ('rw-cursor-ref', 'same', [], [(NS, READ_CURSOR, """                            let mut path: Vec<usize> = cached_path.clone();
                            let mut found_parent: &mut NodeScene = node_scene;
                            for &segment in cached_path {
                                found_parent = &mut found_parent.children[segment];
                            }
""")]),
 ('rw-cursor-fold', 'same', [], [(NS, READ_CURSOR, """                            let mut path: Vec<usize> = cached_path.clone();
                            let found_parent: &mut NodeScene = cached_path.iter().fold(node_scene, |scene, &segment| &mut scene.children[segment]);
""")]),
 ('rw-key-helper', 'same', [], [(NS, KEY, "            let (name, local_rid): (&str, RID) = split_key(key)?;\n"), (NS, "impl Clone for NodeScene {", """fn split_key(key: &str) -> Result<(&str, RID), String> {
    let Some((name, number)) = key.rsplit_once('_') else {
        return Err("Failed to parse Node key".to_string());
    };
    match number.parse::<RID>() {
        Ok(number) => Ok((name, number)),
        Err(err)   => Err(format!("{err}"))
    }
}

impl Clone for NodeScene {""")]),
 ('rw-and-then', 'same', [], [(NS, 'metadata.get("type_name").map(|tn| tn.as_str().map(|s| s.to_string())).flatten().ok_or(', 'metadata.get("type_name").and_then(|tn| tn.as_str()).map(str::to_string).ok_or('), (NS, 'metadata.get("is_owner").map(|tn| tn.as_bool()).flatten().ok_or(', 'metadata.get("is_owner").and_then(|tn| tn.as_bool()).ok_or('), (NS, 'metadata.get("parent").map(|p| p.as_integer().map(|rid| rid as RID)).flatten()', 'metadata.get("parent").and_then(|p| p.as_integer()).map(|rid| rid as RID)')]),
 ('rw-fields-loop', 'same', [], [(NS, FIELDS, """            let mut node_fields: SFieldMap = SFieldMap::default();
            for (field, value) in node_data.iter() {
                if field == "metadata" {
                    continue;
                }
                match value {
                    toml::Item::Value(value) => { node_fields.insert(field.into(), value.to_owned()); },
                    _                        => return Err("Could not parse node fields".to_string())
                }
            }
"""), (NS, 'node_fields.ok_or("Could not parse node fields".to_string())?', 'node_fields')]),
 ('rw-fields-filter-map', 'same', [], [(NS, FIELDS, """            let node_fields: Option<SFieldMap> = node_data.iter()
                .filter_map(|(field, value)| (field != "metadata").then(|| value.as_value().map(|value| (field.into(), value.clone()))))
                .collect();
""")]),
 ('rw-attach-helper', 'same', [], [(NS, ROOTCASE, """                        let index: usize = attach(node_scene, node, is_owner);
                        traversal.insert(local_rid, vec![index]);
                        continue;
"""), (NS, DEEPCASE, """                            path.push(attach(found_parent, node, is_owner));
                            traversal.insert(local_rid, path);
"""), (NS, "impl Clone for NodeScene {", """fn attach(parent: &mut NodeScene, node: Box<dyn Node>, is_owner: bool) -> usize {
    let mut child: NodeScene = NodeScene::new_dyn(node);
    child.from_disk = true;
    child.is_owner  = is_owner;
    parent.children.push(child);
    parent.children.len() - 1
}

impl Clone for NodeScene {""")]),
 ('rw-root-path', 'same', [], [(NS, "                    if parent_rid == 0 {\n", "                    let at_root: bool = parent_rid == 0;\n                    if at_root {\n")]),
 ('rw-meta-late', 'same', [], [(NS, "            let node_data: &toml::Table       = node_data.as_table().ok_or(format!(\"Failed to parse {}'s data\", key))?;\n", "            let Some(node_data) = node_data.as_table() else { return Err(format!(\"Failed to parse {}'s data\", key)); };\n")]),
 ('rw-w-table', 'same', [], [(NS, WMETA, """            let mut metadata: toml::InlineTable = toml::InlineTable::new();
            metadata.insert("type_name", node.name_as_type().into());
            metadata.insert("is_owner",  is_owner.into());
            if let Some(parent) = parent {
                metadata.insert("parent", (parent.rid() as i64).into());
            }
            let mut table: toml::Table = toml::Table::new();
            table.insert("metadata", toml::Item::Value(metadata.into()));
"""), (NS, WFIELDS, """            for (field_name, value) in node_fields {
                if !unsafe { value.is_ghost_export() } {
                    table.insert(&field_name.to_string(), toml::Item::Value(value.to_value()));
                }
            }
            document.insert(&node_key, toml::Item::Table(table));
""")]),
 ('rw-w-field-helper', 'same', [], [(NS, WFIELDS, """            for (field_name, value) in node_fields {
                let ghost: bool = unsafe { value.is_ghost_export() };
                if !ghost {
                    let entry: toml::Value = value.to_value();
                    document[&node_key][field_name.to_string().as_str()] = toml::Item::Value(entry);
                }
            }
""")]),
 ('rw-w-filter', 'same', [], [(NS, WFIELDS, """            for (field_name, value) in node_fields.into_iter().filter(|(_, value)| !unsafe { value.is_ghost_export() }) {
                document[&node_key][&field_name.to_string()] = toml::value(value.to_value());
            }
""")]),
 ('rw-w-iflet', 'same', [], [(NS, "if let Some(parent_rid) = parent.map(|p| p.rid()) {\n                document[&node_key][\"metadata\"][\"parent\"] = (parent_rid as i64).into();", "if let Some(parent) = parent {\n                document[&node_key][\"metadata\"][\"parent\"] = toml::value(parent.rid() as i64);")]),
 ('rw-w-format', 'same', [], [(NS, """        let mut buffer: String = SCN_COMMENT.to_string();
                buffer        += &document.to_string();
        Ok(buffer)""", """        Ok(format!("{SCN_COMMENT}{document}"))""")]),
 ('rw-w-concat', 'same', [], [(NS, """        let mut buffer: String = SCN_COMMENT.to_string();
                buffer        += &document.to_string();
        Ok(buffer)""", """        let text: String = document.to_string();
        let mut buffer: String = String::with_capacity(SCN_COMMENT.len() + text.len());
        buffer.push_str(SCN_COMMENT);
        buffer.push_str(&text);
        Ok(buffer)""")]),
 ('rw-w-clone-first', 'same', [], [(NS, "        self.clone().iterate(|parent, node, is_owner| {", "        let copy: NodeScene = self.clone();\n        copy.iterate(|parent, node, is_owner| {")]),
 ('rw-save-read', 'same', [], [(NS, """        let mut file:   fs::File = fs::File::open(path).map_err(|err| format!("{err}"))?;
        let mut buffer: Vec<u8>  = Vec::new();
        
        file.read_to_end(&mut buffer).map_err(|err| format!("{err}"))?;
        drop(file);
        
        // Attempt to parse the file as a table.
        let document: String = String::from_utf8(buffer).map_err(|err| format!("{err}"))?;
""", """        let document: String = fs::read_to_string(path).map_err(|err| format!("{err}"))?;
""")]),
 ('rw-save-write', 'same', [], [(NS, """        let mut file: fs::File = fs::File::create(full_name).map_err(|err| format!("{err}"))?;
                file.write_all(buffer.as_bytes()).map_err(|err| format!("{err}"))?;
        Ok(())""", """        fs::write(full_name, buffer).map_err(|err| err.to_string())""")]),
 ('rw-save-join', 'same', [], [(NS, """        let mut full_name: PathBuf = path.to_owned();
                full_name.push(Path::new(&format!("{name}.scn")));
""", """        let full_name: PathBuf = path.join(format!("{name}.scn"));
""")]),
 ('rw-number-iter', 'same', [], [(NS, """        for child in &self.children {

            // Update the counter and set it as this child's rid
            counter += 1;
            unsafe { (&mut *child.this).set_rid(counter) };

            // Recursively traverse the child's children
            counter = child.update_internal(counter);
        }
        counter""", """        for child in self.children.iter() {
            let number: u64 = counter + 1;
            let node: &mut dyn Node = unsafe { &mut *child.this };
            unsafe { node.set_rid(number) };
            counter = child.update_internal(number);
        }
        counter""")]),
 ('rw-number-fold', 'same', [], [(NS, """        for child in &self.children {

            // Update the counter and set it as this child's rid
            counter += 1;
            unsafe { (&mut *child.this).set_rid(counter) };

            // Recursively traverse the child's children
            counter = child.update_internal(counter);
        }
        counter""", """        self.children.iter().fold(counter, |last, child| {
            unsafe { (&mut *child.this).set_rid(last + 1) };
            child.update_internal(last + 1)
        })"""), (NS, "pub fn update_internal(&self, mut counter: u64)", "pub fn update_internal(&self, counter: u64)")]),
]
