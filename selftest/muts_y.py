"""more edits that change nothing: results, pointers, paths and scenes"""
C = 'node_tree_core/src/structs/'
TR, TP, NP, NS = C + 'tree_result.rs', C + 'tree_pointer.rs', C + 'node_path.rs', C + 'node_scene.rs'


def s(i, *e):
    return ('y-%s-same' % i, 'same', [], list(e))


OUT = """        while let Some(segment) = self.pop_front() {
            out += &segment.to_string();
            if !self.path.is_empty() {
                out += "/";
            }
        }
        out
"""
FROM = """        if !self.is_absolute() {
            return tree.get_node(caller?)?.get_node_raw(self.clone());
        }
        
        let     root:          &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;   // There is none left once it was freed.
        let mut absolute_path: NodePath  = self.clone();
        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
            return None;
        }
        root.get_node_raw(absolute_path)
"""
HASH = """        unsafe { &*self.this }.name_as_type().hash(state);
        self.is_owner.hash(state);
        self.children.len().hash(state);

        // Recursively hash all of the children.
        for child in &self.children {
            child.hash(state);
        }
"""
UPD = """        for child in &self.children {

            // Update the counter and set it as this child's rid
            counter += 1;
            unsafe { (&mut *child.this).set_rid(counter) };

            // Recursively traverse the child's children
            counter = child.update_internal(counter);
        }
        counter
"""
TRAV = """            for child in node.children {

                // Call the iterator for the child node
                if child.from_disk {
                    let child_mut: &mut dyn Node = unsafe { &mut *child.this };
                    unsafe {
                        child_mut.mark_as_loaded();
                    }
                }
                iterator(Some(parent), child.this, child.is_owner);

                // Recursively traverse the child's children
                let child_this: *mut dyn Node = child.this;
                traverse(child, child_this, iterator);
            }
"""
EXT = """        match path.extension().map(|ext| ext.to_str()).flatten() {
            Some("scn") => (),
            Some(_)     => return Err("Attempted to load a file with an extension differing from .scn".to_string()),
            None        => return Err("Path did not contain a valid file extension".to_string())
        }
"""
READ = """        let mut file:   fs::File = fs::File::open(path).map_err(|err| format!("{err}"))?;
        let mut buffer: Vec<u8>  = Vec::new();
        
        file.read_to_end(&mut buffer).map_err(|err| format!("{err}"))?;
        drop(file);
        
        // Attempt to parse the file as a table.
        let document: String = String::from_utf8(buffer).map_err(|err| format!("{err}"))?;
        Self::load_from_str(&document)
"""
SAVE = """        let mut full_name: PathBuf = path.to_owned();
                full_name.push(Path::new(&format!("{name}.scn")));
        
        let buffer: String = self.save_to_str()?;

        let mut file: fs::File = fs::File::create(full_name).map_err(|err| format!("{err}"))?;
                file.write_all(buffer.as_bytes()).map_err(|err| format!("{err}"))?;
        Ok(())
"""
META = """            document[&node_key]                          = toml::Item::Table(toml::Table::new());
            document[&node_key]["metadata"]              = toml::InlineTable::new().into();
            document[&node_key]["metadata"]["type_name"] = node.name_as_type().into();
            document[&node_key]["metadata"]["is_owner"]  = is_owner.into();
"""
GHOST = """                if unsafe { value.is_ghost_export() } {
                    continue;
                }
                document[&node_key][&field_name.to_string()] = toml::Item::Value(value.to_value());
"""
CLONE = """        let cloned_children: Vec<NodeScene> = self.children.to_vec();
"""
CHILD0 = """                        let mut new_scene: NodeScene = NodeScene::new_dyn(node);
                                new_scene.from_disk  = true;

                        if is_owner {
                            node_scene.append_as_owner(new_scene);
                        } else {
                            node_scene.append(new_scene);
                        }
                        traversal.insert(local_rid, vec![node_scene.children.len() - 1]);
                        continue;
"""
CURS = """                            let mut cursor: Option<*mut NodeScene> = None;
                            let mut path:   Vec<usize>             = Vec::new();
                            for &segment in cached_path {
                                path.push(segment);
                                match cursor {
                                    Some(_) => cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _),
                                    None    => cursor = Some(&mut node_scene.children[segment])
                                }
                            }

                            // This should always be `Some(_)`:
                            let     found_parent: &mut NodeScene = unsafe { &mut *cursor.expect("Could not find a parent - internal bug") };
"""
NEWT = """        match unsafe { &*tree }.get_node(node) {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                match any.downcast_ref::<T>() {
                    Some(_) => (),
                    None    => return unsafe { TreeResult::new(tree, owner, Err(TPError::WrongType)) }
                }
            },
            None => return unsafe { TreeResult::new(tree, owner, Err(TPError::IsNull)) }
        }

        unsafe {
            TreeResult::new(tree, owner, Ok(Tp {
                tree,
                owner,
                node,
                p_life: PhantomData,
                p_type: PhantomData
            }))
        }
"""
GET = """        let node: Option<&dyn Node> = unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n });
        match node {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                match any.downcast_ref::<T>() {
                    Some(node) => node,
                    None       => self.fail(TPError::WrongType)
                }
            },
            None => self.fail(TPError::IsNull)
        }
"""
TRYG = """        let node: Option<&dyn Node> = unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n });
        match node {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                match any.downcast_ref::<T>() {
                    Some(node) => unsafe { TreeResult::new(self.tree, self.owner, Ok(node)) },
                    None       => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::WrongType)) }
                }
            },
            None => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::IsNull)) }
        }
"""
VALID = """        match unsafe { &*self.tree }.get_node(self.node) {
            Some(node) => {
                let any: &dyn Any = node.as_any_ref();
                    any.downcast_ref::<T>().is_some()
            },
            None => false
        }
"""
NULL = VALID.replace('is_some', 'is_none').replace('None => false', 'None => true')
DYN = """        match unsafe { &*tree }.get_node(node) {
            Some(_) => (),
            None    => return unsafe { TreeResult::new(tree, owner, Err(TPError::IsNull)) }
        }

        unsafe {
            TreeResult::new(tree, owner, Ok(TpDyn {
                owner,
                node,
                tree,
                p_life: PhantomData
            }))
        }
"""
CAST = """        match self.try_get().to_option() {
            Some(inner) => {
                match <dyn Node as CastRef>::cast::<T>(inner) {
                    Some(casted) => unsafe { TreeResult::new(self.tree, self.owner, Ok(mem::transmute(casted))) }, // Expand lifetime artificially
                    None         => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::DynCastFailed)) }
                }
            },
            None => unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::AttemptedDynCastOnNull)) }
        }
"""
ASREF = """        match self.object.as_ref() {
            Ok(object) => TreeResult { tree: self.tree, owner: self.owner, object: Ok(object), p_life: self.p_life },
            Err(err)   => TreeResult { tree: self.tree, owner: self.owner, object: Err(err),   p_life: self.p_life }
        }
"""
LRID = """            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                .ok_or("Failed to parse Node key".to_string())??;
"""
FIELDS = """            let node_fields: Option<SFieldMap> = node_data.into_iter()
                .filter(|(field, _)| *field != "metadata")
                .map(|(field, value)| {
                    match value {
                        toml::Item::Value(value) => Some((field.into(), value.to_owned())),
                        _                        => None
                    }
                }).collect();

            let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
"""
MUTS = [
 s('print-map', (NP, OUT, """        let parts: Vec<String> = self.path.iter().map(|segment| segment.to_string()).collect();
        out.push_str(&parts.join("/"));
        out
""")),
 s('print-peek', (NP, OUT, """        let count: usize = self.path.len();
        for (i, segment) in self.path.drain(..).enumerate() {
            out.push_str(&segment.to_string());
            if i + 1 != count {
                out.push('/');
            }
        }
        out
""")),
 s('from-match', (NP, FROM, """        if self.is_absolute() {
            let root: &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;
            let mut rest: NodePath = self.clone();
            match rest.pop_front_as_string() {
                Some(first) if first == root.name() => root.get_node_raw(rest),
                _                                   => None
            }
        } else {
            let caller: RID = caller?;
            let start: &dyn Node = tree.get_node(caller)?;
            start.get_node_raw(self.clone())
        }
""")),
 s('from-andthen', (NP, FROM, """        let mut path: NodePath = self.clone();
        if !path.abs {
            return caller.and_then(|rid| tree.get_node(rid)).and_then(|node| node.get_node_raw(path));
        }
        let root: &dyn Node = match tree.get_node(0) {
            Some(root) => root,
            None       => return None
        };
        let first: Option<String> = path.pop_front_as_string();
        if first.is_none_or(|first| first != root.name()) {
            return None;
        }
        root.get_node_raw(path)
""")),
 s('parse-if', (NP, """        match input {
            "."   => Self::This,
            ".."  => Self::Parent,
            i @ _ => Self::Node(i.into())
        }
""", """        if input == ".." {
            Self::Parent
        } else if input == "." {
            Self::This
        } else {
            Self::Node(input.into())
        }
""")),
 s('scan-match', (NP, "retain(|seg| !seg.is_empty_identifier())", "retain(|seg| match seg {\n            PathSeg::Node(name) => !name.is_empty(),\n            _                   => true\n        })")),
 s('hash-order', (NS, HASH, """        let node: &dyn Node = unsafe { &*self.this };
        node.name_as_type().hash(state);
        self.children.len().hash(state);
        self.is_owner.hash(state);
        self.children.iter().for_each(|child| child.internal_structural_hash(state));
""")),
 s('hash-slice', (NS, HASH, """        hash::Hash::hash(&unsafe { &*self.this }.name_as_type(), state);
        state.write_u8(if self.is_owner { 1 } else { 0 });
        state.write_usize(self.children.len());
        for i in 0..self.children.len() {
            self.children[i].hash(state);
        }
""")),
 s('update-fold', (NS, UPD, """        self.children.iter().fold(counter, |last, child| {
            let rid: u64 = last + 1;
            unsafe { (&mut *child.this).set_rid(rid); }
            child.update_internal(rid)
        })
"""), (NS, 'pub fn update_internal(&self, mut counter: u64)', 'pub fn update_internal(&self, counter: u64)')),
 s('traverse-destruct', (NS, TRAV, """            for child in node.children.into_iter() {
                let (this, owner): (*mut dyn Node, bool) = (child.this, child.is_owner);
                if child.from_disk {
                    unsafe { (*this).mark_as_loaded() };
                }
                iterator(Some(parent), this, owner);
                traverse(child, this, iterator);
            }
""")),
 s('ext-if', (NS, EXT, """        let Some(extension) = path.extension().and_then(|ext| ext.to_str()) else {
            return Err("Path did not contain a valid file extension".to_string());
        };
        if extension != "scn" {
            return Err("Attempted to load a file with an extension differing from .scn".to_string());
        }
""")),
 s('read-string', (NS, READ, """        let buffer: Vec<u8> = fs::read(path).map_err(|err| err.to_string())?;
        match String::from_utf8(buffer) {
            Ok(document) => Self::load_from_str(&document),
            Err(err)     => Err(err.to_string())
        }
""")),
 s('save-write', (NS, SAVE, """        let text: String = self.save_to_str()?;
        let file_name: String = format!("{name}.scn");
        fs::write(path.join(file_name), text.as_bytes()).map_err(|err| format!("{err}"))
""")),
 s('meta-built', (NS, META, """            let mut metadata: toml::InlineTable = toml::InlineTable::new();
            metadata.insert("type_name", node.name_as_type().into());
            metadata.insert("is_owner", is_owner.into());
            document[&node_key]             = toml::Item::Table(toml::Table::new());
            document[&node_key]["metadata"] = metadata.into();
""")),
 s('ghost-if', (NS, GHOST, """                let ghost: bool = unsafe { value.is_ghost_export() };
                if !ghost {
                    let field: String = field_name.to_string();
                    document[&node_key][field.as_str()] = toml::Item::Value(value.to_value());
                }
""")),
 s('clone-map', (NS, CLONE, "        let cloned_children: Vec<NodeScene> = self.children.iter().map(|child| child.clone()).collect();\n")),
 s('clone-loop', (NS, CLONE, "        let mut cloned_children: Vec<NodeScene> = Vec::with_capacity(self.children.len());\n        for child in &self.children {\n            cloned_children.push(child.clone());\n        }\n")),
 s('append-common', (NS, """        child.is_owner = false; // Have this only be applied for single nodes, not whole node scenes!
        self.children.push(child);
""", "        self.attach(child, false);\n"), (NS, "pub fn append(&mut self, mut child: NodeScene)", "pub fn append(&mut self, child: NodeScene)"),
   (NS, """        child.is_owner = true;
        self.children.push(child);
""", "        self.attach(child, true);\n"), (NS, "pub fn append_as_owner(&mut self, mut child: NodeScene)", "pub fn append_as_owner(&mut self, child: NodeScene)"),
   (NS, "    /// Gets the children.\n", """    fn attach(&mut self, mut child: NodeScene, is_owner: bool) {
        child.is_owner = is_owner;
        self.children.push(child);
    }

    /// Gets the children.
""")),
 s('load-place', (NS, CHILD0, """                        let place: usize = node_scene.children.len();
                        let mut new_scene: NodeScene = NodeScene::new_dyn(node);
                        new_scene.from_disk = true;
                        new_scene.is_owner  = is_owner;
                        node_scene.children.push(new_scene);
                        traversal.insert(local_rid, vec![place]);
                        continue;
""")),
 s('load-cursor', (NS, CURS, """                            let mut path: Vec<usize> = cached_path.clone();
                            let mut found_parent: &mut NodeScene = node_scene;
                            for &segment in cached_path {
                                found_parent = &mut found_parent.children[segment];
                            }
""")),
 s('load-rid-match', (NS, LRID, """            let Some((name, number)) = key.rsplit_once('_') else {
                return Err("Failed to parse Node key".to_string());
            };
            let local_rid: RID = match number.parse::<RID>() {
                Ok(local_rid) => local_rid,
                Err(err)      => return Err(format!("{err}"))
            };
""")),
 s('load-fields-loop', (NS, FIELDS, """            let mut node_fields: SFieldMap = SFieldMap::new();
            for (field, value) in node_data.iter() {
                if field == "metadata" {
                    continue;
                }
                let toml::Item::Value(value) = value else {
                    return Err("Could not parse node fields".to_string());
                };
                node_fields.insert(field.into(), value.clone());
            }

            let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields)?;
""")),
 s('tp-new-is', (TP, NEWT, """        let found: Option<&dyn Node> = unsafe { &*tree }.get_node(node);
        let object: Result<Self, TPError> = match found {
            None                                        => Err(TPError::IsNull),
            Some(found) if !found.as_any_ref().is::<T>() => Err(TPError::WrongType),
            Some(_)                                     => Ok(Tp { tree, owner, node, p_life: PhantomData, p_type: PhantomData })
        };
        unsafe { TreeResult::new(tree, owner, object) }
""")),
 s('tp-get-try', (TP, GET, """        let Some(node) = unsafe { &*self.tree }.get_node(self.node) else {
            self.fail(TPError::IsNull)
        };
        node.as_any_ref().downcast_ref::<T>().unwrap_or_else(|| self.fail(TPError::WrongType))
""")),
 s('tp-tryget-okor', (TP, TRYG, """        let found: Result<&T, TPError> = unsafe { &*self.tree }.get_node(self.node)
            .ok_or(TPError::IsNull)
            .and_then(|node| node.as_any_ref().downcast_ref::<T>().ok_or(TPError::WrongType));
        unsafe { TreeResult::new(self.tree, self.owner, found) }
""")),
 s('tp-valid-and', (TP, VALID, "        unsafe { &*self.tree }.get_node(self.node).is_some_and(|node| node.as_any_ref().is::<T>())\n")),
 s('tp-null-not', (TP, NULL, "        !self.is_valid()\n")),
 s('dyn-new-if', (TP, DYN, """        let object: Result<Self, TPError> = if unsafe { &*tree }.get_node(node).is_some() {
            Ok(TpDyn { tree, owner, node, p_life: PhantomData })
        } else {
            Err(TPError::IsNull)
        };
        unsafe { TreeResult::new(tree, owner, object) }
""")),
 s('cast-let', (TP, CAST, """        let Some(inner) = self.try_get().to_option() else {
            return unsafe { TreeResult::new(self.tree, self.owner, Err(TPError::AttemptedDynCastOnNull)) };
        };
        let object: Result<&'a T, TPError> = match <dyn Node as CastRef>::cast::<T>(inner) {
            Some(casted) => Ok(unsafe { mem::transmute(casted) }),
            None         => Err(TPError::DynCastFailed)
        };
        unsafe { TreeResult::new(self.tree, self.owner, object) }
""")),
 s('res-asref', (TR, ASREF, "        TreeResult { tree: self.tree, owner: self.owner, object: self.object.as_ref(), p_life: self.p_life }\n")),
 s('res-map-match', (TR, "        TreeResult { tree: self.tree, owner: self.owner, object: self.object.map(op), p_life: self.p_life }\n", """        let object: Result<U, E> = match self.object {
            Ok(object) => Ok(op(object)),
            Err(err)   => Err(err)
        };
        TreeResult { tree: self.tree, owner: self.owner, object, p_life: self.p_life }
""")),
 s('res-ok-map', (TR, "            TreeOption::new(self.tree, self.owner, self.object.ok())\n", "            TreeOption::new(self.tree, self.owner, match self.object {\n                Ok(object) => Some(object),\n                Err(_)     => None\n            })\n")),
 s('res-is-err', (TR, "        !self.is_ok()\n", "        matches!(self.object, Err(_))\n")),
 s('res-unwrap-or', (TR, """        match self.object {
            Ok(t)  => t,
            Err(_) => default
        }
""", "        self.object.unwrap_or(default)\n")),
 s('res-expect', (TR, """        match self.object {
            Ok(object)   => object,
            Err(ref err) => self.fail(msg, err)
        }
""", """        if let Err(err) = &self.object {
            self.fail(msg, err);
        }
        unsafe { self.unwrap_unchecked() }
""")),
 s('res-or', (TR, """        match self.object {
            Ok(_)  => self,
            Err(_) => self.transfer_owner(res)
        }
""", "        if self.is_ok() { self } else { self.transfer_owner(res) }\n")),
 s('res-inspect', (TR, """        if let Ok(ref t) = self.object {
            f(t);
        }
        self
""", """        match &self.object {
            Ok(t)  => f(t),
            Err(_) => ()
        }
        self
""")),
]
MUTS += [
 ('y-hash-owner-const', 'bug', ['P22'], [(NS, "        self.is_owner.hash(state);\n", "        state.write_u8(if self.is_owner { 1 } else { 1 });\n")]),
 ('y-hash-owner-part', 'bug', ['P22'], [(NS, "        self.is_owner.hash(state);\n", "        if self.is_owner {\n            state.write_u8(1);\n        }\n")]),
]
