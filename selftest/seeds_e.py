from seeds_a import PRE, NB, TB
PRE2 = PRE + 'class! { declare Kid; }\n'
NS = 'node_tree_core/src/structs/node_scene.rs'
ND = 'node_tree_core/src/traits/node.rs'
ND_ = 'node_tree_core/src/traits/instanceable.rs'
KIDS = '''
fn kid(name: &str) -> NodeScene { let mut kid = Kid::new(); kid.set_name(name); NodeScene::new(kid) }
'''
SEEDS = [
 dict(id='p18-deep-place', prop='P18', needs='a saved scene with nodes four levels below its root, where the first and the last step down differ',
      breaks='nodes four levels below the root are attached to another node (or loading panics)',
      edits=[(NS, """                            for &segment in cached_path {
                                path.push(segment);
                                match cursor {
                                    Some(_) => cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _),
                                    None    => cursor = Some(&mut node_scene.children[segment])
                                }
                            }
""", """                            for &segment in cached_path {
                                match cursor {
                                    Some(_) => cursor = cursor.map(|scene_ptr| &mut (unsafe { &mut *scene_ptr }.children[segment]) as *mut _),
                                    None    => {
                                        path.push(segment);
                                        cursor = Some(&mut node_scene.children[segment]);
                                    }
                                }
                            }
""")],
      demo=PRE2 + '''
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" [ Kid: "A" [ Kid: "X", Kid: "B" [ Kid: "C" [ Kid: "D" ] ] ] ] };
    let back: NodeScene = NodeScene::load_from_str(&scene.save_to_str().unwrap()).unwrap();
    assert!(scene.structural_hash() == back.structural_hash());
    let tree: Box<TreeSimple> = TreeSimple::new(back, LoggerVerbosity::OnlyPanics);
    assert!(tree.root().get_node_raw(NodePath::from_str("A/B/C/D")).is_some());
}
'''),
 dict(id='p18-metadata-prefix', prop='P18', needs='an exported field whose name begins with "metadata"',
      breaks='a node with such a field cannot be loaded again, because the field is taken for the metadata',
      edits=[(NS, '.filter(|(field, _)| *field != "metadata")', '.filter(|(field, _)| !field.starts_with("metadata"))')],
      demo=PRE + '''
class! { declare Kid; export let metadata_version: u32 = 3; }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" [ Kid: "A" ] };
    assert!(NodeScene::load_from_str(&scene.save_to_str().unwrap()).is_ok());
}
'''),
 dict(id='p18-file-name', prop='P18', needs='a scene saved under a name with a dot in it',
      breaks='saving under the name "level.1" writes "level.scn" instead of "level.1.scn"',
      edits=[(NS, '                full_name.push(Path::new(&format!("{name}.scn")));\n', '                full_name.push(name);\n                full_name.set_extension("scn");\n')],
      demo=PRE2 + '''
fn main() {
    let dir = std::env::current_dir().unwrap();
    let scene: NodeScene = scene! { Kid: "Root" };
    scene.save(&dir, "level.1").unwrap();
    assert!(NodeScene::load(&dir.join("level.1.scn")).is_ok());
}
'''),
 dict(id='p19-child-first', prop='P19', needs='a document in which a child stands in front of its parent',
      breaks='loading such a document panics instead of giving an error',
      edits=[(NS, """                        None => return Err("Child was declared ahead of parent in the .scn file".to_string())
""", """                        None => panic!("Child was declared ahead of parent in the .scn file")
""")],
      demo=PRE2 + '''
fn main() {
    let kid = Kid::new();
    let kind = kid.name_as_type();
    let text = format!("[Root_0]\\nmetadata = {{ type_name = \\"{kind}\\", is_owner = true }}\\n[B_2]\\nmetadata = {{ type_name = \\"{kind}\\", is_owner = false, parent = 1 }}\\n[A_1]\\nmetadata = {{ type_name = \\"{kind}\\", is_owner = false, parent = 0 }}\\n");
    assert!(NodeScene::load_from_str(&text).is_err());
}
'''),
 dict(id='p19-no-metadata', prop='P19', needs='a document with a table that has no metadata',
      breaks='loading such a document panics instead of giving an error',
      edits=[(NS, 'node_data.get("metadata").map(|nd| nd.as_inline_table()).flatten().ok_or(', 'node_data["metadata"].as_inline_table().ok_or(')],
      demo=PRE2 + '''
fn main() {
    assert!(NodeScene::load_from_str("[Root_0]\\nspeed = 3\\n").is_err());
}
'''),
 dict(id='p22-no-count', prop='P22', needs='two scenes with the same types in the same order that differ in which node a child is below',
      breaks='scenes of different shape have the same structural hash',
      edits=[(NS, "        self.is_owner.hash(state);\n        self.children.len().hash(state);\n", "        self.is_owner.hash(state);\n")],
      demo=PRE2 + '''
fn main() {
    let a: NodeScene = scene! { Kid: "Root" [ Kid: "A" [ Kid: "B" ] ] };
    let b: NodeScene = scene! { Kid: "Root" [ Kid: "A", Kid: "B" ] };
    assert!(a.structural_hash() != b.structural_hash());
}
'''),
 dict(id='p22-leaf-owner', prop='P22', needs='scenes that differ in the ownership of a node without children',
      breaks='the ownership of a node without children does not count for the structural hash',
      edits=[(NS, "        self.is_owner.hash(state);\n", "        (self.is_owner && !self.children.is_empty()).hash(state);\n")],
      demo=PRE2 + KIDS + '''
fn main() {
    let mut a = kid("Root");
    a.append(kid("A"));
    let mut b = kid("Root");
    b.append_as_owner(kid("A"));
    assert!(a.structural_hash() != b.structural_hash());
}
'''),
 dict(id='p23-loaded-parent', prop='P23', needs='a loaded scene attached below one that was made in code',
      breaks='the root of a loaded scene is not taken for loaded when it is part of another scene',
      edits=[(NS, "                if child.from_disk {\n", "                if node.from_disk {\n")],
      demo=PRE + '''
class! { declare Kid; hk loaded(&mut self) { say(self.name()); } }
fn main() {
    let part: NodeScene = NodeScene::load_from_str(&scene! { Kid: "P" [ Kid: "Q" ] }.save_to_str().unwrap()).unwrap();
    let mut whole: NodeScene = NodeScene::new(Kid::new());
    whole.append(part);
    let _tree: Box<TreeSimple> = TreeSimple::new(whole, LoggerVerbosity::OnlyPanics);
    let mut log = take();
    log.sort();
    assert_eq!(log, vec!["P", "Q"]);
}
'''),
 dict(id='p23-append-keeps', prop='P23', needs='a scene with nodes below its root, appended without ownership',
      breaks='a scene that has children stays its own owner when it is appended without ownership',
      edits=[(NS, "        child.is_owner = false; // Have this only be applied for single nodes, not whole node scene", "        child.is_owner = child.is_owner && !child.children.is_empty(); // Have this only be applied for single nodes, not whole node scene")],
      demo=PRE2 + KIDS + '''
fn main() {
    let mut part = kid("P");
    part.append(kid("Q"));
    let mut whole = kid("Root");
    whole.append(part);
    let tree: Box<TreeSimple> = TreeSimple::new(whole, LoggerVerbosity::OnlyPanics);
    assert!(!tree.root().get_child::<Kid>(0).unwrap().is_owner());
}
'''),
 dict(id='p24-clone-loaded', prop='P24', needs='a copy of a scene that was loaded',
      breaks='the nodes of a copy of a loaded scene are not taken for loaded',
      edits=[(NS, "            from_disk: self.from_disk,\n", "            from_disk: false,\n")],
      demo=PRE + '''
class! { declare Kid; hk loaded(&mut self) { say(self.name()); } }
fn main() {
    let part: NodeScene = NodeScene::load_from_str(&scene! { Kid: "P" [ Kid: "Q" ] }.save_to_str().unwrap()).unwrap();
    let _tree: Box<TreeSimple> = TreeSimple::new(part.clone(), LoggerVerbosity::OnlyPanics);
    let mut log = take();
    log.sort();
    assert_eq!(log, vec!["P", "Q"]);
}
'''),
 dict(id='p24-branch-owner', prop='P24', needs='a branch with an owner that has no children, saved',
      breaks='a node that owns itself but has no children loses its ownership when its branch is saved',
      edits=[(NB, "            if child.is_owner() {\n                scene.append_as_owner", "            if child.is_owner() && !child.childless() {\n                scene.append_as_owner")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    tree.root().get_child::<Kid>(0).unwrap().add_child(scene! { Kid: "S" });
    assert!(tree.root().get_child::<Kid>(0).unwrap().get_child::<Kid>(0).unwrap().is_owner());
    let copy: Box<TreeSimple> = TreeSimple::new(tree.root().save_as_branch(), LoggerVerbosity::OnlyPanics);
    assert!(copy.root().get_child::<Kid>(0).unwrap().get_child::<Kid>(0).unwrap().is_owner());
}
'''),
]
SEEDS = [s for s in SEEDS if s]
