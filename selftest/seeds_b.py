from seeds_a import NB, TB, PRE
SEEDS = [
 dict(id='p04-owned-scene-order', prop='P04', needs='a tree created from a scene with an owned scene inside of another owned scene',
      breaks='ready() of the outer scene runs before ready() of the scene nested in it when a tree is created',
      edits=[(TB, "                initialization_history.push(rid);\n", "                if is_owner { initialization_history.insert(1, rid); } else { initialization_history.push(rid); }\n")],
      demo=PRE + '''
class! { declare Kid; hk ready(&mut self) { say(self.name().to_string()); } }
fn main() {
    let inner: NodeScene = scene! { Kid: "Inner" };
    let mut outer: NodeScene = scene! { Kid: "Outer" };
    outer.append_as_owner(inner);
    let mut scene: NodeScene = scene! { Kid: "Root" };
    scene.append_as_owner(outer);
    let _tree: Box<TreeSimple> = TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
    assert_eq!(take(), vec!["Inner", "Outer", "Root"]);
}
'''),
 dict(id='p05-first-sixteen', prop='P05', needs='a parent with more than sixteen children',
      breaks='a new child is only compared with the first sixteen of its siblings, so two siblings can have the same name',
      edits=[(NB, "&self.children().iter().map(|c| c.name().to_string()).collect::<Vec<_>>();", "&self.children().iter().take(16).map(|c| c.name().to_string()).collect::<Vec<_>>();")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" }, LoggerVerbosity::OnlyPanics);
    for _ in 0..24 { tree.root_mut().add_child(scene! { Kid: "Kid" }); }
    let names: std::collections::HashSet<String> = tree.root().children().iter().map(|c| c.name().to_string()).collect();
    assert_eq!(names.len(), 24);
}
'''),
 dict(id='p06-owner-is-parent', prop='P06', needs='a node that is not owned by its direct parent',
      breaks='nodes deeper in a scene are owned by their parent instead of the scene\'s owner',
      edits=[(NB, "child.set_owner(if owner_is_self { rid } else { owner_rid });", "child.set_owner(if owner_is_self { rid } else if self.is_owner() { owner_rid } else { parent_rid });")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" [ Kid: "B" [ Kid: "C" ] ] ] }, LoggerVerbosity::OnlyPanics);
    tree.process();
    for rid in 1..4u64 { assert_eq!(tree.get_node(rid).unwrap().owner_dyn().rid(), 0); }
}
'''),
 dict(id='p07-identity-survives', prop='P07', needs='a singleton that is freed and whose name is then registered again',
      breaks='unregistering a node with children leaves its identity behind, so its singleton name stays taken',
      edits=[(TB, "        self.identity.remove(&rid);\n", "        if node.is_none() { self.identity.remove(&rid); }\n")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A", Kid: "B" ] }, LoggerVerbosity::OnlyPanics);
    assert!(tree.get_node_mut(1).unwrap().register_as_singleton("S".to_string()));
    tree.get_node_mut(1).unwrap().free();
    assert!(tree.get_node_mut(2).unwrap().register_as_singleton("S".to_string()));
}
'''),
 dict(id='p10-ignore-case', prop='P10', needs='two singleton names that differ only in case',
      breaks='a free singleton name is refused when another one differs from it only in case',
      edits=[(TB, "Self::UniqueName(this_name) => this_name != name,", "Self::UniqueName(this_name) => !this_name.eq_ignore_ascii_case(name),")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A", Kid: "B" ] }, LoggerVerbosity::OnlyPanics);
    assert!(tree.get_node_mut(1).unwrap().register_as_singleton("Ui".to_string()));
    assert!(tree.get_node_mut(2).unwrap().register_as_singleton("UI".to_string()));
}
'''),
 dict(id='p28-adjacent-duplicates', prop='P28', needs='an id given twice with another one in between',
      breaks='a bulk lookup hands out two mutable references to one node',
      edits=[(TB, """        if rids.len() != rids.iter().collect::<HashSet<_>>().len() {
            panic!("Duplicate RIDs found!");
        }

        rids.iter()
            .filter_map(""", """        if rids.windows(2).any(|pair| pair[0] == pair[1]) {
            panic!("Duplicate RIDs found!");
        }

        rids.iter()
            .filter_map(""")],
      demo=PRE + '''
class! { declare Kid; }
fn main() {
    let mut tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A", Kid: "B" ] }, LoggerVerbosity::OnlyPanics);
    assert_eq!(tree.get_all_valid_nodes_mut(&[2, 1, 9]).len(), 2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree.get_all_valid_nodes_mut(&[1, 2, 1]).len()));
    assert!(r.is_err());
}
'''),
]
