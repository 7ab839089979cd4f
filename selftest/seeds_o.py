"""what errors and entries of the log say (P40)"""
from seeds_e import PRE, PRE2, NB, TB, NS
TR = 'node_tree_core/src/structs/tree_result.rs'
TP = 'node_tree_core/src/structs/tree_pointer.rs'
DL = 'node_tree_derive/src/lib.rs'
QUIET = '''    std::panic::set_hook(Box::new(|_| ()));
'''
SEEDS = [
 dict(id='p40-unwrap-reason', prop='P40', needs='an unwrap of a failed result, whose entry in the log is read',
      breaks='the entry about a failing unwrap no longer says which error the result held',
      edits=[(TR, 'Err(ref err) => self.fail("called `TreeResult::unwrap()` on an `Err` value", err)',
                  'Err(ref err) => self.fail("called `TreeResult::unwrap()` on an `Err` value", &std::any::type_name_of_val(err))')],
      demo=PRE2 + '''
fn main() {
''' + QUIET + '''    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A" ] }, LoggerVerbosity::OnlyPanics);
    let failed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { tree.root().get_child_dyn(4711).unwrap(); }));
    assert!(failed.is_err());
    assert!(tree.get_log().contains("4711"), "{}", tree.get_log());
}
'''),
 dict(id='p40-index-swap', prop='P40', needs='the text of the error of a child that is out of range',
      breaks='the error takes the number of children for the index and the index for the number of children',
      edits=[(NB, "Index {index} was out of the range of this node's children count of {children_count}", "Index {children_count} was out of the range of this node's children count of {index}")],
      demo=PRE2 + '''
fn main() {
    let tree: Box<TreeSimple> = TreeSimple::new(scene! { Kid: "Root" [ Kid: "A", Kid: "B", Kid: "C" ] }, LoggerVerbosity::OnlyPanics);
    let text: String = match tree.root().get_child_dyn(17).to_result() { Ok(_) => panic!(), Err(err) => format!("{err}") };
    assert!(text.find("17").unwrap() < text.find('3').unwrap(), "{text}");
}
'''),
 dict(id='p40-load-index', prop='P40', needs='a document in which another entry than the first has no type name',
      breaks='the error names the first entry of the document and not the one that is broken',
      edits=[(NS, """.ok_or(format!("Failed to parse {}'s type name", key))""", """.ok_or(format!("Failed to parse {}'s type name", document.iter().next().map_or(key, |(first, _)| first)))""")],
      demo=PRE2 + '''
fn main() {
    let kid = Kid::new();
    let kind = kid.name_as_type();
    let text = format!("[Root_0]\\nmetadata = {{ type_name = \\"{kind}\\", is_owner = true }}\\n[Broken_1]\\nmetadata = {{ is_owner = false, parent = 0 }}\\n");
    let err = match NodeScene::load_from_str(&text) { Ok(_) => panic!(), Err(err) => format!("{err}") };
    assert!(err.contains("Broken_1"), "{err}");
}
'''),
 dict(id='p40-field-kind', prop='P40', needs='a saved scene in which a field holds a value of another type',
      breaks='a field of the wrong type is reported as missing',
      edits=[(DL, 'ok_or(format!("corrupt save data; `{}` invalid type", stringify!(#field_name)))?', 'ok_or(format!("corrupt save data; `{}` missing", stringify!(#field_name)))?')],
      demo=PRE + '''
class! { declare Kid; export let speed: u32 = 3; }
fn main() {
    let scene: NodeScene = scene! { Kid: "Root" };
    let text = scene.save_to_str().unwrap();
    assert!(text.contains("speed = 3"), "{text}");
    let fail = |text: &str| match NodeScene::load_from_str(text) { Ok(_) => panic!(), Err(err) => format!("{err}") };
    let (wrong, gone) = (fail(&text.replace("speed = 3", "speed = \\"three\\"")), fail(&text.replace("speed = 3", "")));
    assert!(wrong.contains("speed") && gone.contains("speed"));
    assert_ne!(wrong, gone);
}
'''),
 dict(id='p40-null-casts', prop='P40', needs='the text of the error of casting a dynamic pointer whose node is gone',
      breaks='the error of casting a missing node reads like that of casting a node to a trait it does not have',
      edits=[(TP, 'Cannot coerce a null TpDyn to a dynamic trait object', 'The held node by this TpDyn does not extend the specified trait')],
      demo=PRE2 + '''
fn main() {
    let all = [TPError::WrongType, TPError::IsNull, TPError::AttemptedCastToDynOnNull, TPError::AttemptedDynCastOnNull, TPError::DynCastFailed];
    let texts: std::collections::HashSet<String> = all.iter().map(|err| format!("{err}")).collect();
    assert_eq!(texts.len(), all.len());
}
'''),
]
