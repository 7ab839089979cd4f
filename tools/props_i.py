P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


SR = 'node_tree_core/src/structs/'
NB = SR + 'node_base.rs'
NT = SR + 'node_tree_base.rs'
NP = SR + 'node_path.rs'
NS = SR + 'node_scene.rs'
TP = SR + 'tree_pointer.rs'
add('P35', 'No safe operation goes past something that is missing',
    'A public safe operation of nodes, trees, paths, scenes and pointers never relies on a value that is not there: it never unwraps an empty option without a check, never indexes past the end of a list, and never runs into a panic which its documentation does not name. What it may panic about is: a node that is in no tree (for the operations on nodes that say so), a pointer that is dereferenced after its target was freed or whose target has another type, the root of a tree whose root was freed, and the same id asked for twice where nodes are handed out mutably. In every other state of a tree - no root left, a tree that has ended, a node freed or removed before or in the middle of the operation, an index just after the last child, a path that leads nowhere - the operation ends with its ordinary answer (nothing, an error value or no effect). A log entry is posted only in the name of a node that is in the tree at that moment.',
    ['inputs', 'histories'], 'every public safe operation, every consistent tree, every node in and outside of a tree, every id, index and path, every state of the tree',
    'The operation that misses is one that nothing in a test leads up to: the tree has ended, the root is gone, a hook has freed the node; and an unchecked unwrap of nothing does not even fail reliably.',
    [NB, NT, NP, NS, TP], [('children and lookups', NB + ': NodeBase::get_child, get_node, this_dyn'), ('root', NT + ': NodeTreeBase::root, root_mut, process'), ('absolute paths', NP + ': NodeGetter::get_from')],
    'Relies on the linkage of a consistent tree (P06), the order of a scene (P23) and of a walk (P32). Loading from text (P19), the logger, the drawing of a tree and the accessors that derive(Tree) generates are not part of it. What unsafe functions ask of their callers is not checked at the callers outside of the library.',
    technique='static analysis: reachability of panics and unchecked misses over rustc MIR, path conditions matched against the linkage invariants')
TS = 'node_tree_core/src/trees/tree_simple.rs'
DR = 'node_tree_derive/src/lib.rs'
add('P36', 'A new tree is wired to one fresh base before any node of it exists',
    'Constructing a tree (TreeSimple::new, initialize_base on any tree type) stores exactly one new base in the tree - running, without nodes, names or singletons, logging with exactly the verbosity that was given, its clock started at that moment - before the first node is made; then makes the nodes from exactly the scene that was given, once, and gives each of them a pointer to this tree, so that a hook that runs in the middle of the construction already finds the tree it is in. Initialising a tree again starts with a new base. For every tree type, TreeSimple and those derive(Tree) makes alike, base, base_mut and the dereferences give the base that was stored and nothing else, and the conversions (as_dyn, as_any and so on) give the tree itself. Nothing else in the library makes, stores or initialises a base.',
    ['inputs', 'programs'], 'every scene, every verbosity, every tree type, every hook that runs during construction',
    'What is wrong in the wiring shows only for a second tree, a second initialisation, an unusual verbosity or a hook that looks at the tree while it is being built; tests build one tree.',
    [NT, TS, DR], [('constructor', NT + ': initialize_base, NodeTreeBase::new'), ('accessors', TS + ': TreeSimple'), ('derived accessors', DR + ': derive(Tree)')],
    'Accessors of a tree that was never initialised are outside of it. Derived trees are those of the witness crate (the expansion does not depend on the fields besides base). The order of the hooks is P03 and P04, the links of the nodes P06.',
    technique='static analysis: path-sensitive dataflow over rustc MIR (order of effects, provenance of pointers), accessor summaries, and a whole-crate scan of who makes a base')
add('P37', 'No operation of the library runs forever',
    'Every operation of the library comes to an end for every input, every finite tree and every state of it, given that hooks and callbacks come to an end themselves and do not keep adding nodes for ever: renaming stops at the first free number, however many siblings there are and whatever number the name ends in; walking down, climbing up, drawing, following a path (with any mix of names, "." and ".."), emitting a signal (even if its callbacks connect or disconnect), saving, loading, copying and hashing a scene, exporting a nested value, and every operator and conversion of a field return.',
    ['inputs', 'histories'], 'every function of the library, every loop and every recursion in it on every path, including the cycle from a log entry to the drawing of the tree and back',
    'A loop that never ends shows only for the one name, path, shape or operator that nothing samples; and a test suite cannot tell slow from endless.',
    [NB, NP, 'node_tree_core/src/utils/functions.rs', SR + 'signals.rs', SR + 'node_field.rs', NS], [('renaming', 'node_tree_core/src/utils/functions.rs: ensure_unique_name'), ('walks', NB + ': NodeBase::top_down_tail, get_absolute_path_tail, get_node_raw'), ('reports', 'node_tree_core/src/utils/functions.rs: draw_tree'), ('emission', SR + 'signals.rs: Signal::emit')],
    'The trees are finite and acyclic by P06; std is taken to return. Hooks and callbacks that never return, that keep adding nodes, or that free the node whose terminal hook is running are outside. Blocking on a lock is P16. The time of the expansion of the macros at compile time is not covered.',
    technique='static analysis: termination measures for every loop and recursion found by abstract interpretation of rustc MIR')
add('P38', 'A program that would break a tree does not compile',
    'The compiler rejects misuse, and accepts the same program without it. What is taken from a node (the pointers and results of children, get_child, get_node, parent, owner, this, what cast, to and to_dyn make of them, its name, its tree) cannot be used after the node is changed, freed or dropped, and what is taken from a tree (root, nodes, the log) not after the tree runs or is dropped; a reference obtained from a pointer, a field, a result or an option does not outlive it. Whatever changes a node, a tree, a scene, a pointer\'s target, a path or an id table needs exclusive access to it; nodes and scenes given away (add_child, append, NodeScene::new, a tree\'s constructor) cannot be used again. Operations that trust their caller (setting ids, links, status, depth, tree or base, registering raw pointers, unchecked names, building pointers and results by hand, unchecked unwrapping, connecting closures) have to be called in unsafe code. Only nodes can be children, scene members and targets of pointers; only what can be saved is an exported field. scene!, connect! and class! reject settings, parameters, signals, methods, keywords and attributes that do not exist or do not fit, and what a class does not declare pub is private to its module, as is the inside of pointers, scenes, trees, signals and id tables. Nodes, scenes, trees, pointers and signals cannot be sent to or shared with another thread.',
    ['programs'], 'over 300 pairs of programs that differ in one place; what the type system decides for the pair it decides for every program of that form',
    'A program that has to be rejected cannot be a test of the suite: nothing in it notices when a lifetime, a visibility or an unsafe is lost.',
    [TP, NB, NT, NS, DR, 'node_tree_derive/src/parser.rs'], [('lifetimes', TP + ': Tp, TpDyn ("shares a LifeTime with its owning Node")'), ('exclusive access', NT + ': get_node_mut, get_nodes_mut'), ('unsafe', NB + ': set_rid, add_child_from_ptr'), ('generated code', DR + ': class!, connect!, scene!')],
    'The pairs are chosen, not derived: a function that is not in them is not covered. By design the library copies pointers freely, gives a mutable tree from a shared node (tree_mut) and two mutable references from cast_mut; those are not counted as misuse.',
    technique='static analysis: compile-fail witnesses in pairs, type-checked against the current library')
add('P39', 'Comparing, hashing, ordering and copying agree with each other',
    'Two values of a type of the library are equal iff they are of the same kind and all of their parts are equal: tree pointers iff tree, owner and node are the same, options and results of the tree iff tree, owner and content are, paths iff they start alike and have the same segments, errors, modes, statuses and reasons iff they are the same with the same details, fields as their values (void equals void only). Equal values have equal hashes: a hash depends on the parts that are compared and on nothing else, neither on where the value lies nor on the state of a tree. A copy of a pointer, option, result, path, error, status, identity, log, logger or id table equals its original in every part (a copied table goes on with the ids of the original) and leaves the original as it was. Fields are in order as their values are, void ones behind all others; the partial order is the total one.',
    ['inputs', 'states'], 'every implementation of PartialEq, Hash, Clone, PartialOrd and Ord for a type of the library, every path, every pair of kinds',
    'The laws quantify over all pairs of values; a type whose equality, hash and order drift apart fails in sets, maps and sorts, far from the change and for rare pairs only.',
    [TP, NP, SR + 'rid.rs', SR + 'node_field.rs', NB], [('pointers', TP + ': Tp, TpDyn'), ('paths', NP + ': NodePath, PathSeg'), ('fields', SR + 'node_field.rs: Field, UniqueField'), ('id table', SR + 'rid.rs: RIDHolder')],
    'The comparisons, hashes and copies of std and of user types are taken to be lawful. Copies of signals, nodes, scenes and fields have meanings of their own (P16, P18, P24, P25), and so has the hash of a scene (P22). That different values hash apart is not claimed.',
    technique='static analysis: path-sensitive dataflow over rustc MIR (what a yes or a no of an equality knows of the parts; what reaches a hasher; where the parts of a copy come from)')
TR = SR + 'tree_result.rs'
add('P40', 'What is reported names what it is about',
    'Every error of the library prints all details it carries, and two errors that differ in kind print differently: an index that is out of range is told with the index and the number of children, in this order of meaning, an invalid path with the path. A failing unwrap or expect of a tree option or result posts the message it was given (expect) or its own, and for results also what the result held instead; a failing tree pointer posts which failure it was. The entries of the log about a node that is added name the child, the parent and the id of the child, each in its place; those about a removed node the child and the parent; those about a child to remove that is not there the name that was asked for and the node; that about a new root its name and id. Errors of loading and saving a scene name the entry and the item that is broken, or pass on the text of what failed below. The fields of class! report the name of the field that is missing or of the wrong type, and the two differ.',
    ['inputs', 'histories'], 'every text of an error and of a log entry named in the statement, on every path that makes it',
    'Nothing in a test suite reads the text of a failure; a report that names the wrong node, index or reason sends the user the wrong way exactly when something has gone wrong.',
    [NB, TP, TR, NS, DR], [('errors', NB + ': NodeError'), ('pointer errors', TP + ': TPError'), ('failing unwraps', TR + ': TreeResult::unwrap, fail'), ('entries', NB + ': add_child, remove_child'), ('loading', NS + ': NodeScene::load_from_str'), ('fields', DR + ': class!')],
    'The wording around the details is free. Entries of the log that users post, the layout of an entry (P13, P34), and which failures happen when (P08, P15, P19, P30) are not part of it.',
    technique='static analysis: path-sensitive dataflow over rustc MIR (provenance of every part of a formatted text)')
