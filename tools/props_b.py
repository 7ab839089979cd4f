from props_a import add as _add, N, P as _P
P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


TB, NB = N + 'node_tree_base.rs', N + 'node_base.rs'
add('P04', 'Ready and loaded run once per attached node, children first, after all attach',
    'Adding a scene to a node of a tree, and creating a tree from a scene, first attaches every node of the scene while no hook runs, and then walks over exactly the attached nodes in the reverse of the order they were attached in: a node that came from a saved scene has loaded() run once and loses its mark, and then ready() runs once; a node that an earlier hook freed is left out. Attaching a single node runs the same hooks for that node last, unless told to leave them to the caller. Nothing else in the library runs these two hooks.',
    ['inputs', 'histories'], 'every scene (shape, loaded marks, owners) and every effect of the hooks on the tree',
    'The tests look at which lines a fixed scene prints; none has hooks that free or add nodes, mixed loaded and fresh nodes, or a scene added to a running tree from a hook.',
    [NB, TB], [('add_child', NB + ': NodeBase::add_child, add_child_from_ptr'), ('tree construction', TB + ': NodeTreeBase::initialize'), ('hooks of one node', TB + ': NodeTreeBase::make_ready')],
    'All paths of the three operations; the list walked by the hook loop is shown to be the list of results of the attach loop, reversed. Call sites of the hooks are confined by a scan of the call graph.')
add('P05', 'Siblings always have different names',
    'A node attached to a parent, and a node of a tree that is renamed, gets a name no other child of that parent has: the wanted name itself whenever no sibling has it (a node does not collide with itself), and otherwise one that a search of all siblings\' names did not find. No other operation changes the name of a node that is in a tree.',
    ['inputs', 'histories'], 'every sequence of attaching and renaming, every set of sibling names including numeric suffixes and names that look generated',
    'The tests name a few children the same; names with large or missing suffixes, renames to the own name and suffixes already in use are not sampled.',
    [NB, 'node_tree_core/src/utils/functions.rs'], [('unique name', 'node_tree_core/src/utils/functions.rs: ensure_unique_name'), ('attach', NB + ': NodeBase::add_child_from_ptr'), ('rename', NB + ': NodeBase::set_name')],
    'The value written to the name is traced to ensure_unique_name over the names of all (other) children, and every path of that function is shown to return a name its last complete search did not find. That the search for a free suffix ends is not claimed. Names given to nodes outside of a tree are not compared.')
add('P06', 'Attached nodes are linked consistently to parent, owner, tree and depth',
    'A node attached to a node of a tree is registered once with that tree, and its own id, parent, owner (itself if it owns its scene, else the owner its parent hands on), tree and depth (parent\'s plus one) are set accordingly before any hook runs, with its id appended once to the parent\'s child list and nobody else\'s links changed. Attaching to a node outside of a tree panics. Every item of a scene is attached to the parent the scene names for it (the scene\'s root to the receiver), keeping its ownership mark; the root of a new tree has id 0, owns itself, has no parent and depth 0. Nothing but attaching, removing, freeing and scene building changes these links.',
    ['inputs', 'histories'], 'every scene, every node of a tree it is attached to, and every sequence of such operations',
    'The tests attach a few fixed scenes and look nodes up by path; owners, depths and the links of nodes added later or below other owners are not looked at.',
    [NB, TB], [('attach', NB + ': NodeBase::add_child_from_ptr'), ('scene', NB + ': NodeBase::add_child'), ('root', TB + ': NodeTreeBase::initialize')],
    'Values of the link fields at the end of every attaching path, and whole-crate scans of the writers of each field and callers of the raw setters.')
add('P07', 'Node ids are never reused and each names exactly one node',
    'Registering a node hands out an id no node had before (ids only grow; unregistering and emptying the table never make one available again), stores exactly that node under it with a path identity, and changes no other entry. Unregistering removes exactly the given id from the node table and the identities, and says whether it was there. Looking up one id returns exactly the node stored under it and nothing for an id that is not registered, without changing anything. The generic id table behaves the same (push, take, retrieve, modify, length, emptiness, made from a list).',
    ['inputs', 'histories'], 'every sequence of registering, unregistering and looking up',
    'The tests register a few nodes once; none frees nodes and adds others while holding on to old ids.',
    [N + 'rid.rs', TB], [('id table', N + 'rid.rs: RIDHolder'), ('tree table', TB + ': NodeTreeBase::register_node, unregister_node, get_node')],
    'Each operation is summarised over all its paths and compared with its equation; writers of counter and table are confined by scans. Overflow of the id counter is not considered.')
add('P10', 'A singleton name belongs to at most one node and is found until released',
    'Registering a singleton name for a node of the tree is refused with false, changing nothing, iff some node already has that name as its identity, says nothing for an id that is not registered, and otherwise releases the node\'s previous name, enters the new one for it and makes it the node\'s identity. Unregistering a node releases its name. Looking a name up by string gives exactly the id entered for it, and nothing for a name that is not entered. A node registers names for itself with its own tree. Nothing else changes the name table or the identities.',
    ['inputs', 'histories'], 'every sequence of registering names, renaming singletons and freeing nodes',
    'The one test with a singleton registers one name once; re-registration, conflicts and freed singletons are not sampled.',
    [TB, NB], [('register', TB + ': NodeTreeBase::register_as_singleton'), ('release', TB + ': NodeTreeBase::unregister_node'), ('lookup', TB + ': NodeGetter for String and &str')],
    'All paths of the operations; conflict decided by a complete search of the identities (or the table) recognised as a loop normal form; writers confined by scans.')
add('P28', 'Bulk lookups mirror the single lookup and never alias mutably',
    'Looking up several ids at once gives, for every id in the order given, exactly what looking it up alone gives: the full variants report an unknown id as an empty slot, the partial variants leave it out, and nothing else is added or dropped. The mutable variants panic when an id is given twice, before any node is handed out, and never otherwise.',
    ['inputs'], 'every list of ids (unknown, repeated, any order and length) and every tree',
    'No test calls the bulk lookups with repeated or unknown ids.',
    [TB], [('bulk lookups', TB + ': NodeTreeBase::get_nodes, get_all_valid_nodes, get_nodes_mut, get_all_valid_nodes_mut')],
    'The result of every path is shown to be the in-order image of the given ids under the table lookup; the duplicate check is recognised in its set and pairwise forms.')
