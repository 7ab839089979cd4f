from props_b import N, TB, NB
P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


NS = N + 'node_scene.rs'
INST = 'node_tree_core/src/traits/instanceable.rs'
add('P18', 'A saved scene loads again as the same scene',
    'Saving a scene as text and loading the text gives a scene with the same root, the same children in the same order below every node at every depth, and for every node the same type, name, ownership flag and exported fields (each field as the value its type converts it to; fields that have no value to export are left out), marked as coming from disk. While saving, the root gets the number 0 and the nodes below get different numbers counted in order. Loading refuses a saved text only if the type of a node is not registered or its own loading function refuses. save writes exactly that text to <path>/<name>.scn and load reads the whole file of a .scn path and loads it; both give an error if a file operation fails, and load refuses a path with another extension.',
    ['inputs'], 'every scene: any shape, depth and size, any names (with underscores too), any ownership, any fields',
    'The tests save and load one scene of three nodes and compare hashes only.',
    [NS], [('writer', NS + ': NodeScene::save_to_str, update_internal'), ('reader', NS + ': NodeScene::load_from_str'), ('files', NS + ': NodeScene::save, load')],
    'The grammar of the writer is read off all its paths and compared with that of the reader, by induction over the nodes in the order they are written. That printing and parsing TOML and rsplit_once/parse/format behave as documented is assumed; an exported field named "metadata" is excluded; that values survive from_value(to_value(x)) is P20.')
add('P19', 'Loading any text gives a scene or an error, never a panic',
    'load_from_str gives a scene or an error for every text, whatever its tables, metadata, keys and parents are: no panic, no failing index, no arithmetic overflow and no invalid pointer on the way; in particular for entries without metadata, of unknown type, with keys without number, children before their parents, or parents that do not exist. load gives a scene or an error for every path and file.',
    ['inputs'], 'every text, also malformed or hand-written documents, and every file',
    'The tests load no malformed document.',
    [NS], [('reader', NS + ': NodeScene::load_from_str, load'), ('places', NS + ': the cache of places by local number in load_from_str')],
    'All paths of the two functions; the operations that could fail are excluded by an invariant of the place cache that is shown to be inductive. What the registered loading function of a node type does (generated code and from_value) is the subject of P20 and P26; the TOML parser is assumed not to panic.')
add('P22', 'The structural hash takes in type, ownership and shape, and nothing else',
    'The structural hash of a scene, and what it feeds to any hasher, is made of, for each node from the root down in child order, the type name, the ownership flag and the number of children, and nothing else: scenes with equal types, ownership and shape hash equal whatever their names, numbers and fields are; a difference in any of the three, or in the order of children, gives a different sequence of hashed items. Hashing changes nothing.',
    ['inputs'], 'every scene of every shape',
    'The tests compare two equal hashes and never expect a difference.',
    [NS], [('routine', NS + ': NodeScene::internal_structural_hash'), ('entries', NS + ': NodeScene::structural_hash, <NodeScene as Hash>::hash')],
    'Decided on all paths. That different sequences of items give different hash values is up to the hasher; the sequence is prefix-free because each node tells the number of its children before them.')
add('P23', 'Building and instancing a scene keeps every node, once and in order',
    'A new scene holds the given node, no children, is its own owner and does not come from disk. append and append_as_owner add the given scene, with everything below it, behind the children, as not owning or owning, and change nothing else. Instancing (iterate) hands out every node of the scene exactly once, with its parent node (none for the root) and its own ownership flag, parents before children and siblings in order; a node is marked as just loaded, before it is handed out, exactly if its scene came from disk. A single node is handed out once, without parent and without ownership.',
    ['inputs'], 'every scene of every shape and size, every mix of loaded and fresh parts',
    'The tests build and instance three fixed scenes.',
    [NS, INST], [('building', NS + ': NodeScene::new, new_dyn, append, append_as_owner, children'), ('instancing', NS + ': <NodeScene as Instanceable>::iterate; ' + INST)],
    'The step from a node to its children is decided for all nodes; by induction the whole scene.')
add('P24', 'Copies of scenes and saved branches are the same scene with new nodes',
    'Copying a scene gives a scene with new nodes of the same types and with the fields their clone_as_instance gives, the same names, numbers, ownership and disk flags, and copies of all children in order, and leaves the original as it is. save_as_branch gives a scene with a new copy of the node and of every node below it, in the order of the child lists, where the root and every node that owns itself are owners and the others are not, and nothing comes from disk; the tree is left unchanged; it panics for a node outside of a tree. A copy of a node base has the name of the original but no tree, parent, owner, children or loaded mark.',
    ['inputs', 'histories'], 'every scene, every node of every tree and every branch shape',
    'The tests save one branch and compare a hash.',
    [NS, NB], [('copies', NS + ': <NodeScene as Clone>::clone'), ('branches', NB + ': NodeBase::save_as_branch, save_as_branch_tail'), ('bases', NB + ': <NodeBase as Clone>::clone')],
    'Decided by induction over the child lists. That clone_as_instance copies the fields of a node is up to the generated code (P26); that children of a node are registered is P03.')
