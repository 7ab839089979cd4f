from props_b import N, TB, NB
P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


NP = N + 'node_path.rs'
add('P11', 'A path is its text cut at slashes; printing and node paths are exact',
    'Parsing a text gives, in order, one segment for each non-empty piece between slashes: "." is the node itself, ".." the parent, any other piece a node of exactly that name; the path is absolute iff the text begins with a slash. Adding a node name appends that one segment (nothing for an empty name). Printing gives a slash if the path is absolute and the text of each segment with single slashes in between, so that parsing a printed path gives the path back. Taking the first segment gives its text and leaves the rest. new and new_abs are empty. The absolute path of a node is absolute and holds the names from the root down to the node.',
    ['inputs', 'histories'], 'every text, every path, every node at every depth of every tree',
    'The tests parse a handful of well-formed paths and never print one.',
    [NP, NB], [('parsing', NP + ': NodePath::from_str, PathSeg::parse'), ('printing', NP + ': NodePath::to_string'), ('adding', NP + ': NodePath::add_node'), ('node paths', NB + ': NodeBase::get_absolute_path')],
    'All paths, for all texts by cases of one piece. For names that hold a slash, or are "." or "..", parsing back is not claimed. The nodepath! macro and the Debug text are not examined.')
add('P12', 'A path leads to the node its segments name, or nowhere',
    'Resolving a path from a node: no segment leads to the node itself; "." stays; ".." goes to the parent and leads nowhere at the root; a name goes to a child with exactly that name and leads nowhere if no child has it; the rest of the path is resolved from there. A relative path is resolved from its caller (nowhere without one); an absolute path leads nowhere unless its first segment is the name of the root, and is otherwise resolved from the root. Looking a node up (get_node, get_node_dyn) gives a pointer to the node the path leads to, and otherwise an InvalidPath error holding the path, or WrongType for a node of another type. Resolving changes nothing and does not panic in a tree.',
    ['inputs', 'histories'], 'every path (any length, any mix of segments), every node of every tree, every caller',
    'The tests resolve one child and one singleton.',
    [NP, NB, TB], [('resolver', NB + ': NodeBase::get_node_raw'), ('start', NP + ': <NodePath as NodeGetter>::get_from'), ('lookups', NB + ': NodeBase::get_node, get_node_dyn')],
    'The step of the resolver is decided for every case, and by induction every path; that sibling names are unique is P05, that children and parents are registered is P03 and P06.')
add('P32', 'Walking down from a node gives every node below once, layer by layer',
    'top_down lists the node itself iff asked, then its children in order, then all of their children in order, and so on, until a layer has no children: each node below exactly once, parents before children, siblings in the order of the child list. Nothing else is listed and nothing is changed.',
    ['inputs', 'histories'], 'every tree of every shape and size, every node, both values of contains_self',
    'The tests walk one small tree.',
    [NB], [('walk', NB + ': NodeBase::top_down')],
    'The step from a layer to the next is decided for all layers, by induction the walk. That each node is the child of one parent is P06; termination follows from the tree being finite and acyclic (P06).')
add('P30', 'A node reports its own links: children, parent, owner, depth, state',
    'get_child and get_child_dyn give, for an index below the number of children, the child at that place of the child list, and otherwise an IndexOutOfRange error holding the index and the number of children; children gives a pointer to every child, in order; parent and parent_dyn give the parent, or a NoParent error where there is none; owner and owner_dyn give the owner; this and this_dyn the node itself. A typed lookup gives WrongType for a relative of another type. All of these pointers and errors are attached to the node and its tree, and all of these operations panic for a node outside of a tree. depth, name, rid and has_just_loaded give the recorded values; in_tree and is_stray say whether the node has a tree, is_root whether it has a tree and no parent, is_owner whether it is its own owner; num_children and childless (in a tree) count the child list. None of them changes or logs anything.',
    ['inputs', 'histories'], 'every node in every tree and outside of one, every index, every type asked for',
    'The tests ask for a few children that exist, of the right type.',
    [NB], [('relatives', NB + ': NodeBase::get_child, get_child_dyn, children, parent, parent_dyn, owner, owner_dyn, this, this_dyn'), ('state', NB + ': NodeBase::depth, name, rid, in_tree, is_stray, is_root, is_owner, num_children, childless')],
    'Decided on all paths. That the recorded links are right and that relatives are registered is P03 and P06; paths that are undefined only if a link is broken are excluded by those.')
