P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


NB = 'node_tree_core/src/structs/node_base.rs'
NT = 'node_tree_core/src/structs/node_tree_base.rs'
SIG = 'node_tree_core/src/structs/signals.rs'
NS = 'node_tree_core/src/structs/node_scene.rs'
TP = 'node_tree_core/src/structs/tree_pointer.rs'
REG = 'node_tree_core/src/services/node_registry.rs'
add('P09', 'What a hook frees is not used again by the operation that ran the hook',
    'A hook (ready, loaded, process, terminal) or a connected callback may free any node of the tree, the node it belongs to and the node whose operation is running included. Every library operation that runs hooks or callbacks (attaching, removing, freeing, processing, initialising, emitting a signal) afterwards touches no node and no signal through a reference or pointer it had before: a node is used again only after being looked up again by its id, and what is needed from it later is read before the hook or kept alive.',
    ['inputs', 'schedules', 'histories'], 'every tree, every operation that runs hooks, every hook or callback that frees any set of nodes in the middle of it',
    'A use after free shows only if a hook frees exactly the node the operation still holds, and even then usually reads the old bytes and passes.',
    [NB, NT, SIG], [('removing', NB + ': NodeBase::remove_child, free'), ('attaching', NB + ': NodeBase::add_child'), ('making ready', NT + ': NodeTreeBase::make_ready'), ('frame', NT + ': NodeTreeBase::process'), ('emission', SIG + ': Signal::emit')],
    'Every access through a pointer is compared with the epoch of the pointer\'s lookup, on all paths. The tree itself is assumed to outlive the operation; what user code does with its own references is not covered.',
    technique='static analysis: path-sensitive dataflow over rustc MIR with an epoch per user call (a temporal-safety / stale-pointer analysis)')
add('P29', 'Trees, nodes, scenes, signals and pointers cannot leave their thread',
    'Nothing that points into a tree can be sent to another thread or shared with one by safe code: node bases, every class made with class!, trees (TreeSimple and user-defined ones), scenes, signals, typed and dynamic tree pointers and the options and results made from them are neither Send nor Sync, whatever their type parameters are. Only the registry of loaders, which holds no pointer into a tree, is shared between threads.',
    ['programs', 'schedules'], 'every safe program, every type parameter',
    'A test compiles; that a program does not compile, no unit test shows, and a data race shows on some schedules only.',
    [NB, NT, SIG, NS, TP, REG], [('holders', TP + ': Tp, TpDyn'), ('registry', REG + ': Registry')],
    'The compiler\'s own answer is taken for each type, with type parameters that are themselves Send and Sync. Classes and trees are those of the witness crate.',
    technique='static analysis: auto-trait query to the type checker for every type, and a lint on unsafe impls')
add('P33', 'Memory of a node has one owner, who gives it back at most once',
    'A node is owned by exactly one holder: a scene until it is instanced, then the tree it is attached to. Memory of a node is given back only by the tree, after the node was taken out of its table, once for each removal; instancing, cloning, saving or dropping a scene frees no node, copying a scene gives it nodes of its own, and this also holds if user code panics in the middle. Disconnecting a signal never frees a callback (it may be the one that is running).',
    ['inputs', 'histories', 'fault_sequences'], 'every sequence of attaching, removing, freeing, cloning, saving and instancing, a panic of user code in the middle included',
    'A double free needs a particular order of operations or a panicking clone, and does not fail a test that does not run under a sanitizer.',
    [NB, NT, SIG, NS], [('taking a node out', NT + ': NodeTreeBase::unregister_node'), ('owning accessor', NS + ': NodeScene::get_node'), ('copies', NS + ': NodeScene::clone')],
    'Covers all places of the library that turn a raw pointer into an owner. The contracts of its unsafe functions are assumed of user code; leaks are not claimed to be absent.',
    technique='static analysis: ownership (typestate) analysis of raw pointers over rustc MIR, all paths, with a lint that finds every site')
LG = 'node_tree_core/src/structs/logger.rs'
FN = 'node_tree_core/src/utils/functions.rs'
add('P34', 'The crash report shows the tree around the caller, each node once and in order',
    'Each panic that is logged adds one report to the log and prints one; both hold, in this order, the crash header as it was last set, the drawing of the tree around the caller, the time of the logged panic, the exit code 1, and the crash footer as it was last set (set_default_header_on_panic and set_default_footer_on_panic set exactly the text they are given, empty texts included, and nothing else changes them). The drawing starts at the ancestor as many layers up as asked (the root if that is nearer). Below it every child of a drawn node stands on one line of its own, in the order of the children, as prefix, connector and name: the connector is └── exactly for the last of its siblings and ├── for all others. The lines of the branch below a child follow right behind its line, behind the same prefix and a column that is blank below a last sibling and holds a bar below the others; nothing below the start is left out in the layers asked for, and "..." stands for names only below the last of these. A node that just warned or just panicked is coloured (each in its own colour), others are not. After the tree the warnings, and then the panics, of the drawn nodes are listed under their headings, each once, in the order the nodes are drawn in, as name and message; None stands for an empty list.',
    ['inputs', 'histories'], 'every shape of tree, every caller, every set of nodes that warned or panicked, every header and footer',
    'The report is built by recursion over a tree of any shape; a wrong column, connector, order or omission shows only for certain shapes, and nothing but the eye compares reports.',
    [FN, LG], [('drawing', FN + ': draw_tree'), ('report', LG + ': Logger::post')],
    'The text is composed from the terms of all paths, by induction over the recursion: each child\'s share of the text is decided as a function of its place, its status and the layers left. Which colours and which words head the report is not fixed. Names that hold line breaks are drawn as they are.',
    technique='static analysis: symbolic text composition over rustc MIR, all paths of the drawing recursion')
