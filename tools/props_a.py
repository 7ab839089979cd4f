N = 'node_tree_core/src/structs/'
P = []


def add(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note))


add('P01', 'A frame runs exactly the nodes the status and process modes allow',
    'In every frame of an active tree each node that is in the tree when its turn comes runs exactly once, parents before their children and children in their order: its process hook iff the tree is running (or has termination queued) and its effective mode allows it (always; pausable when not paused; inverse when paused; inherit means the parent\'s effective mode, pausable at the root), its terminal hook with the tree-exit reason iff the tree is terminating, and nothing once it is terminated. Every process hook of a frame is given the time since the previous frame began. A branch is only cut short when the tree is terminated during the frame.',
    ['inputs', 'histories', 'configurations'], 'every tree shape, tree status, combination of own and inherited process modes, and every set of nodes added or freed by hooks during the frame',
    'The tests run a handful of trees whose nodes are all in the default mode and never pause; nothing samples the inverse or always modes, deep inheritance, or nodes that disappear during the frame.',
    [N + 'node_tree_base.rs'], [('frame entry', N + 'node_tree_base.rs: NodeTreeBase::process'), ('recursive per-node step', N + 'node_tree_base.rs: NodeTreeBase::process_tail')],
    'All paths of the frame entry and the per-node step are enumerated; hook calls, receivers, order, deltas and inherited modes are compared with the documented matrix for every feasible combination. Timing accuracy of the clock is trusted.')
add('P02', 'The tree status only follows its documented life cycle',
    'A tree starts running; queueing termination takes a processing tree to queued (keeping whether it was paused) and does nothing in any other status; the end of a frame takes queued to terminating and terminating to terminated and changes nothing else; immediate termination always ends in terminated. A frame returns the status the tree is left in, a terminated tree stays terminated, and nothing else in the library changes the status.',
    ['histories'], 'every sequence of frames, queued and immediate terminations, including ones made by hooks in the middle of a frame',
    'The tests only run trees to their end; no test queues termination from a terminal hook, twice, or terminates mid-frame, and no test compares the returned status.',
    [N + 'node_tree_base.rs'], [('frame end', N + 'node_tree_base.rs: NodeTreeBase::process'), ('queueing', N + 'node_tree_base.rs: NodeTreeBase::queue_termination'), ('immediate', N + 'node_tree_base.rs: NodeTreeBase::terminate')],
    'Exact transition tables over all paths plus a whole-crate scan of the writers of the status.')
add('P03', 'Removing or freeing a branch ends every node of it exactly once',
    'When a child is removed by name or a node is freed, each node of that branch still in the tree has its terminal hook run exactly once, top down, with the reason for that operation (removed as child, or freed), and all of these hooks run before any node of the branch is detached or unregistered. Afterwards every node of the branch is unregistered and exactly the branch\'s root has left its parent\'s child list, the other children keeping their order; removal of a name that no child has changes nothing and says so. Freeing the root, and only the root, terminates the tree, and no other operation runs terminal hooks besides the terminating frame.',
    ['inputs', 'histories'], 'every tree, every node of it, every name, and hooks that free further nodes',
    'The tests free leaves one at a time and remove one child; none looks at the order, the reasons, the survivors or hooks that change the tree.',
    [N + 'node_base.rs'], [('free', N + 'node_base.rs: NodeBase::free'), ('remove_child', N + 'node_base.rs: NodeBase::remove_child')],
    'All paths of both operations; loops are shown to cover the whole branch list and hook receivers to be looked up after the previous hook. A hook that frees the node on which remove_child/free itself was called is outside the claim.')
