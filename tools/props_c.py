from props_b import N, TB, NB
P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


TP, TO, TR = N + 'tree_pointer.rs', N + 'tree_option.rs', N + 'tree_result.rs'
add('P08', 'Tree pointers reach exactly their node, or say why they cannot',
    'A typed or dynamic tree pointer can only be made for a node that is registered (typed: and has the asked type). Every access through it looks its node up again: if the node is still there with the right type it gives exactly that node; if it is gone it reports IsNull, for another type WrongType, and the panicking accesses report to the pointer\'s owner and panic. is_null and is_valid say exactly that. Converting a pointer (to dynamic, to typed, between traits, is_of) keeps its tree, owner and node and succeeds iff the node is there and of the asked type or trait. A pointer never changes which node it means.',
    ['inputs', 'histories'], 'every pointer, every state of its node (there, freed, of another type), every asked type',
    'The tests keep pointers to nodes that stay alive; pointers to freed nodes and failed conversions are not sampled.',
    [TP], [('typed', TP + ': Tp'), ('dynamic', TP + ': TpDyn')],
    'Every operation over the three states its node can be in; whether a type implements a trait is taken from the registered cast; the registration itself is not examined.')
add('P15', 'TreeOption and TreeResult behave like Option and Result',
    'Every operation of TreeOption and TreeResult gives, in every state of its operands, the value std\'s operation of the same name gives, leaves the receiver as std does, calls the functions it is given exactly as often and with the same values, and gives its result the tree and owner of the receiver. A failing expect, unwrap, expect_err or unwrap_err posts a panic to the owner\'s log, if the owner is in the tree, and panics; no other operation panics.',
    ['inputs'], 'every operand (present or not, ok or error, nested in each other) and every function given',
    'The tests unwrap a few results; none calls a combinator.',
    [TO, TR], [('option', TO + ': TreeOption'), ('result', TR + ': TreeResult')],
    'Every public operation case by case; unwrap_unchecked outside of its contract and iteration (std\'s own types) are not examined further.')
SG = N + 'signals.rs'
add('P16', 'An emission calls each live connection once; one-shots fire once ever',
    'Connecting stores the given callback under a new id and returns that id. Emitting calls every callback that was connected when the emission started exactly once with the emitted parameters, unless it has been disconnected by its turn, and calls nothing else. A one-shot connection is gone before it is called, so it can never be called again, not even by an emission from inside itself; other connections stay. Disconnecting removes exactly the given connection and says whether there was one. A cloned, default or void signal starts without connections and shares none with another; signals are never exported.',
    ['inputs', 'histories'], 'every sequence of connecting, disconnecting and emitting, also from inside callbacks',
    'The tests emit a signal with one connection; callbacks that disconnect, connect or emit again are not sampled.',
    [SG], [('connecting', SG + ': Signal::connect, connect_once'), ('emission', SG + ': Signal::emit'), ('disconnecting', SG + ': Signal::disconnect')],
    'All paths of the operations. In which order the connections are called is not claimed. That callbacks outlive the things they borrow is the unsafe contract of connect.')
add('P17', 'Library locks are never held while user code runs',
    'No lock of a signal or of a node is held while user code (callbacks, hooks, user-implemented methods, destructors of user values) runs or while the library logs, none is acquired again by a thread that holds it, each is released when the operation that took it ends, and no operation can fail with one held (poisoning it).',
    ['inputs', 'histories', 'schedules'], 'every use of signals and node status, including reentrant uses from callbacks',
    'A self-deadlock needs a callback that uses the signal that calls it; no test has one.',
    [SG, NB], [('signal locks', SG + ': Signal::connect, connect_once, emit, disconnect'), ('status lock', NB + ': NodeBase::status, set_status')],
    'Lock sets along all paths of every function that takes a lock. Mutexes exported by users (Exportable for Mutex<T>) are not included; arithmetic overflow is not considered a failure.')
LG = N + 'logger.rs'
add('P13', 'The verbosity alone decides what is logged; each entry is kept for good',
    'A message posted for a registered node is logged and printed iff the logger\'s verbosity lets its level through (All: everything; NoDebug: all but debug; OnlyIssues: warnings and panics; OnlyPanics: panics). A logged message is one line holding the time, the caller (its singleton name, else its absolute path in brackets), the level and the message, added behind all earlier text, which is never changed or removed; a message that is not let through changes nothing. Posting says whether a panic was logged; a panic, and nothing else, adds the crash report (header, caller in the tree, footer) behind its line. The verbosity of a logger never changes.',
    ['inputs', 'histories'], 'every verbosity, level, message, caller and earlier log',
    'The tests run at one verbosity and never read the log.',
    [LG], [('entries', LG + ': Logger::post_manual'), ('posting', LG + ': Logger::post'), ('levels', LG + ': Log::is_debug, is_problematic, is_panic')],
    'All 32 cells of (verbosity, level, kind of caller) decided on all paths; texts compared piece by piece. Layout of the tree drawing, colours and the correctness of the clock are not examined; posting for an id that is not registered is outside the property (it panics).')
add('P14', 'A posted panic marks its node and terminates the tree, nothing else does',
    'Posting from a node of a tree gives the message unchanged, once, to the node\'s own tree; a warning marks the node as just warned, a panic as just panicked, with the message, and other levels leave the status alone. Posting from a node outside of a tree panics. The tree is terminated at once by a panic and is not changed by any other message. Every frame that runs first sets the status of every node of the tree back to normal, before any hook; nothing else sets a status.',
    ['inputs', 'histories'], 'every message and level, every node and tree, every frame',
    'The tests never look at a node\'s status; that a panic stops the tree is only seen in one shape.',
    [NB, TB, LG], [('node', NB + ': NodeBase::post, status, set_status'), ('tree', TB + ': NodeTreeBase::post'), ('reset', TB + ': NodeTreeBase::process')],
    'All paths of posting and of a frame; that top_down(true) gives every node of the tree is P32. set_status is public and unsafe: user calls to it are not considered.')
