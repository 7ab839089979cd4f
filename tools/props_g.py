P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


LIB = 'node_tree_derive/src/lib.rs'
PAR = 'node_tree_derive/src/parser.rs'
GEN = 'node_tree_derive/src/generator.rs'
NF = 'node_tree_core/src/structs/node_field.rs'
REG = 'node_tree_core/src/services/node_registry.rs'
EL = 'node_tree_core/src/traits/element.rs'
add('P26', 'class! and connect! make exactly the class and connection written down',
    'For every class written with class!, new() gives a node named like the class with every field of the kind and with the start value that was declared and every signal unconnected and its own; every hook that is defined overrides that Node method with its body and no other method is overridden; constants, functions, visibilities, attributes and `extends` implementations arrive as written. Saving a node writes a copy of every declared signal and field under its own name, and nothing else; loading makes a node with the class\'s name whose every field is read from the entry of that name (void where the type is never saved), fails if one is missing or unreadable, and never panics; every class registers such a loader under its type name before main. connect! gives the named signal a callback that hands the signal\'s values to the named method of the target: on every emission if written with `->`, on the next one only if written with `~>`.',
    ['inputs'], 'every documented form of declaration: kinds of fields, visibilities, start values, signals of every arity, hooks, functions, constants, extends, attributes, both forms of connect!',
    'The tests declare a few classes, look at none of their saved fields and start values, and load none with a missing field.',
    [LIB, PAR], [('class!', LIB + ': class'), ('connect!', LIB + ': connect'), ('derives', LIB + ': derive Abstract, Register'), ('grammar', PAR)],
    'The macros run over a witness crate with one class per form; the code they make is evaluated path by path in the compiled crate. Forms not in the witness crate are covered as far as they go through the same code of the macro.')
add('P27', 'scene! makes exactly the scene written down',
    'A scene! expression gives the scene that is written: for every node in it the constructor called with the parameters in their order, the name given (otherwise the class\'s), every setting applied to the field of that name and no other, in the order they are written (of two for one field, the last one stays), the children in their order and depth, and every linked scene in its place as a clone. Every parameter, name, setting and link expression may be any expression, is evaluated exactly once and in the order written, and may use every variable of the user, however it is named.',
    ['inputs'], 'every documented form of a scene: alone, named, with parameters, settings, children, links, all of them nested, trailing commas, any names of the user\'s variables',
    'The tests use one scene with names and one level of children.',
    [GEN, PAR, EL], [('scene!', GEN + ': generate_node'), ('grammar', PAR + ': SceneNode'), ('settings', EL + ': AsElement::wrap')],
    'The macro runs over a witness crate with one scene per form; the scene that each expression returns is evaluated from the compiled crate and compared with the tree written down.')
add('P31', 'Loading by name calls the loader registered under exactly that name',
    'Registering a loader enters it under exactly the name it is given and changes no other entry; the first registration creates the table and no later one replaces it. Loading a node by name calls the loader that was last registered under exactly this name, once, with all the fields given, and hands on its result; for a name without a loader it returns an error and does not panic.',
    ['inputs', 'histories'], 'every name, every loader, every set of fields, every sequence of registrations and loads',
    'The tests load only classes that are registered, and look at one class.',
    [REG], [('register', REG + ': register_deserializer'), ('load', REG + ': deserialize')],
    'Decided on all paths of both functions. DashMap is assumed to be a map. That registrations come before main and are not concurrent is the class macro\'s (P26).')
