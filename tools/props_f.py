from props_b import N, TB, NB
P = []


def add(id, title, statement, over, qtext, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **k))


EX = 'node_tree_core/src/traits/exportable.rs'
GL = 'node_tree_core/src/traits/glam_exportables.rs'
add('P20', 'Every exported value reads back as itself, and reading never panics',
    'For every exportable type the crate provides (booleans, numbers, characters, strings, node paths, file paths, IP addresses, durations, dates, and options, boxes, shared pointers, mutexes, lists, sets, maps, arrays and tuples of exportable types), reading the TOML value it was written as gives that value again (durations up to the precision of seconds in a 64-bit float; file paths that are not Unicode and poisoned mutexes cannot be written). Reading any other TOML value never panics; a value of another kind, an array of another length than the tuple or array type needs, a text that is not one character long for a character, or a container with an element its type refuses, is refused. Only types without a value to save report that they are not saved, and an exported field does so exactly if its content does.',
    ['inputs'], 'every exportable type of the crate (not glam), every value of it, and every TOML value read as it',
    'No test saves or loads a field of most of these types; none reads a malformed value.',
    [EX, 'node_tree_core/src/structs/node_field.rs', 'node_tree_core/src/structs/rid.rs', 'node_tree_core/src/structs/tree_pointer.rs'], [('writers', EX + ': <T as Exportable>::to_value'), ('readers', EX + ': <T as Exportable>::from_value'), ('not saved', EX + ': Exportable::is_ghost_export, is_ghost_export_type')],
    'The term to_value returns is substituted into the paths of from_value, per type; components of a container by induction over the types. Numbers outside of the range of an integer type are cut off on reading; nothing is claimed for them. The text TOML prints and parses is assumed faithful.')
add('P21', 'Every glam value reads back as itself, and reading never panics',
    'With the feature glam, for every vector, mask, matrix, quaternion and affine transform the crate makes exportable, reading the TOML value it was written as gives that value again, every component in its place and to the full width of its type. Reading any other TOML value never panics; values of another kind, of another number of components, or with a component of another kind are refused.',
    ['inputs'], 'every exportable glam type, every value of it, and every TOML value read as it',
    'No test is built with the feature.',
    [GL], [('writers', GL + ': <T as Exportable>::to_value'), ('readers', GL + ': <T as Exportable>::from_value')],
    'The term to_value returns is substituted into the paths of from_value, per type. The constructors of glam are assumed to keep the named parts.')
NF = 'node_tree_core/src/structs/node_field.rs'
add('P25', 'A field of a node holds exactly the value last given, or is void and says so',
    'A regular or unique field holds the value it was made from or last given by write_valid; it is void after void() and after take(), which give back (as write_valid does) the value held before, none for a void field; is_reachable and is_void tell which; equal are void fields, and fields with equal values. Dereferencing and force_take give the value of a valid field and panic for a void one; every compound assignment (+= -= *= /= %= |= ^= &= <<= >>=), with a value or another field, applies exactly that operator once to the value in place, and panics if one of the fields is void, leaving the field as it was. A clone of a regular field holds a clone of its value (void stays void), a clone of a unique field is void; exported and default fields always hold a value: the one given, a clone on cloning, the default of the type for void() and default().',
    ['inputs', 'histories'], 'every kind of field, every operation and operator, every state and value, every sequence of operations',
    'The tests use fields of two types in one state.',
    [NF], [('fields', NF + ': Field, UniqueField, ExportableField, DefaultField'), ('operators', NF + ': AddAssign ... ShrAssign for each field, with T and with the field')],
    'Decided on all paths per state of the operands, for every content type; a history is a sequence of such steps. What the operators and clone of the content type do is the content\'s own. Ordering, hashing and printing of fields are not claimed.')
