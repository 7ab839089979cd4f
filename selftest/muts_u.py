"""edits of comparing, hashing, ordering and copying (P39)"""
C = 'node_tree_core/src/'
TP = C + 'structs/tree_pointer.rs'
TO = C + 'structs/tree_option.rs'
NP = C + 'structs/node_path.rs'
NB = C + 'structs/node_base.rs'
TB = C + 'structs/node_tree_base.rs'
NF = C + 'structs/node_field.rs'
R = C + 'structs/rid.rs'
LG = C + 'structs/logger.rs'
Q = ['P39']
DER = '#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct TpDyn'
AT = "impl <'a> Deref for TpDyn<'a> {"
PATH = '#[derive(Clone, Default, Hash, PartialEq, Eq)]\npub struct NodePath'
PAT = 'impl fmt::Debug for NodePath {'


def dyn(drop, code):
    return [(TP, DER, '#[derive(%s)]\npub struct TpDyn' % ', '.join(x for x in ('Debug', 'Clone', 'Copy', 'PartialEq', 'Eq', 'Hash') if x not in drop)), (TP, AT, code + '\n' + AT)]


def path(drop, code):
    return [(NP, PATH, '#[derive(%s)]\npub struct NodePath' % ', '.join(x for x in ('Clone', 'Default', 'Hash', 'PartialEq', 'Eq') if x not in drop)), (NP, PAT, code + '\n' + PAT)]


def eq(ty, body, g=''):
    return 'impl %s PartialEq for %s {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}' % (g, ty, body)


def hs(ty, body, g=''):
    return 'impl %s std::hash::Hash for %s {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        %s\n    }\n}' % (g, ty, body)


D, G = "TpDyn<'a>", "<'a>"
ORD = '#[derive(Debug, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub enum Field<T> {'
ORD2 = '#[derive(Debug, Copy, PartialEq, Eq)]\npub enum Field<T> {'
OAT = 'impl <T: Clone> Clone for Field<T> {'
PO = 'impl <T: PartialOrd> PartialOrd for Field<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        %s\n    }\n}\nimpl <T: Ord> Ord for Field<T> {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        %s\n    }\n}\n'
P_OK = 'match (self, other) {\n            (Field::Valid(a), Field::Valid(b)) => a.partial_cmp(b),\n            (Field::Valid(_), Field::Void)     => Some(std::cmp::Ordering::Less),\n            (Field::Void, Field::Valid(_))     => Some(std::cmp::Ordering::Greater),\n            (Field::Void, Field::Void)         => Some(std::cmp::Ordering::Equal)\n        }'
C_OK = P_OK.replace('partial_cmp', 'cmp').replace('Some(', '').replace('Less)', 'Less').replace('Greater)', 'Greater').replace('Equal)', 'Equal')


def order(p, c):
    return [(NF, ORD, ORD2), (NF, OAT, PO % (p, c) + OAT)]


MUTS = [
 ('p39-eq-node', 'bug', Q, dyn(('PartialEq',), eq(D, 'self.node == other.node', G))),
 ('p39-eq-owner', 'bug', Q, dyn(('PartialEq',), eq(D, 'self.owner == other.owner && self.tree == other.tree', G))),
 ('p39-eq-or', 'bug', Q, dyn(('PartialEq',), eq(D, 'self.tree == other.tree && (self.node == other.node || self.owner == other.owner)', G))),
 ('p39-eq-valid', 'bug', Q, dyn(('PartialEq',), eq(D, 'self.is_valid() && self.tree == other.tree && self.owner == other.owner && self.node == other.node', G))),
 ('p39-eq-swapped', 'bug', Q, dyn(('PartialEq',), eq(D, 'self.tree == other.tree && self.owner == other.node && self.node == other.owner', G))),
 ('p39-hash-address', 'bug', Q, dyn(('Hash',), hs(D, '(self as *const Self as usize).hash(state); self.node.hash(state);', G))),
 ('p39-hash-valid', 'bug', Q, dyn(('Hash',), hs(D, 'self.node.hash(state); self.is_valid().hash(state);', G))),
 ('p39-clone-owner', 'bug', Q, dyn(('Clone', 'Copy'), "impl <'a> Copy for TpDyn<'a> {}\nimpl <'a> Clone for TpDyn<'a> {\n    fn clone(&self) -> Self {\n        TpDyn { owner: self.node, node: self.node, tree: self.tree, p_life: PhantomData }\n    }\n}")),
 ('p39-path-abs', 'bug', Q, path(('PartialEq',), eq('NodePath', 'self.path == other.path'))),
 ('p39-path-len', 'bug', Q, path(('PartialEq',), eq('NodePath', 'self.abs == other.abs && self.path.len() == other.path.len()'))),
 ('p39-path-clone', 'bug', Q, path(('Clone',), 'impl Clone for NodePath {\n    fn clone(&self) -> Self {\n        NodePath { path: self.path.clone(), abs: false }\n    }\n}')),
 ('p39-order-void', 'bug', Q, order(P_OK.replace('Less', 'X').replace('Greater', 'Less').replace('X', 'Greater'), C_OK)),
 ('p39-order-both', 'bug', Q, order(P_OK, C_OK.replace('a.cmp(b)', 'b.cmp(a)'))),
 ('p39-order-none', 'bug', Q, order(P_OK.replace('Some(std::cmp::Ordering::Equal)', 'None'), C_OK)),
 ('p39-rids-highest', 'bug', Q, [(R, '#[derive(Debug, Clone, Default)]\npub struct RIDHolder', '#[derive(Debug, Default)]\npub struct RIDHolder'), (R, 'impl <T> RIDHolder<T> {', 'impl <T: Clone> Clone for RIDHolder<T> {\n    fn clone(&self) -> Self {\n        RIDHolder { data: self.data.clone(), highest: self.data.len() as RID }\n    }\n}\nimpl <T> RIDHolder<T> {')]),
 ('p39-log-clone', 'bug', Q, [(LG, "#[derive(Debug, Clone)]\npub enum Log<'a> {", "#[derive(Debug)]\npub enum Log<'a> {"), (LG, "impl <'a >Log<'a> {", "impl <'a> Clone for Log<'a> {\n    fn clone(&self) -> Self {\n        match self {\n            Log::Debug(m) | Log::Info(m) => Log::Info(m),\n            Log::Warn(m)  => Log::Warn(m),\n            Log::Panic(m) => Log::Panic(m)\n        }\n    }\n}\nimpl <'a >Log<'a> {")]),
 # the same
 ('p39-eq-same', 'same', Q, dyn(('PartialEq',), eq(D, 'self.node == other.node && self.owner == other.owner && self.tree == other.tree', G))),
 ('p39-eq-tuple-same', 'same', Q, dyn(('PartialEq',), eq(D, '(self.tree, self.owner, self.node) == (other.tree, other.owner, other.node)', G))),
 ('p39-eq-ne-same', 'same', Q, dyn(('PartialEq',), eq(D, 'if self.node != other.node || self.owner != other.owner {\n            return false;\n        }\n        std::ptr::eq(self.tree, other.tree)', G))),
 ('p39-eq-helper-same', 'same', Q, dyn(('PartialEq',), eq(D, 'let TpDyn { owner, node, tree, .. } = *self;\n        let same_ids: bool = owner == other.owner && node == other.node;\n        same_ids && tree == other.tree', G))),
 ('p39-hash-same', 'same', Q, dyn(('Hash',), hs(D, 'self.node.hash(state);\n        self.owner.hash(state);', G))),
 ('p39-hash-tuple-same', 'same', Q, dyn(('Hash',), hs(D, '(self.owner, self.node).hash(state);', G))),
 ('p39-clone-same', 'same', Q, dyn(('Clone', 'Copy'), "impl <'a> Copy for TpDyn<'a> {}\nimpl <'a> Clone for TpDyn<'a> {\n    fn clone(&self) -> Self {\n        TpDyn { owner: self.owner, node: self.node, tree: self.tree, p_life: PhantomData }\n    }\n}")),
 ('p39-clone-star-same', 'same', Q, dyn(('Clone', 'Copy'), "impl <'a> Copy for TpDyn<'a> {}\nimpl <'a> Clone for TpDyn<'a> {\n    fn clone(&self) -> Self {\n        *self\n    }\n}")),
 ('p39-path-same', 'same', Q, path(('PartialEq',), eq('NodePath', 'self.abs == other.abs && self.path == other.path'))),
 ('p39-path-hash-same', 'same', Q, path(('Hash',), hs('NodePath', 'self.abs.hash(state);\n        for segment in self.path.iter() {\n            segment.hash(state);\n        }'))),
 ('p39-order-same', 'same', Q, order(P_OK, C_OK)),
 ('p39-order-some-same', 'same', Q, order('match (self, other) {\n            (Field::Valid(a), Field::Valid(b)) => a.partial_cmp(b),\n            _                                  => self.is_void().partial_cmp(&other.is_void())\n        }', C_OK)),
 ('p39-log-same', 'same', Q, [(LG, "#[derive(Debug, Clone)]\npub enum Log<'a> {", "#[derive(Debug, Clone, Copy)]\npub enum Log<'a> {")]),
]
