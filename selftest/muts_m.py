"""field wrappers"""
NF = 'node_tree_core/src/structs/node_field.rs'


def op(ty, tr, m, sym, bound='', field=True, body=None):
    b = 'ops::%s%s' % (tr, bound)
    rhs = 'Self' if field else 'T'
    return ("impl <T: %s> ops::%s%s for %s<T> {\n    fn %s(&mut self, rhs: %s) {\n" % (b, tr, '' if field else '<T>', ty, m, rhs)) + '        ' + body + '\n'


def opm(mid, kind, ty, tr, m, old, new, bound='', field=True):
    return (mid, kind, ['P25'] if kind == 'bug' else [], [(NF, op(ty, tr, m, '', bound, field, old), op(ty, tr, m, '', bound, field, new))])


HF = "impl <T> Field<T> {\n"
TAKE = """    pub fn take(&mut self) -> Option<T> {
        match self {
            Self::Valid(_) => {
                let out: Self = mem::replace(self, Self::Void);
                Some(out.force_take())
            },
            Self::Void => None
        }
    }

    /// Forcefully consumes the `%s<T>`, returning `T`."""
FT = """    /// Forcefully consumes the `%s<T>`, returning `T`.
    ///
    /// # Panics
    /// Panics if `T` is unreacheable!
    pub fn force_take(self) -> T {
        match self {
            Self::Valid(t) => t,
            Self::Void     => panic!("Attempted to utilize a voided node field")
        }
    }"""
NEW = """    /// Creates a new `%s<T>`.
    pub fn new(item: T) -> Self {
        Self::Valid(item)
    }

    /// Writes a valid state to the node field.
    /// Returns the old valid state if there is one.
    pub fn write_valid(&mut self, item: T) -> Option<T> {
        let old_item: Option<T> = self.take();
        *self = Self::Valid(item);
        old_item
    }

    /// Checks if the container's item is valid.
    pub fn is_reachable(&self) -> bool {
        match self {
            Self::Valid(_) => true,
            Self::Void     => false
        }
    }

    /// Checks if the container's item has been voided.
    pub fn is_void(&self) -> bool {
        match self {
            Self::Valid(_) => false,
            Self::Void     => true
        }
    }
"""
CLONE = """impl <T: Clone> Clone for Field<T> {
    fn clone(&self) -> Self {
        match self {
            Self::Valid(item) => Self::Valid(item.clone()),
            Self::Void        => Self::Void,
        }
    }
}"""
UCLONE = """impl <T> Clone for UniqueField<T> {
    fn clone(&self) -> Self {
        Self::Void
    }
}"""
DER = """impl <T> Deref for %s<T> {
    type Target = T;
    fn deref(&self) -> &Self::Target {
        match self {
            Self::Valid(valid) => valid,
            Self::Void         => panic!("Attempted to utilize a voided node field")
        }
    }
}"""
VOIDX = """impl <T: Exportable + Default> Voidable for ExportableField<T> {
    fn void() -> Self {
        Self::default()
    }
}"""
DERIVE = "#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]\npub enum UniqueField<T> {"


def rep(s, a, b, n=1):
    assert s.count(a) >= 1, a
    return s.replace(a, b)


def W(ty, a, b):
    return (NF, NEW % ty, rep(NEW % ty, a, b))


MUTS = [
 opm('fd-bug-sub-add', 'bug', 'Field', 'SubAssign', 'sub_assign', '*self.deref_mut() -= rhs.force_take();', '*self.deref_mut() += rhs.force_take();') if False else
 opm('fd-bug-shl-noop', 'bug', 'Field', 'ShlAssign', 'shl_assign', '*self.deref_mut() <<= rhs.force_take();', 'if let Self::Valid(v) = self { if let Self::Valid(r) = rhs { *v <<= r; } }'),
 opm('fd-bug-shr-silent', 'bug', 'UniqueField', 'ShrAssign', 'shr_assign', '*self.deref_mut() >>= rhs;', 'if self.is_reachable() { *self.deref_mut() >>= rhs; }', '', False),
 opm('fd-bug-mul-revive', 'bug', 'Field', 'MulAssign', 'mul_assign', '*self.deref_mut() *= rhs;', 'match self { Self::Valid(v) => *v *= rhs, Self::Void => { self.write_valid(rhs); } }', '', False),
 opm('fd-bug-rem-nothing', 'bug', 'DefaultField', 'RemAssign', 'rem_assign', '*self.deref_mut() %= rhs.0;', 'let mut rhs = rhs; std::mem::swap(&mut self.0, &mut rhs.0); self.0 %= rhs.0;', ' + Default'),
 opm('fd-bug-or-replace', 'bug', 'ExportableField', 'BitOrAssign', 'bitor_assign', '*self.deref_mut() |= rhs.0;', '*self = rhs;', ' + Exportable'),
 opm('fd-bug-void-first', 'bug', 'UniqueField', 'AddAssign', 'add_assign', '*self.deref_mut() += rhs.force_take();', 'let mut v = self.take().unwrap(); v += rhs.force_take(); self.write_valid(v);'),
 opm('fd-same-take-write', 'same', 'UniqueField', 'AddAssign', 'add_assign', '*self.deref_mut() += rhs.force_take();', 'let r: T = rhs.force_take(); let v: &mut T = self.deref_mut(); *v += r;'),
 opm('fd-same-match', 'same', 'Field', 'MulAssign', 'mul_assign', '*self.deref_mut() *= rhs;', 'match self { Self::Valid(v) => *v *= rhs, Self::Void => panic!("voided") }', '', False),
 opm('fd-same-call', 'same', 'Field', 'DivAssign', 'div_assign', '*self.deref_mut() /= rhs.force_take();', 'ops::DivAssign::div_assign(&mut **self, rhs.force_take());'),
 opm('fd-same-delegate', 'same', 'Field', 'SubAssign', 'sub_assign', '*self.deref_mut() -= rhs.force_take();', '*self -= rhs.force_take();'),
 opm('fd-same-field', 'same', 'DefaultField', 'RemAssign', 'rem_assign', '*self.deref_mut() %= rhs.0;', 'self.0 %= rhs.0;', ' + Default'),
 opm('fd-same-value', 'same', 'ExportableField', 'BitOrAssign', 'bitor_assign', '*self.deref_mut() |= rhs.0;', 'let Self(value) = rhs; self.0 |= value;', ' + Exportable'),
 ('fd-bug-take-keeps', 'bug', ['P25'], [(NF, TAKE % 'Field', rep(TAKE % 'Field', 'let out: Self = mem::replace(self, Self::Void);\n                Some(out.force_take())', 'let out: Self = unsafe { std::ptr::read(self) };\n                Some(out.force_take())'))]),
 ('fd-bug-write-keeps', 'bug', ['P25'], [W('UniqueField', 'let old_item: Option<T> = self.take();\n        *self = Self::Valid(item);\n        old_item', 'match self { Self::Valid(_) => Some(item), Self::Void => { *self = Self::Valid(item); None } }')]),
 ('fd-bug-write-returns-new', 'bug', ['P25'], [W('Field', 'let old_item: Option<T> = self.take();\n        *self = Self::Valid(item);\n        old_item', 'let was = self.is_void();\n        *self = Self::Valid(item);\n        if was { return None; }\n        None')]),
 ('fd-bug-reachable', 'bug', ['P25'], [W('Field', 'Self::Valid(_) => false,\n            Self::Void     => true', 'Self::Valid(_) => true,\n            Self::Void     => true')]),
 ('fd-same-write', 'same', [], [W('Field', 'let old_item: Option<T> = self.take();\n        *self = Self::Valid(item);\n        old_item', 'match mem::replace(self, Self::new(item)) {\n            Self::Valid(old) => Some(old),\n            Self::Void       => None\n        }')]),
 ('fd-same-matches', 'same', [], [W('Field', 'match self {\n            Self::Valid(_) => false,\n            Self::Void     => true\n        }', '!self.is_reachable()'), W('UniqueField', 'match self {\n            Self::Valid(_) => true,\n            Self::Void     => false\n        }', 'matches!(self, Self::Valid(_))')]),
 ('fd-same-take', 'same', [], [(NF, TAKE % 'Field', rep(TAKE % 'Field', """        match self {
            Self::Valid(_) => {
                let out: Self = mem::replace(self, Self::Void);
                Some(out.force_take())
            },
            Self::Void => None
        }""", """        if let Self::Valid(out) = mem::replace(self, Self::Void) {
            return Some(out);
        }
        None"""))]),
 ('fd-same-force', 'same', [], [(NF, FT % 'UniqueField', rep(FT % 'UniqueField', """        match self {
            Self::Valid(t) => t,
            Self::Void     => panic!("Attempted to utilize a voided node field")
        }""", """        let Self::Valid(t) = self else { panic!("Attempted to utilize a voided node field") };
        t"""))]),
 ('fd-same-force-expect', 'same', [], [(NF, FT % 'Field', rep(FT % 'Field', """pub fn force_take(self) -> T {
        match self {
            Self::Valid(t) => t,
            Self::Void     => panic!("Attempted to utilize a voided node field")
        }""", """pub fn force_take(mut self) -> T {
        match &mut self {
            Self::Valid(_) => (),
            Self::Void     => panic!("Attempted to utilize a voided node field")
        }
        match self { Self::Valid(t) => t, Self::Void => unreachable!() }"""))]),
 ('fd-bug-force-zero', 'bug', ['P25'], [(NF, FT % 'UniqueField', rep(FT % 'UniqueField', 'panic!("Attempted to utilize a voided node field")', 'unsafe { std::mem::zeroed() }'))]),
 ('fd-bug-clone-void', 'bug', ['P25'], [(NF, CLONE, rep(CLONE, 'Self::Valid(item) => Self::Valid(item.clone()),', 'Self::Valid(_)    => Self::Void,'))]),
 ('fd-bug-unique-clone', 'bug', ['P25'], [(NF, UCLONE, """impl <T> Clone for UniqueField<T> {
    fn clone(&self) -> Self {
        unsafe { std::ptr::read(self) }
    }
}""")]),
 ('fd-same-clone', 'same', [], [(NF, CLONE, """impl <T: Clone> Clone for Field<T> {
    fn clone(&self) -> Self {
        if let Self::Valid(item) = self {
            return Self::new(item.to_owned());
        }
        Self::void()
    }
}"""), (NF, UCLONE, rep(UCLONE, 'Self::Void', 'Self::void()'))]),
 ('fd-bug-deref-ub', 'bug', ['P25'], [(NF, DER % 'Field', rep(DER % 'Field', 'panic!("Attempted to utilize a voided node field")', 'unsafe { std::hint::unreachable_unchecked() }'))]),
 ('fd-same-deref', 'same', [], [(NF, DER % 'UniqueField', rep(DER % 'UniqueField', """        match self {
            Self::Valid(valid) => valid,
            Self::Void         => panic!("Attempted to utilize a voided node field")
        }""", """        if self.is_void() {
            panic!("Attempted to utilize a voided node field");
        }
        let Self::Valid(valid) = self else { unreachable!() };
        valid"""))]),
 ('fd-same-deref-helper', 'same', [], [(NF, DER % 'Field', (rep(DER % 'Field', """        match self {
            Self::Valid(valid) => valid,
            Self::Void         => panic!("Attempted to utilize a voided node field")
        }""", """        self.as_option().expect("Attempted to utilize a voided node field")""")) + """

impl <T> Field<T> {
    fn as_option(&self) -> Option<&T> {
        match self {
            Self::Valid(valid) => Some(valid),
            Self::Void         => None
        }
    }
}""")]),
 ('fd-same-void', 'same', [], [(NF, VOIDX, rep(VOIDX, 'Self::default()', 'Self::new(T::default())'))]),
 ('fd-bug-eq', 'bug', ['P25'], [(NF, DERIVE, """impl <T: PartialEq> PartialEq for UniqueField<T> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Valid(a), Self::Valid(b)) => a == b,
            _                                => false
        }
    }
}

#[derive(Debug, Eq, PartialOrd, Ord)]
pub enum UniqueField<T> {""")]),
 ('fd-same-eq', 'same', [], [(NF, DERIVE, """impl <T: PartialEq> PartialEq for UniqueField<T> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Valid(a), Self::Valid(b)) => a == b,
            (Self::Void,     Self::Void)     => true,
            _                                => false
        }
    }
}

#[derive(Debug, Eq, PartialOrd, Ord)]
pub enum UniqueField<T> {""")]),
]
