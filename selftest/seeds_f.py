from seeds_a import PRE
EX = 'node_tree_core/src/traits/exportable.rs'
GL = 'node_tree_core/src/traits/glam_exportables.rs'
GLAM = dict(feat=', features = ["glam"]', deps='glam = "0.29"\ntoml_edit = "0.22"\n')
TOML = dict(deps='toml_edit = "0.22"\n')
U = 'use node_tree::prelude::*;\nuse toml_edit::Value;\n'
SEEDS = [
 dict(id='p20-option-flat', prop='P20', needs='a file in which an optional field holds a value of another type',
      breaks='a value that is refused is read as no value, so that the field is silently emptied', **TOML,
      edits=[(EX, 'Some(value) => Some(Some(T::from_value(value)?)),', 'Some(value) => Some(T::from_value(value)),')],
      demo=U + '''
fn main() {
    let text: Value = Some("12".to_string()).to_value();
    assert!(Option::<u32>::from_value(text).is_none());
    assert!(Option::<u32>::from_value(Some(12u32).to_value()) == Some(Some(12)));
    assert!(Option::<u32>::from_value(None::<u32>.to_value()) == Some(None));
    assert!(Option::<Option<u32>>::from_value(Some(None::<u32>).to_value()) == Some(Some(None)));
}
'''),
 dict(id='p20-set-skips', prop='P20', needs='a set with an element of another type',
      breaks='elements that are refused are dropped instead of refusing the set', **TOML,
      edits=[(EX, 'toml::Value::Array(arr) => arr.into_iter().map(|x| T::from_value(x)).collect::<Option<BTreeSet<T>>>(),', 'toml::Value::Array(arr) => Some(arr.into_iter().filter_map(|x| T::from_value(x)).collect::<BTreeSet<T>>()),')],
      demo=U + '''
use std::collections::BTreeSet;
fn main() {
    let mixed: Value = (1u32, "x".to_string()).to_value();
    assert!(BTreeSet::<u32>::from_value(mixed).is_none());
    let set: BTreeSet<u32> = [3, 1, 2].into_iter().collect();
    assert!(BTreeSet::<u32>::from_value(set.to_value()) == Some(set));
}
'''),
 dict(id='p20-u64-large', prop='P20', needs='an unsigned 64-bit number above the largest signed one',
      breaks='numbers from 2^63 on are written, but refused on reading', **TOML,
      edits=[(EX, 'toml::Value::Integer(i) => Some(i.into_value() as u64),', 'toml::Value::Integer(i) => i.into_value().try_into().ok(),')],
      demo=U + '''
fn main() {
    for n in [0u64, 1, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX] {
        assert!(u64::from_value(n.to_value()) == Some(n), "{n}");
    }
}
'''),
 dict(id='p20-map-trim', prop='P20', needs='a map with two keys that differ only in surrounding spaces',
      breaks='keys lose the spaces around them, and entries with them', **TOML,
      edits=[(EX, """                    .map(|(key, value)| V::from_value(value).map(|value| (key.to_string(), value)))
                    .collect::<Option<BTreeMap<String, V>>>()""", """                    .map(|(key, value)| V::from_value(value).map(|value| (key.trim().to_string(), value)))
                    .collect::<Option<BTreeMap<String, V>>>()""")],
      demo=U + '''
use std::collections::BTreeMap;
fn main() {
    let map: BTreeMap<String, u32> = [("a".to_string(), 1), (" a".to_string(), 2), ("".to_string(), 3)].into_iter().collect();
    assert!(BTreeMap::<String, u32>::from_value(map.to_value()) == Some(map));
}
'''),
 dict(id='p20-tuple-longer', prop='P20', needs='an array with more elements than the tuple has',
      breaks='an array that is too long is read as a tuple of its first elements', **TOML,
      edits=[(EX, 'if let [a, b, c, d, e] = arr.into_iter().collect::<Vec<_>>().as_slice() {', 'if let [a, b, c, d, e, ..] = arr.into_iter().collect::<Vec<_>>().as_slice() {')],
      demo=U + '''
fn main() {
    let six: Value = vec![1u32, 2, 3, 4, 5, 6].to_value();
    assert!(<(u32, u32, u32, u32, u32)>::from_value(six).is_none());
    assert!(<(u32, u32, u32, u32, u32)>::from_value((1u32, 2u32, 3u32, 4u32, 5u32).to_value()) == Some((1, 2, 3, 4, 5)));
}
'''),
 dict(id='p21-u64-narrow', prop='P21', needs='the feature glam and a component of 2^32 or more',
      breaks='the last component of a vector of 64-bit numbers is cut to 32 bits', **GLAM,
      edits=[(GL, 'return Some(g_u64::u64vec3(x.as_integer()? as u64, y.as_integer()? as u64, z.as_integer()? as u64));', 'return Some(g_u64::u64vec3(x.as_integer()? as u64, y.as_integer()? as u64, z.as_integer()? as u32 as u64));')],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    for v in [glam::U64Vec3::new(1, 2, 3), glam::U64Vec3::new(1 << 40, 1 << 41, 1 << 42), glam::U64Vec3::MAX] {
        assert!(glam::U64Vec3::from_value(v.to_value()) == Some(v), "{v}");
    }
}
'''),
 dict(id='p21-mat-transposed', prop='P21', needs='the feature glam and a matrix that is not symmetric',
      breaks='3x3 matrices of the aligned kind are read transposed', **GLAM,
      edits=[(GL, 'return Some(g_f32::mat3a(g_f32::Vec3A::from_value(x_axis.clone())?, g_f32::Vec3A::from_value(y_axis.clone())?, g_f32::Vec3A::from_value(z_axis.clone())?));',
              'return Some(g_f32::mat3a(g_f32::Vec3A::from_value(x_axis.clone())?, g_f32::Vec3A::from_value(y_axis.clone())?, g_f32::Vec3A::from_value(z_axis.clone())?).transpose());')],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    for m in [glam::Mat3A::IDENTITY, glam::Mat3A::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0])] {
        assert!(glam::Mat3A::from_value(m.to_value()) == Some(m), "{m}");
    }
}
'''),
 dict(id='p21-affine-missing', prop='P21', needs='the feature glam and a table without the translation',
      breaks='reading a transform without translation panics instead of refusing it', **GLAM,
      edits=[(GL, 'g_f64::DVec3::from_value(table.remove("translation")?)?', 'g_f64::DVec3::from_value(table.remove("translation").unwrap())?')],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    let m = glam::DAffine3::from_translation(glam::DVec3::new(1.0, 2.0, 3.0));
    assert!(glam::DAffine3::from_value(m.to_value()) == Some(m));
    let mut v = m.to_value();
    v.as_inline_table_mut().unwrap().remove("translation");
    assert!(glam::DAffine3::from_value(v).is_none());
}
'''),
]
NF = 'node_tree_core/src/structs/node_field.rs'
SEEDS += [
 dict(id='p25-add-loses', prop='P25', needs='adding a void field to a valid one, and going on after the panic',
      breaks='the valid field is left void when the other one turns out to be void',
      edits=[(NF, """impl <T: ops::AddAssign> ops::AddAssign for UniqueField<T> {
    fn add_assign(&mut self, rhs: Self) {
        *self.deref_mut() += rhs.force_take();
""", """impl <T: ops::AddAssign> ops::AddAssign for UniqueField<T> {
    fn add_assign(&mut self, rhs: Self) {
        let mut sum: T = self.take().expect("Attempted to utilize a voided node field");
        sum += rhs.force_take();
        self.write_valid(sum);
""")],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    let mut a: UniqueField<u32> = UniqueField::new(3);
    a += UniqueField::new(4);
    assert!(*a == 7);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a += UniqueField::void()));
    assert!(r.is_err());
    assert!(a.is_reachable() && *a == 7);
}
'''),
 dict(id='p25-xor-sets', prop='P25', needs='an exclusive or of a default field with a value that shares bits with it',
      breaks='^= with a value sets the bits both have instead of clearing them',
      edits=[(NF, """impl <T: ops::BitXorAssign + Default> ops::BitXorAssign<T> for DefaultField<T> {
    fn bitxor_assign(&mut self, rhs: T) {
        *self.deref_mut() ^= rhs;
""", """impl <T: ops::BitXorAssign + ops::BitOrAssign + Default> ops::BitXorAssign<T> for DefaultField<T> {
    fn bitxor_assign(&mut self, rhs: T) {
        *self.deref_mut() |= rhs;
""")],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    let mut a: DefaultField<u8> = DefaultField::new(0b0011);
    a ^= 0b1100;
    assert!(*a == 0b1111);
    a ^= 0b0101;
    assert!(*a == 0b1010);
}
'''),
 dict(id='p25-void-shift', prop='P25', needs='a shift of a void field, as it is after cloning a node',
      breaks='shifting a void unique field does nothing instead of panicking',
      edits=[(NF, """impl <T: ops::ShlAssign> ops::ShlAssign<T> for UniqueField<T> {
    fn shl_assign(&mut self, rhs: T) {
        *self.deref_mut() <<= rhs;
""", """impl <T: ops::ShlAssign> ops::ShlAssign<T> for UniqueField<T> {
    fn shl_assign(&mut self, rhs: T) {
        if let Self::Valid(value) = self {
            *value <<= rhs;
        }
""")],
      demo='use node_tree::prelude::*;\n' + '''
fn main() {
    let mut a: UniqueField<u32> = UniqueField::new(3);
    a <<= 2;
    assert!(*a == 12);
    let mut b = a.clone();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b <<= 1)).is_err());
}
'''),
]
