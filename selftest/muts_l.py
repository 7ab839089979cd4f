"""values written as TOML and read back"""
EX = 'node_tree_core/src/traits/exportable.rs'
GE = 'node_tree_core/src/traits/glam_exportables.rs'
NF = 'node_tree_core/src/structs/node_field.rs'


def intimpl(t, back=None, to=None):
    return """impl Exportable for %s {
    fn to_value(&self) -> toml::Value {
        (*self as %s).into()
    }

    fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
        match value {
            toml::Value::Integer(i) => %s,
            _                       => None
        }
    }
}""" % (t, to or 'i64', back or 'Some(i.into_value() as %s)' % t)


OPT = """            Some(value) => toml::InlineTable::from_iter(vec![("value".to_string(), value.to_value())]),"""
OPTR = """            toml::Value::InlineTable(mut table) => match table.remove("value") {
                Some(value) => Some(Some(T::from_value(value)?)),
                None        => Some(None)
            },"""
VECR = """            toml::Value::Array(arr) => arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>(),"""
HSR = """            toml::Value::Array(arr) => arr.into_iter().map(|x| T::from_value(x)).collect::<Option<HashSet<T>>>(),"""
T2 = """                if let [a, b] = arr.into_iter().collect::<Vec<_>>().as_slice() {
                    return Some((A::from_value(a.to_owned())?, B::from_value(b.to_owned())?))
                }
                None"""
ARR = """                if arr.len() != N {
                    return None;
                }

                arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?.try_into().ok()"""
CHR = """                if c.chars().count() != 1 {
                    None
                } else {
                    Some(c.chars().collect::<Vec<_>>()[0])
                }"""
HMS = """    fn to_value(&self) -> toml::Value {
        self.iter().map(|(k, v)| (k.to_owned(), (v.to_owned()).to_value())).collect::<toml::InlineTable>().into()
    }

    fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
        match value {
            toml::Value::InlineTable(table) => {
                table.into_iter()
                    .map(|(key, value)| V::from_value(value).map(|value| (key.to_string(), value)))
                    .collect::<Option<HashMap<String, V>>>()"""
HMC = """                    } else {
                        match V::from_value(value) {
                            Some(value) => Some((key.chars().collect::<Vec<_>>()[0], value)),
                            None        => None
                        }
                    }
                }).collect::<Option<HashMap<char, V>>>()"""
BV2 = """                    if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
                        return Some(g_bool::bvec2(x.as_bool()?, y.as_bool()?));
                    }
                    None"""
V3 = """return Some(g_f32::vec3(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32));"""
AFF = """        let table: &mut toml::InlineTable = value.as_inline_table_mut()?;

        Some(g_f32::Affine2::from_mat2_translation(
            g_f32::Mat2::from_value(table.remove("matrix2")?)?,
            g_f32::Vec2::from_value(table.remove("translation")?)?
        ))"""
MUTS = [
 ('ex-u32-i32', 'bug', ['P20'], [(EX, intimpl('u32'), intimpl('u32', 'Some(i.into_value() as i32 as u16 as u32)'))]),
 ('ex-u32-clamp', 'bug', ['P20'], [(EX, intimpl('u32'), intimpl('u32', 'Some(i.into_value().clamp(0, i32::MAX as i64) as u32)'))]),
 ('ex-u64-try', 'bug', ['P20'], [(EX, intimpl('u64'), intimpl('u64', 'i.into_value().try_into().ok()'))]),
 ('ex-i8-abs', 'bug', ['P20'], [(EX, intimpl('i8'), intimpl('i8', 'Some(i.into_value().unsigned_abs() as i8)'))]),
 ('ex-u8-unwrap', 'bug', ['P20'], [(EX, intimpl('u8'), intimpl('u8', 'Some(u8::try_from(i.into_value()).unwrap())'))]),
 ('ex-f32-text', 'bug', ['P20'], [(EX, "        (*self as f64).into()", "        ((*self as f64 * 1000.0).round() / 1000.0).into()")]),
 ('ex-opt-key', 'bug', ['P20'], [(EX, OPT, OPT.replace('"value"', '"some"'))]),
 ('ex-opt-flat', 'bug', ['P20'], [(EX, OPTR, OPTR.replace('Some(Some(T::from_value(value)?))', 'Some(T::from_value(value))'))]),
 ('ex-opt-none', 'bug', ['P20'], [(EX, OPTR, OPTR.replace('None        => Some(None)', 'None        => None'))]),
 ('ex-vec-skip', 'bug', ['P20'], [(EX, VECR, VECR.replace('.map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()', '.map(|x| T::from_value(x)).filter(|x| x.is_some()).collect::<Option<Vec<T>>>()'))]),
 ('ex-vec-flat', 'bug', ['P20'], [(EX, VECR, VECR.replace('arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()', 'Some(arr.into_iter().filter_map(|x| T::from_value(x)).collect::<Vec<T>>())'))]),
 ('ex-vec-rev', 'bug', ['P20'], [(EX, "let arr: toml::Array = toml::Array::from_iter(self.iter().map(|v| (v.to_owned()).to_value()));", "let arr: toml::Array = toml::Array::from_iter(self.iter().rev().map(|v| (v.to_owned()).to_value()));")]),
 ('ex-vec-first', 'bug', ['P20'], [(EX, "let arr: toml::Array = toml::Array::from_iter(self.iter().map(|v| (v.to_owned()).to_value()));", "let arr: toml::Array = toml::Array::from_iter(self.iter().take(1024).map(|v| (v.to_owned()).to_value()));")]),
 ('ex-pair-swap', 'bug', ['P20'], [(EX, "impl <A: Exportable, B: Exportable> Exportable for (A, B) {\n    fn to_value(&self) -> toml::Value {\n        toml::Value::Array(toml::Array::from_iter(vec![self.0.to_value(), self.1.to_value()]))", "impl <A: Exportable, B: Exportable> Exportable for (A, B) {\n    fn to_value(&self) -> toml::Value {\n        toml::Value::Array(toml::Array::from_iter(vec![self.1.to_value(), self.0.to_value()]))")]),
 ('ex-pair-longer', 'bug', ['P20'], [(EX, T2, T2.replace('[a, b] =', '[a, b, ..] ='))]),
 ('ex-arr-nolen', 'bug', ['P20'], [(EX, ARR, ARR.replace("arr.len() != N", "arr.len() < N").replace('arr.into_iter()', 'arr.into_iter().take(N)'))]),
 ('ex-arr-unwrap', 'bug', ['P20'], [(EX, ARR, """                let all: Vec<T> = arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?;
                Some(all.try_into().unwrap_or_else(|_| panic!("wrong number of elements")))""")]),
 ('ex-char-bytes', 'bug', ['P20'], [(EX, CHR, CHR.replace('c.chars().count()', 'c.len()'))]),
 ('ex-char-first', 'bug', ['P20'], [(EX, CHR, "                c.chars().next()")]),
 ('ex-char-any', 'bug', ['P20'], [(EX, CHR, "                Some(c.chars().collect::<Vec<_>>()[0])")]),
 ('ex-map-lower', 'bug', ['P20'], [(EX, HMS, HMS.replace("(k.to_owned(), (v", "(k.to_lowercase(), (v"))]),
 ('ex-map-skip', 'bug', ['P20'], [(EX, HMS, HMS.replace(".map(|(key, value)| V::from_value(value).map(|value| (key.to_string(), value)))", ".filter(|(key, _)| !key.is_empty())\n                    .map(|(key, value)| V::from_value(value).map(|value| (key.to_string(), value)))"))]),
 ('ex-map-trim', 'bug', ['P20'], [(EX, HMS, HMS.replace("(key.to_string(), value)", "(key.trim().to_string(), value)"))]),
 ('ex-dur-secs', 'bug', ['P20'], [(EX, "self.as_secs_f64().to_value()", "(self.as_secs() as f64).to_value()")]),
 ('ex-dur-panic', 'bug', ['P20'], [(EX, "time::Duration::try_from_secs_f64(value.as_float()?).ok()", "Some(time::Duration::from_secs_f64(value.as_float()?))")]),
 ('ex-ghost-arc', 'bug', ['P20'], [(EX, "impl <T: Exportable> Exportable for std::sync::Arc<T> {\n", "impl <T: Exportable> Exportable for std::sync::Arc<T> {\n    unsafe fn is_ghost_export(&self) -> bool { std::sync::Arc::strong_count(self) > 1 }\n\n")]),
 ('ex-field-ghost', 'bug', ['P20'], [(NF, "T::is_ghost_export_type()", "!T::is_ghost_export_type()")]),
 ('ex-path-name', 'bug', ['P20'], [(EX, "self.to_owned().to_string().to_value()", "self.to_owned().to_string().trim_end_matches('/').to_string().to_value()")]),
 ('ex-bool-int', 'bug', ['P20'], [(EX, "toml::Value::Boolean(b) => Some(b.into_value()),", "toml::Value::Boolean(b) => Some(b.into_value()),\n            toml::Value::Integer(i) => Some(i.into_value() != 0),")]),
 ('ex-mutex-new', 'bug', ['P20'], [(EX, "self.lock().unwrap_or_else(|err| panic!(\"Serialization failed: {err}\")).to_value()", "match self.try_lock() { Ok(inner) => inner.to_value(), Err(_) => toml::Value::from(false) }")]),
 ('gl-vec3-order', 'bug', ['P21'], [(GE, V3, V3.replace("y.as_float()? as f32, z.as_float()? as f32", "z.as_float()? as f32, y.as_float()? as f32"))]),
 ('gl-vec3-int', 'bug', ['P21'], [(GE, V3, V3.replace("y.as_float()? as f32", "y.as_integer()? as f32"))]),
 ('gl-mat2-t', 'bug', ['P21'], [(GE, "return Some(g_f32::mat2(g_f32::Vec2::from_value(x_axis.clone())?, g_f32::Vec2::from_value(y_axis.clone())?));", "return Some(g_f32::mat2(g_f32::Vec2::from_value(x_axis.clone())?, g_f32::Vec2::from_value(y_axis.clone())?).transpose());")]),
 ('gl-quat-norm', 'bug', ['P21'], [(GE, "return Some(g_f32::quat(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32, w.as_float()? as f32));", "return Some(g_f32::quat(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32, w.as_float()? as f32).normalize());")]),
 ('gl-affine-key', 'bug', ['P21'], [(GE, AFF, AFF.replace('"translation"', '"translate"'))]),
 ('gl-affine-default', 'bug', ['P21'], [(GE, AFF, AFF.replace('g_f32::Vec2::from_value(table.remove("translation")?)?', 'g_f32::Vec2::from_value(table.remove("translation")?).unwrap()'))]),
 ('gl-bvec-z', 'bug', ['P21'], [(GE, "from_iter(vec![self.x, self.y, self.z])", "from_iter(vec![self.x, self.y, self.y])")]),
 ('gl-bvec-longer', 'bug', ['P21'], [(GE, BV2, BV2.replace("[x, y]", "[x, y, ..]"))]),
 # same
 ('ex-same-tryint', 'same', [], [(EX, intimpl('u32'), intimpl('u32', 'u32::try_from(i.into_value()).ok()'))]),
 ('ex-same-from', 'same', [], [(EX, intimpl('u16'), intimpl('u16').replace('(*self as i64).into()', 'i64::from(*self).into()'))]),
 ('ex-same-asint', 'same', [], [(EX, intimpl('u8'), intimpl('u8').replace("""        match value {
            toml::Value::Integer(i) => Some(i.into_value() as u8),
            _                       => None
        }""", "        value.as_integer().map(|i| i as u8)"))]),
 ('ex-same-letelse', 'same', [], [(EX, intimpl('u8'), intimpl('u8').replace("""        match value {
            toml::Value::Integer(i) => Some(i.into_value() as u8),
            _                       => None
        }""", "        let toml::Value::Integer(i) = value else { return None; };\n        Some(*i.value() as u8)"))]),
 ('ex-same-variant', 'same', [], [(EX, intimpl('u8'), intimpl('u8').replace("(*self as i64).into()", "toml::Value::Integer(toml::Formatted::new(*self as i64))"))]),
 ('ex-same-opt', 'same', [], [(EX, """        let map: toml::InlineTable = match self {
            Some(value) => toml::InlineTable::from_iter(vec![("value".to_string(), value.to_value())]),
            None        => toml::InlineTable::new()
        };

        map.into()""", """        let mut map: toml::InlineTable = toml::InlineTable::new();
        if let Some(value) = self {
            map.insert("value", value.to_value());
        }
        toml::Value::InlineTable(map)""")]),
 ('ex-same-optr', 'same', [], [(EX, OPTR, OPTR.replace("""match table.remove("value") {
                Some(value) => Some(Some(T::from_value(value)?)),
                None        => Some(None)
            },""", """{
                let Some(value) = table.remove("value") else { return Some(None); };
                T::from_value(value).map(Some)
            },"""))]),
 ('ex-same-vecloop', 'same', [], [(EX, VECR, """            toml::Value::Array(arr) => {
                let mut all: Vec<T> = Vec::with_capacity(arr.len());
                for x in arr {
                    all.push(T::from_value(x)?);
                }
                Some(all)
            },""")]),
 ('ex-same-vecw', 'same', [], [(EX, "        let arr: toml::Array = toml::Array::from_iter(self.iter().map(|v| (v.to_owned()).to_value()));\n        arr.into()", """        let mut arr: toml::Array = toml::Array::new();
        for v in self {
            arr.push(v.to_value());
        }
        toml::Value::Array(arr)""")]),
 ('ex-same-vecw2', 'same', [], [(EX, "        let arr: toml::Array = toml::Array::from_iter(self.iter().map(|v| (v.to_owned()).to_value()));\n        arr.into()", "        toml::Value::Array(self.iter().map(Exportable::to_value).collect())")]),
 ('ex-same-vecmatch', 'same', [], [(EX, VECR, VECR.replace(".map(|x| T::from_value(x)).collect", ".map(T::from_value).collect"))]),
 ('ex-same-setloop', 'same', [], [(EX, HSR, """            toml::Value::Array(arr) => {
                let mut all: HashSet<T> = HashSet::new();
                for x in arr {
                    all.insert(T::from_value(x)?);
                }
                Some(all)
            },""")]),
 ('ex-same-pair', 'same', [], [(EX, T2, """                let items: Vec<toml::Value> = arr.into_iter().collect();
                if items.len() != 2 {
                    return None;
                }
                Some((A::from_value(items[0].clone())?, B::from_value(items[1].clone())?))""")]),
 ('ex-same-pairmatch', 'same', [], [(EX, T2, """                match arr.into_iter().collect::<Vec<_>>().as_slice() {
                    [a, b] => A::from_value(a.to_owned()).zip(B::from_value(b.to_owned())),
                    _      => None
                }""")]),
 ('ex-same-pairiter', 'same', [], [(EX, T2, """                if arr.len() != 2 {
                    return None;
                }
                let mut items = arr.into_iter();
                let a: A = A::from_value(items.next()?)?;
                let b: B = B::from_value(items.next()?)?;
                Some((a, b))""")]),
 ('ex-same-pairget', 'same', [], [(EX, T2, """                if arr.len() != 2 {
                    return None;
                }
                Some((A::from_value(arr.get(0)?.to_owned())?, B::from_value(arr.get(1)?.to_owned())?))""")]),
 ('ex-same-arr', 'same', [], [(EX, ARR, """                let all: Vec<T> = arr.into_iter().map(T::from_value).collect::<Option<Vec<T>>>()?;
                <[T; N]>::try_from(all).ok()""")]),
 ('ex-same-char', 'same', [], [(EX, CHR, """                let mut chars = c.chars();
                match (chars.next(), chars.next()) {
                    (Some(c), None) => Some(c),
                    _               => None
                }""")]),
 ('ex-same-char2', 'same', [], [(EX, CHR, """                let chars: Vec<char> = c.chars().collect();
                if chars.len() == 1 { Some(chars[0]) } else { None }""")]),
 ('ex-same-char3', 'same', [], [(EX, CHR, "                if c.chars().count() == 1 { c.chars().next() } else { None }")]),
 ('ex-same-charparse', 'same', [], [(EX, CHR, "                c.parse::<char>().ok()")]),
 ('ex-same-mapw', 'same', [], [(EX, HMS, HMS.replace("self.iter().map(|(k, v)| (k.to_owned(), (v.to_owned()).to_value())).collect::<toml::InlineTable>().into()", """let mut table: toml::InlineTable = toml::InlineTable::new();
        for (k, v) in self {
            table.insert(k, v.to_value());
        }
        table.into()"""))]),
 ('ex-same-mapr', 'same', [], [(EX, HMS, HMS.replace("""                table.into_iter()
                    .map(|(key, value)| V::from_value(value).map(|value| (key.to_string(), value)))
                    .collect::<Option<HashMap<String, V>>>()""", """                let mut map: HashMap<String, V> = HashMap::new();
                for (key, value) in table {
                    map.insert(key.to_string(), V::from_value(value)?);
                }
                Some(map)"""))]),
 ('ex-same-mapc', 'same', [], [(EX, HMC, HMC.replace("""match V::from_value(value) {
                            Some(value) => Some((key.chars().collect::<Vec<_>>()[0], value)),
                            None        => None
                        }""", "V::from_value(value).and_then(|value| key.chars().next().map(|key| (key, value)))"))]),
 ('ex-same-dur', 'same', [], [(EX, "time::Duration::try_from_secs_f64(value.as_float()?).ok()", "f64::from_value(value).and_then(|secs| time::Duration::try_from_secs_f64(secs).ok())")]),
 ('ex-same-path', 'same', [], [(EX, "String::from_value(value).map(|str| NodePath::from_str(&str))", "Some(NodePath::from_str(value.as_str()?))")]),
 ('ex-same-box', 'same', [], [(EX, "T::from_value(value).map(|x| Box::new(x))", "Some(Box::new(T::from_value(value)?))")]),
 ('gl-same-get', 'same', [], [(GE, BV2, """                    if arr.len() != 2 { return None; }
                    Some(g_bool::BVec2::new(arr.get(0)?.as_bool()?, arr.get(1)?.as_bool()?))""")]),
 ('gl-same-new', 'same', [], [(GE, V3, V3.replace("g_f32::vec3(", "g_f32::Vec3::new("))]),
 ('gl-same-arr', 'same', [], [(GE, V3, V3.replace("g_f32::vec3(x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32)", "g_f32::Vec3::from_array([x.as_float()? as f32, y.as_float()? as f32, z.as_float()? as f32])"))]),
 ('gl-same-affine', 'same', [], [(GE, AFF, """        let toml::Value::InlineTable(mut table) = value.clone() else { value = toml::Value::from(false); let _ = value; return None; };
        let matrix2:     g_f32::Mat2 = g_f32::Mat2::from_value(table.remove("matrix2")?)?;
        let translation: g_f32::Vec2 = g_f32::Vec2::from_value(table.remove("translation")?)?;
        Some(g_f32::Affine2 { matrix2, translation })""")]),
 ('gl-same-cols', 'same', [], [(GE, "return Some(g_f32::mat2(g_f32::Vec2::from_value(x_axis.clone())?, g_f32::Vec2::from_value(y_axis.clone())?));", "return Some(g_f32::Mat2::from_cols(g_f32::Vec2::from_value(x_axis.clone())?, g_f32::Vec2::from_value(y_axis.clone())?));")]),
]
