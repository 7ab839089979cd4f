"""Transfer functions for the parts of std (and of the crate's dependencies) the analysed code uses.

A model maps a call (name, abstract arguments, state) to abstract results.  Everything that has no
model and no MIR body is an opaque call: fresh result, recorded as an event, &mut arguments
clobbered.  Models never look at how /repo's source is written, only at resolved callees."""
from engine import *

ERR_DISPLAY = 'disp'


def strty(c, t, seen=0):
    """peel reference layers; returns (number of layers to load, kind)"""
    n = 0
    while t.get('k') in ('ref', 'ptr') and n < 6:
        u = c.interp.p.ty(c.fr.crate, t['t'])
        if u.get('s') == 'str':
            return n, 'str'
        t = u
        n += 1
    return n, t.get('s', '?')


def install(I):
    M = I.models
    p = I.p

    def model(*names):
        def deco(f):
            def g(c):
                c.interp = I
                return f(c)
            for n in names:
                M[n] = g
            return f
        return deco

    def content(st, v):
        """load through known reference layers"""
        n = 0
        while v[0] in ('ref', 'pv') and n < 12:
            v = I.loadp(st, v)
            n += 1
        return v

    def sv(c, i):
        """string content of argument i (type-directed)"""
        v = c.args[i]
        t = c.at[i] if i < len(c.at) else {}
        n = 0
        while t.get('k') in ('ref', 'ptr') and n < 6:
            u = p.ty(c.fr.crate, t['t'])
            if u.get('s') in ('str',):
                return content(c.st, v)
            v = I.loadp(c.st, v)
            t = u
            n += 1
        return content(c.st, v)

    def arg(c, i):
        """argument value through the reference layers its type has (deep copy of content)"""
        return sv(c, i)
    I.content = content
    I.sv = sv
    I.arg = arg

    def ret(st, v):
        return ('ret', v, st)

    def fork(st, t, name_t, name_f):
        pass

    def split_bool(st, cond):
        """[(truth, state)]"""
        r = I.truth(st, cond)
        if r is not None:
            return [(r, st)]
        out = []
        s = st.copy()
        if I.assume(s, cond, False):
            out.append((False, s))
        if I.assume(st, cond, True):
            out.append((True, st))
        return out
    I.split_bool = split_bool

    def split_opt(st, v):
        """[(payload|None, state)] for an Option value"""
        if v[0] == 'adt':
            return [((v[3][0][1] if v[2] == 'Some' else None), st)]
        out = []
        s = st.copy()
        O = 'std::option::Option'
        if I.set_variants(s, v, O, ['None']):
            out.append((None, s))
        if I.set_variants(st, v, O, ['Some']):
            out.append((I.walk1(st, v, 'Some.0'), st))
        return out
    I.split_opt = split_opt

    def split_adt(st, v, adt, variants):
        if v[0] == 'adt':
            return [(v[2], (v[3][0][1] if v[3] else UNIT), st)]
        out = []
        for i, n in enumerate(variants):
            s = st.copy()
            if I.set_variants(s, v, adt, [n]):
                out.append((n, I.walk1(s, v, n + '.0'), s))
        return out

    # ------------------------------------------------------------------ identity-like
    @model('hint::must_use', 'hint::black_box', 'convert::identity', 'IntoFuture::into_future', 'Pin::new', 'ManuallyDrop::new', 'Unique::as_ptr', 'NonNull::as_ptr', 'Box::into_raw', 'Box::from_raw', 'Box::leak', 'Box::new_unchecked', 'mut_ptr::cast', 'const_ptr::cast',
           'const_ptr::cast_mut', 'mut_ptr::cast_const', 'Box::into_pin', 'ptr::from_ref', 'ptr::from_mut', 'Rc::as_ptr', 'Arc::as_ptr', 'mem::transmute', 'intrinsics::transmute', 'Option::into_iter_', 'UnsafeCell::get', 'Cell::as_ptr', 'const_ptr::cast', 'Vec::into_boxed_slice', 'slice::into_vec', 'String::into_boxed_str', 'Saturating', 'Wrapping', 'str::into_string', 'Rc::from_raw', 'Rc::into_raw', 'Arc::from_raw', 'Arc::into_raw', 'NonNull::new_unchecked', 'NonNull::as_mut', 'NonNull::as_ref', 'const_ptr::as_ref_unchecked', 'mut_ptr::as_mut_unchecked')
    def identity(c):
        return c.args[0]

    @model('ptr::eq', 'Rc::ptr_eq', 'Arc::ptr_eq', 'ptr::addr_eq')
    def ptr_eq(c):
        a, b = c.args[0], c.args[1]
        if c.name != 'ptr::eq' and c.name != 'ptr::addr_eq':
            a, b = I.loadp(c.st, a), I.loadp(c.st, b)
        return I.binop(c.st, 'Eq', a, b)

    @model('const_ptr::is_null', 'mut_ptr::is_null')
    def is_null(c):
        return ('app', 'is_null', (c.args[0],), None)

    @model('const_ptr::as_ref', 'mut_ptr::as_mut', 'mut_ptr::as_ref', 'NonNull::new')
    def ptr_as_ref(c):
        out = []
        for t, s in split_bool(c.st, ('app', 'is_null', (c.args[0],), None)):
            out.append(ret(s, NONE if t else SOME(c.args[0])))
        return out

    @model('Box::new', 'Rc::new', 'Arc::new', 'Box::pin', 'boxed::box_new')
    def box_new(c):
        v = c.args[0]
        return I.new_cell(c.st, v)

    @model('Mutex::new', 'RwLock::new', 'RefCell::new', 'Cell::new', 'UnsafeCell::new')
    def mutex_new(c):
        return ('adt', 'std::sync::' + c.name.split('::')[0], c.name.split('::')[0], (('data', c.args[0]),))

    @model('Box::new_uninit', 'MaybeUninit::uninit')
    def new_uninit(c):
        if c.name.startswith('Box'):
            return I.new_cell(c.st, ('undef', 'uninit'))
        return ('undef', 'uninit')

    @model('boxed::box_assume_init_into_vec_unsafe')
    def assume_vec(c):
        v = I.loadp(c.st, c.args[0])
        # the box was written through MaybeUninit{value}
        if v[0] == 'arr':
            return ('vec', v[1])
        if v[0] == 'repeat':
            return ('vecrep', v[1], v[2])
        return v

    @model('MaybeUninit::assume_init', 'MaybeUninit::assume_init_ref', 'MaybeUninit::assume_init_mut', 'MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr')
    def assume_init(c):
        return c.args[0]

    @model('Mutex::lock', 'RwLock::read', 'RwLock::write', 'Mutex::try_lock', 'RefCell::borrow', 'RefCell::borrow_mut')
    def lock(c):
        m = I.mutex_ptr(c.st, c.args[0])
        if m[0] == 'ref' and I.load(c.st, m[1])[0] not in ('adt', 'upd') and False:
            pass
        c.st.add(Ev('lock', c.name, (m,), None, c.sp, c.fr.path))
        g = ('guard', m, next(I.cnt))
        if c.name.startswith('RefCell'):
            return g
        if c.name == 'Mutex::try_lock':
            s2 = c.st.copy()
            return [ret(c.st, OK(g)), ret(s2, ERR(('app', 'TryLockError', (m,), next(I.cnt))))]
        return OK(g)

    def mutex_ptr(st, m):
        return m
    I.mutex_ptr = mutex_ptr

    @model('Mutex::get_mut', 'RefCell::get_mut', 'RwLock::get_mut')
    def mutex_get_mut(c):
        v = guarded_ptr(c.st, c.args[0])
        return v if c.name.startswith('RefCell') else OK(v)

    @model('Mutex::into_inner', 'RefCell::into_inner')
    def mutex_into_inner(c):
        v = I.walk1(c.st, c.args[0], 'data')
        return v if c.name.startswith('RefCell') else OK(v)

    @model('Cell::get')
    def cell_get(c):
        return I.loadp(c.st, guarded_ptr(c.st, c.args[0]))

    @model('Cell::set')
    def cell_set(c):
        I.store(c.st, I.deref(guarded_ptr(c.st, c.args[0])), c.args[1], c.fr, c.sp)
        return UNIT

    def guarded_ptr(st, m):
        loc = I.deref(m)
        v = I.load(st, loc)
        if v[0] in ('adt', 'upd') and loc[0][0] == 'cell':
            return ('ref', (loc[0], loc[1] + ('data',)))
        return ('guarded', m)

    @model('Rc::get_mut', 'Arc::get_mut')
    def rc_get_mut(c):
        out = []
        v = I.loadp(c.st, c.args[0])
        for t, s in split_bool(c.st, ('app', 'rc_unique', (v,), None)):
            out.append(ret(s, SOME(v) if t else NONE))
        return out

    @model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_mut_str', 'Option::as_slice_', 'array::as_slice', 'slice::as_ref', 'Box::as_ref', 'String::as_bytes_', 'Path::new', 'Path::as_os_str', 'OsStr::new', 'PathBuf::as_path', 'slice::as_slice')
    def deref(c):
        t = c.at[0]
        a = c.args[0]
        if t.get('k') in ('ref', 'ptr'):
            u = p.ty(c.fr.crate, t['t']) if isinstance(t.get('t'), int) else {}
            d = u.get('d', '')
            s = u.get('s', '')
            if d in ('std::rc::Rc', 'std::sync::Arc', 'std::boxed::Box'):
                if c.name.split('::')[0] in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut', 'Box') :
                    v = I.loadp(c.st, a)
                    return v
            if d == 'std::string::String' or d == 'std::path::PathBuf':
                if c.name in ('DerefMut::deref_mut', 'String::as_mut_str'):
                    return a
                return I.loadp(c.st, a)
            if d.endswith('MutexGuard') or d.endswith('RwLockReadGuard') or d.endswith('RwLockWriteGuard') or d in ('std::cell::Ref', 'std::cell::RefMut'):
                g = I.loadp(c.st, a)
                if g[0] == 'guard':
                    return guarded_ptr(c.st, g[1])
                return ('app', 'guard_deref', (g,), None)
            if d in ('std::vec::Vec', 'std::collections::VecDeque') or u.get('k') in ('array', 'slice') or s == 'str' or d == 'std::path::Path' or d.endswith('DocumentMut'):
                return a
            if c.callee['r'] == 'item' and d:
                # some other std/dependency smart pointer (LazyLock, dashmap Ref, ...): stable pure target
                if a[0] == 'ref':
                    return ('app', 'deref', (I.snap(c.st, a),), None)
                return ('app', 'deref', (a,), None)
        if c.callee['r'] == 'item':
            return a
        return NotImplemented

    @model('Option::as_slice', 'Option::as_mut_slice')
    def option_slice(c):
        return [ret(c.st, ('app', 'Option::as_slice', (content(c.st, c.args[0]),)))]

    @model('Option::as_deref')
    def opt_as_deref(c):
        t = c.at[0]
        if t.get('k') not in ('ref', 'ptr') or c.args[0][0] not in ('ref', 'pv'):
            return NotImplemented
        u = p.ty(c.fr.crate, t['t'])
        inner = p.ty(c.fr.crate, u['a'][0]) if u.get('d') == 'std::option::Option' and u.get('a') else {}
        if inner.get('d') not in ('std::string::String', 'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'):
            return NotImplemented
        out = []
        for v, s in split_opt(c.st, I.loadp(c.st, c.args[0])):
            out.append(ret(s, NONE if v is None else SOME(v)))
        return out

    # ------------------------------------------------------------------ mem / intrinsics
    @model('mem::replace', 'ptr::replace')
    def mem_replace(c):
        loc = I.deref(c.args[0])
        old = I.load(c.st, loc)
        I.store(c.st, loc, c.args[1], c.fr, c.sp)
        return old

    @model('mem::take')
    def mem_take(c):
        loc = I.deref(c.args[0])
        old = I.load(c.st, loc)
        I.store(c.st, loc, default_of(c.dty), c.fr, c.sp)
        return old

    @model('mem::swap', 'ptr::swap')
    def mem_swap(c):
        a, b = I.deref(c.args[0]), I.deref(c.args[1])
        x, y = I.load(c.st, a), I.load(c.st, b)
        I.store(c.st, a, y, c.fr, c.sp)
        I.store(c.st, b, x, c.fr, c.sp)
        return UNIT

    @model('ptr::read', 'const_ptr::read', 'mut_ptr::read')
    def ptr_read(c):
        return I.loadp(c.st, c.args[0])

    @model('ptr::write', 'mut_ptr::write')
    def ptr_write(c):
        I.store(c.st, I.deref(c.args[0]), c.args[1], c.fr, c.sp)
        return UNIT

    @model('mem::drop', 'drop_in_place', 'ptr::drop_in_place')
    def mem_drop(c):
        loc = I.new_cell(c.st, c.args[0])[1]
        return I.drop_value(c.fr, c.st, c.args[0], c.at[0] if c.at else {'k': '?', 's': '?'}, c.sp, loc)

    @model('mem::forget')
    def forget(c):
        return UNIT

    @model('hint::unreachable_unchecked')
    def uu(c):
        c.st.add(Ev('ub', 'unreachable_unchecked', (), None, c.sp, c.fr.path, c.fr.stack))
        return [('ub', 'unreachable_unchecked', c.st)]

    @model('intrinsics::discriminant_value', 'mem::discriminant')
    def discrv(c):
        v = I.loadp(c.st, c.args[0])
        t = c.at[0]
        if t.get('k') == 'ref':
            t = p.ty(c.fr.crate, t['t'])
        if t.get('k') == 'adt' and t['d'] in p.adts:
            return I.discr(c.st, v, t['d'])
        if v[0] == 'adt':
            return I.discr(c.st, v, v[1])
        return ('app', 'discriminant', (v,), None)

    @model('intrinsics::size_of', 'mem::size_of', 'mem::align_of')
    def sizeof(c):
        return ('app', c.name, (('ty', p.ty(c.fr.crate, c.callee['a'][0])['s'] if c.callee['a'] else '?'),), None)

    @model('unreachable_unchecked::precondition_check', 'precondition_check', 'ub_checks::check_language_ub', 'intrinsics::ub_checks', 'intrinsics::assume', 'hint::assert_unchecked')
    def nop(c):
        return UNIT

    # ------------------------------------------------------------------ panics
    for n in ('panicking::panic_fmt', 'panicking::panic', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::unreachable_display', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed',
              'panicking::panic_default_msg', 'panicking::unimplemented_default_msg', 'panicking::todo_default_msg', 'panicking::unreachable_default_msg', 'panicking::assert_failed', 'panicking::panic_const', 'panicking::panic_str_2015',
              'panicking::panic_nounwind', 'process::exit', 'process::abort', 'panicking::begin_panic', 'panic::resume_unwind', 'panicking::assert_failed_inner', 'panicking::panic_bounds_check'):
        def pan(c, n=n):
            c.st.add(Ev('panic', n, tuple(I.snap(c.st, a) for a in c.args), None, c.sp, c.fr.path, c.fr.stack))
            return [('panic', n, c.st)]
        M[n] = pan

    # ------------------------------------------------------------------ conversions / strings
    @model('ToString::to_string')
    def to_string(c):
        # Display of String/&str/Box<str>/char is the content itself
        if c.callee['r'] == 'virtual':
            return NotImplemented
        n, k = strty(c, c.at[0])
        if k in ('str', 'std::string::String', 'std::boxed::Box<str>', 'std::borrow::Cow<str>'):
            return sv(c, 0)
        v = sv(c, 0)
        # local Display impl?
        d = disp_impl(c, c.at[0])
        if d is not None:
            return d
        return ('app', 'disp', (v,), None)

    def disp_impl(c, t):
        """if the type has a local Display impl, inline it writing into a fresh buffer"""
        while t.get('k') == 'ref':
            t = p.ty(c.fr.crate, t['t'])
        if t.get('k') != 'adt':
            return None
        for f in p.fns.values():
            if f.local and f.j.get('nm') == 'fmt' and f.j.get('impl_trait', '').endswith('fmt::Display'):
                tt = p.ty(f.crate, f.j['self_ty'])
                if tt.get('k') == 'adt' and tt['d'] == t['d'] and f.crate == c.fr.crate:
                    buf = I.new_cell(c.st, ('str', ''))
                    a = c.args[0]
                    # peel extra reference layers
                    t2 = c.at[0]
                    while t2.get('k') == 'ref' and p.ty(c.fr.crate, t2['t']).get('k') == 'ref':
                        a = I.loadp(c.st, a)
                        t2 = p.ty(c.fr.crate, t2['t'])
                    if f.key in c.fr.stack:
                        return ('app', 'disp', (content(c.st, a),), None)
                    out = []
                    for kind, v, s in I.call_fn(f, [a, buf], c.st, c.fr.stack):
                        if kind == 'ret':
                            out.append(('ret', I.loadp(s, buf), s))
                        else:
                            out.append((kind, v, s))
                    return out
        return None

    @model('ToOwned::to_owned', 'Into::into', 'From::from', 'str::to_string', 'str::to_owned', 'slice::to_vec', 'String::from_str', 'Cow::into_owned', 'slice::into_vec', 'Vec::from', 'slice::to_owned')
    def into(c):
        t = c.at[0]
        d = c.dty.get('s', '')
        if c.callee['r'] == 'unresolved' and not (d.startswith('std::string::String') or d.startswith('std::boxed::Box<str>')):
            return ('app', c.name, (c.args[0],), None)
        if d.startswith('std::string::String') or d == 'std::boxed::Box<str>' or t.get('s') in ('&str', '&std::string::String'):
            if c.callee['r'] == 'unresolved' and t.get('k') == 'param':
                return ('app', 'into_string', (c.args[0],), None)
            n, k = strty(c, t)
            if k in ('str', 'std::string::String', 'std::boxed::Box<str>', 'char') or k.endswith('::Key'):
                v = sv(c, 0)
                if d.startswith('toml_edit') and not d.endswith('Key'):
                    return ('app', 'to_toml', (v,), None)
                return v
        if c.name in ('slice::to_vec', 'ToOwned::to_owned', 'slice::to_owned'):
            v = content(c.st, c.args[0])
            if v[0] in ('arr',):
                return ('vec', v[1])
            if v is c.args[0]:
                return I.loadp(c.st, v)
            return v
        if d.startswith('toml_edit') or d in ('std::rc::Rc<str>',):
            ts = t.get('s', '')
            if ts == d:
                return c.args[0]
            return ('app', 'to_toml', (content(c.st, c.args[0]),), None)
        if t.get('s') == d:
            return c.args[0]
        if c.callee['r'] == 'item':
            prim = {'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'isize', 'f32', 'f64', 'char', 'bool'}
            if t.get('s') in prim and d in prim:
                if c.args[0][0] == 'int':
                    return c.args[0]
                return ('cast', t['s'], d, c.args[0])
            return ('app', 'into', (content(c.st, c.args[0]), ('ty', d)), None)
        return NotImplemented

    @model('TryInto::try_into', 'TryFrom::try_from')
    def try_into(c):
        v = content(c.st, c.args[0])
        prim = {'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'isize', 'char'}
        s = c.at[0].get('s')
        d = c.dty
        t = p.ty(c.fr.crate, d['a'][0]) if d.get('a') else {}
        if s in prim and t.get('s') in prim:
            out = []
            for tr, st in split_bool(c.st, ('app', 'fits', (v, ('ty', s), ('ty', t['s'])), None)):
                out.append(ret(st, OK(('cast', s, t['s'], v)) if tr else ERR(('app', 'tryerr', (v,), None))))
            return out
        return ('app', 'try_into', (v, ('ty', d.get('s', '?'))), None)

    @model('Clone::clone', 'Option::cloned_', 'Clone::clone_from_')
    def clone(c):
        if c.callee['r'] == 'unresolved':
            v = c.args[0]
            return I.loadp(c.st, v)
        rk = c.callee.get('rk')
        if rk in p.fns and p.fns[rk].local:
            return NotImplemented
        v = I.loadp(c.st, c.args[0])
        if c.dty.get('d') in ('std::sync::Arc', 'std::rc::Rc'):
            I.kept.add((v, c.st.epoch))
        return v

    def default_of(t):
        s = t.get('s', '?')
        if s == 'std::string::String' or s == 'std::boxed::Box<str>' or s == '&str':
            return ('str', '')
        if s in ('bool',):
            return FALSE
        if t.get('k') == 'prim' and s not in ('f32', 'f64', 'char', 'str'):
            return ('int', 0)
        if s.startswith('std::option::Option'):
            return NONE
        if s.startswith('std::vec::Vec') or s.startswith('std::collections::VecDeque'):
            return ('vec', ())
        if 'collections::' in s:
            return ('emptymap',)
        if s == '()':
            return UNIT
        return ('app', 'default', (('ty', s),), None)

    @model('Default::default')
    def default(c):
        rk = c.callee.get('rk')
        if rk in p.fns and p.fns[rk].local:
            return NotImplemented
        return default_of(c.dty)

    @model('Option::unwrap_or_default')
    def unwrap_or_default(c):
        d = default_of(c.dty)
        if d[0] == 'app' and d[1] == 'default':
            return NotImplemented
        return [ret(s, d if v is None else v) for v, s in split_opt(c.st, c.args[0])]

    @model('String::new', 'String::with_capacity')
    def string_new(c):
        return ('str', '')

    def concat(a, b):
        if a == ('str', ''):
            return b
        if b == ('str', ''):
            return a
        if a[0] == 'str' and b[0] == 'str':
            return ('str', a[1] + b[1])
        la = list(a[1]) if a[0] == 'cat' else [a]
        lb = list(b[1]) if b[0] == 'cat' else [b]
        if la[-1][0] == 'str' and lb[0][0] == 'str':
            la = la[:-1] + [('str', la[-1][1] + lb[0][1])]
            lb = lb[1:]
        la += lb
        return la[0] if len(la) == 1 else ('cat', tuple(la))
    I.concat = concat

    def append(c, x):
        loc = I.deref(c.args[0])
        old = I.load(c.st, loc)
        I.store_quiet(c.st, loc, concat(old, x))
        if loc[0][0] != 'cell':
            c.st.add(Ev('write', 'string.append', (c.args[0], x), None, c.sp, c.fr.path))

    @model('Add::add')
    def add(c):
        s = c.at[0].get('s', '')
        if s == 'std::string::String':
            return concat(sv(c, 0), sv(c, 1))
        if c.callee['r'] == 'item':
            return ('app', 'Add::add', tuple(content(c.st, a) for a in c.args), None)
        return NotImplemented

    for op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
        nm = {'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'bitxor'}.get(op, op.lower())

        def opassign(c, op=op, nm=nm):
            t = c.at[0]
            if op == 'Add' and t.get('k') == 'ref' and p.ty(c.fr.crate, t['t']).get('s') == 'std::string::String':
                append(c, sv(c, 1))
                return UNIT
            if c.callee['r'] != 'virtual':
                loc = I.deref(c.args[0])
                I.store(c.st, loc, ('app', op + 'Assign', (I.load(c.st, loc), content(c.st, c.args[1])), None), c.fr, c.sp)
                return UNIT
            return NotImplemented
        M['%sAssign::%s_assign' % (op, nm)] = lambda c, f=opassign: (setattr(c, 'interp', I), f(c))[1]

        def opbin(c, op=op, nm=nm):
            return ('app', op, tuple(content(c.st, a) for a in c.args), None)
        if op != 'Add':
            M['%s::%s' % (op, nm)] = opbin

    @model('String::push_str', 'Write::write_str', 'String::push', 'Write::write_char', 'Formatter::write_str', 'Formatter::pad', 'Formatter::write_char')
    def push_str(c):
        x = content(c.st, c.args[1])
        if x[0] == 'char':
            x = ('str', x[1])
        append(c, x)
        return OK(UNIT) if not c.name.startswith('String') else UNIT

    @model('Formatter::write_fmt', 'Write::write_fmt')
    def write_fmt(c):
        if c.callee['r'] == 'virtual':
            return NotImplemented
        append(c, c.args[1])
        return OK(UNIT)

    @model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
    def fmtarg(c):
        n, k = strty(c, c.at[0])
        v = sv(c, 0)
        if c.name.endswith('display'):
            if k in ('str', 'std::string::String', 'std::boxed::Box<str>', 'std::fmt::Arguments<\'_>') or v[0] in ('str', 'cat'):
                return v
            if v[0] == 'char':
                return ('str', v[1])
            if v[0] == 'app' and v[1] in ('as_display',):
                return v[2][0]
            d = disp_impl(c, c.at[0])
            if d is not None:
                return d
            return ('app', 'disp', (v,), None)
        return ('app', c.name.split('_')[-1], (v,), None)

    @model('AsDisplay::as_display')
    def as_display(c):
        v = sv(c, 0)
        return v

    def fmt_parts(tmpl, args):
        """decode the byte template of fmt::Arguments (see core::fmt::Arguments docs)"""
        if tmpl[0] != 'arr':
            return ('app', 'fmt?', (tmpl,) + tuple(args), None)
        bs = [b[1] for b in tmpl[1]]
        out = ('str', '')
        i = 0
        nxt = 0
        while i < len(bs) and bs[i] != 0:
            b = bs[i]
            i += 1
            if b < 0x80:
                out = concat(out, ('str', bytes(bs[i:i + b]).decode('utf-8', 'replace')))
                i += b
            elif b == 0x80:
                n = bs[i] | bs[i + 1] << 8
                i += 2
                out = concat(out, ('str', bytes(bs[i:i + n]).decode('utf-8', 'replace')))
                i += n
            else:
                spec = []
                if b & 1:
                    spec.append(tuple(bs[i:i + 4]))
                    i += 4
                if b & 2:
                    spec.append(('w',) + tuple(bs[i:i + 2]))
                    i += 2
                if b & 4:
                    spec.append(('p',) + tuple(bs[i:i + 2]))
                    i += 2
                if b & 8:
                    nxt = bs[i] | bs[i + 1] << 8
                    i += 2
                a = args[nxt] if nxt < len(args) else ('undef', 'fmtarg')
                nxt += 1
                if spec:
                    a = ('app', 'fmtspec', (a, ('spec', tuple(spec))), None)
                out = concat(out, a)
        return out

    @model('Arguments::new')
    def fmt_new(c):
        tmpl = content(c.st, c.args[0])
        args = content(c.st, c.args[1]) if len(c.args) > 1 else ('arr', ())
        if args[0] not in ('arr', 'vec'):
            return ('app', 'fmt?', (tmpl, args), None)
        return fmt_parts(tmpl, args[1])

    @model('Arguments::from_str', 'Arguments::from_str_nonconst')
    def fmt_from_str(c):
        return content(c.st, c.args[0])

    @model('fmt::format', 'string::format')
    def fmt_format(c):
        return c.args[0]

    @model('io::_print', 'io::_eprint')
    def print_(c):
        c.st.add(Ev('call', c.name, (c.args[0],), UNIT, c.sp, c.fr.path))
        return UNIT

    @model('PartialEq::eq', 'PartialEq::ne', 'str::eq', 'SliceContains::x')
    def eq(c):
        rk = c.callee.get('rk')
        if c.callee['r'] == 'item' and rk in p.fns and p.fns[rk].local:
            return NotImplemented
        if rk in p.fns and c.callee['r'] == 'item' and 'option' not in rk:
            return NotImplemented
        a, b = deep(c.st, c.args[0]), deep(c.st, c.args[1])
        # one extra layer: &T arguments whose pointee is an opaque pointer argument
        for i in (0, 1):
            pass
        a = typed(c, 0)
        b = typed(c, 1)
        return eqv(c.st, a, b, c.name.endswith('ne'))

    def eqv(st, a, b, negate):
        r = None
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
            if a[2] != b[2]:
                r = FALSE
            elif len(a[3]) == 0:
                r = TRUE
            elif len(a[3]) == 1:
                r = eqv(st, content(st, a[3][0][1]), content(st, b[3][0][1]), False)
        elif a[0] == 'adt' and a[1] == 'std::option::Option' or b[0] == 'adt' and b[1] == 'std::option::Option':
            x, y = (a, b) if a[0] == 'adt' else (b, a)
            f = I.fact_variants(st, y, x[1])
            if x[2] not in f:
                r = FALSE
            elif len(f) == 1:
                r = TRUE if not x[3] else I.binop(st, 'Eq', x[3][0][1], I.walk1(st, y, x[2] + '.0'))
            elif not x[3]:
                vs = I.variants(x[1])
                r = I.binop(st, 'Eq', ('discr', y, x[1]), ('int', vs[x[2]]))
        elif a[0] == 'adt' and not a[3] and a[1] in p.adts or b[0] == 'adt' and not b[3] and b[1] in p.adts:
            x, y = (a, b) if a[0] == 'adt' else (b, a)
            vs = I.variants(x[1])
            r = I.binop(st, 'Eq', ('discr', y, x[1]), ('int', vs[x[2]]))
        if r is None:
            r = I.binop(st, 'Eq', a, b)
        return I.neg(r) if negate else r
    I.eqv = eqv

    def typed(c, i):
        """value compared by PartialEq argument i: peel reference layers by type, then known refs"""
        v = c.args[i]
        t = c.at[i] if i < len(c.at) else {}
        n = 0
        while t.get('k') == 'ref' and n < 6:
            u = p.ty(c.fr.crate, t['t'])
            if u.get('s') == 'str':
                break
            v = I.loadp(c.st, v)
            t = u
            n += 1
        return content(c.st, v)

    def deep(st, v):
        return content(st, v)

    @model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
    def ord_(c):
        rk = c.callee.get('rk')
        if rk in p.fns and p.fns[rk].local:
            return NotImplemented
        return I.binop(c.st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name.split('::')[1]], typed(c, 0), typed(c, 1))

    @model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
    def maxmin(c):
        rk = c.callee.get('rk')
        a, b = c.args[0], c.args[1]
        if a == b:
            return a
        if a[0] == 'int' and b[0] == 'int':
            return ('int', max(a[1], b[1]) if c.name.endswith('max') else min(a[1], b[1]))
        if repr(a) > repr(b):
            a, b = b, a
        return ('app', c.name.split('::')[1], (a, b), None)

    for nm in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_sub', 'saturating_mul', 'checked_add', 'checked_sub', 'checked_mul', 'abs', 'pow', 'rem_euclid', 'unchecked_add'):
        def intop(c, nm=nm):
            a = content(c.st, c.args[0])
            b = content(c.st, c.args[1]) if len(c.args) > 1 else UNIT
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(nm.split('_')[-1])
            ty = c.name.split('::')[0]
            if op and nm.startswith(('wrapping', 'saturating', 'unchecked')):
                if a[0] == 'int' and b[0] == 'int' and (op != 'Sub' or a[1] >= b[1]):
                    return I.binop(c.st, op, a, b)
                return ('app', nm, (a, b, ('ty', ty)), None)
            if nm.startswith('checked'):
                out = []
                for t, s in split_bool(c.st, ('app', 'overflows', (('opname', op), a, b, ('ty', ty)), None)):
                    out.append(ret(s, NONE if t else SOME(I.binop(s, op, a, b))))
                return out
            return ('app', nm, (a, b, ('ty', ty)), None)
        for ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'isize', 'num'):
            M['%s::%s' % (ty, nm)] = intop

    # pure library functions (result determined by argument contents)
    I.PURE = {
        'str::find', 'str::rfind', 'str::get', 'str::split_at', 'str::split_once', 'str::rsplit_once', 'str::parse', 'str::starts_with', 'str::ends_with', 'str::contains',
        'str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_matches', 'str::strip_prefix', 'str::strip_suffix', 'str::to_lowercase', 'str::to_uppercase', 'str::as_bytes', 'String::as_bytes',
        'str::trim_end_matches', 'str::trim_start_matches', 'str::is_char_boundary', 'str::replace', 'str::repeat', 'str::bytes', 'str::char_indices',
        'FromStr::from_str', 'methods::is_numeric', 'methods::is_ascii_digit', 'methods::is_alphabetic', 'methods::len_utf8', 'char::is_numeric', 'char::is_ascii_digit', 'methods::to_digit',
        'Path::extension', 'Path::to_str', 'OsStr::to_str', 'Path::file_stem', 'Path::file_name', 'Path::parent', 'Path::join', 'Path::with_extension',
        'Value::as_bool', 'Value::as_float', 'Value::as_integer', 'Value::as_str', 'Item::as_inline_table', 'Item::as_table', 'Item::as_value', 'Value::as_inline_table', 'Value::as_array', 'Item::as_str',
        'Formatted::new', 'Formatted::into_value', 'Duration::as_secs_f32', 'Duration::as_secs_f64', 'Duration::from_secs_f64', 'Duration::from_secs_f32', 'Duration::from_secs', 'Duration::from_millis', 'Instant::duration_since', 'Duration::try_from_secs_f64', 'Duration::as_secs', 'Duration::subsec_nanos', 'Duration::new', 'Duration::as_millis',
        'any::type_name', 'any::type_name_of_val', 'TypeId::of', 'Any::type_id', 'DateTime::format', 'String::from_utf8', 'CastRef::impls', 'discriminant', 'Instant::elapsed_', 'f64::is_finite', 'f64::is_nan', 'f64::is_sign_negative', 'f32::is_finite', 'Value::is_str', 'Value::is_integer', 'methods::is_whitespace', 'Key::get', 'Value::type_name', 'String::is_char_boundary', 'str::chars', 'f64::max', 'f64::min', 'f64::abs', 'Float::x',
        'Item::as_integer', 'Item::as_bool', 'InlineTable::contains_key', 'Table::contains_key', 'String::from_utf8_lossy', 'str::from_utf8', 'str::bytes', 'InlineTable::len', 'InlineTable::is_empty', 'char::from_u32', 'convert::from_u32', 'methods::is_ascii_alphanumeric', 'methods::is_alphanumeric', 'methods::is_ascii_alphabetic',
    }

    class _PureFam(set):
        def __contains__(self, n):
            if set.__contains__(self, n):
                return True
            a, _, b = n.partition('::')
            if a == 'glam' or b in ('to_array', 'from_array', 'to_cols_array', 'to_cols_array_2d', 'from_cols_array', 'from_mat2_translation', 'from_mat3_translation', 'from_cols', 'from_xyzw') and a[:1].isupper():
                return True
            return False
    I.PURE = _PureFam(I.PURE)

    @model('str::len', 'String::len')
    def strlen(c):
        v = sv(c, 0)
        if v[0] == 'str':
            return ('int', len(v[1].encode()))
        return ('app', 'strlen', (v,), None)

    @model('str::is_empty', 'String::is_empty')
    def stremp(c):
        v = sv(c, 0)
        if v[0] == 'str':
            return ('bool', v[1] == '')
        if v[0] == 'cat' and any(x[0] == 'str' and x[1] for x in v[1]):
            return FALSE
        return I.binop(c.st, 'Eq', v, ('str', ''))

    @model('String::clear')
    def strclear(c):
        I.store(c.st, I.deref(c.args[0]), ('str', ''), c.fr, c.sp)
        return UNIT

    def purestr(c):
        return tuple(content(c.st, a) if a[0] in ('ref', 'pv') else a for a in c.args)

    def pure_model(name, folder=None):
        def f(c):
            c.interp = I
            a = [sv(c, 0)] + [content(c.st, x) for x in c.args[1:]]
            a = [callee_pat(x) for x in a]
            if folder is not None and all(x[0] in ('str', 'char') for x in a):
                r = folder(*[x[1] for x in a])
                if r is not None:
                    return r
            return ('app', name, tuple(a), None)
        M[name] = f

    def callee_pat(x):
        return x
    pure_model('str::starts_with', lambda s, q: ('bool', s.startswith(q)))
    pure_model('str::ends_with', lambda s, q: ('bool', s.endswith(q)))
    pure_model('str::contains', lambda s, q: ('bool', q in s))
    for n in ('find', 'rfind', 'split_once', 'rsplit_once', 'trim', 'strip_prefix', 'strip_suffix', 'parse', 'split_at', 'get', 'replace', 'to_lowercase', 'to_uppercase', 'trim_matches', 'trim_end', 'trim_start', 'chars', 'bytes', 'trim_end_matches', 'trim_start_matches', 'as_bytes'):
        pm = 'str::' + n

        def f(c, pm=pm):
            a = [sv(c, 0)] + [content(c.st, x) for x in c.args[1:]]
            if pm == 'str::parse':
                a.append(('ty', p.ty(c.fr.crate, c.callee['a'][-1])['s'] if c.callee.get('a') else '?'))
            v = ('app', pm, tuple(a), None)
            if pm in ('str::chars', 'str::bytes'):
                return ('it', 'seq', I.new_cell(c.st, v), 'val', ())
            return v
        M[pm] = model(pm)(f) and M[pm]

    @model('FromStr::from_str')
    def from_str(c):
        rk = c.callee.get('rk')
        if rk in p.fns and p.fns[rk].local:
            return NotImplemented
        return ('app', 'str::parse', (sv(c, 0), ('ty', (p.ty(c.fr.crate, c.dty['a'][0])['s'] if c.dty.get('a') else '?'))), None)

    @model('str::split', 'str::rsplit', 'str::splitn', 'str::split_terminator', 'str::lines', 'str::split_whitespace', 'str::rsplitn')
    def strsplit(c):
        a = [sv(c, 0)] + [content(c.st, x) for x in c.args[1:]]
        v = ('app', c.name, tuple(a), None)
        return ('it', 'seq', I.new_cell(c.st, v), 'val', ())

    @model('Instant::now', 'SystemTime::now')
    def now(c):
        r = I.fresh(c.name, ())
        c.st.add(Ev('call', c.name, (), r, c.sp, c.fr.path))
        return r

    @model('Instant::elapsed')
    def elapsed(c):
        r = I.fresh('Instant::now', ())
        c.st.add(Ev('call', 'Instant::now', (), r, c.sp, c.fr.path))
        return ('app', 'Instant::duration_since', (r, I.loadp(c.st, c.args[0])), None)

    @model('Sub::sub')
    def sub(c):
        if 'Instant' in c.at[0].get('s', ''):
            return ('app', 'Instant::duration_since', (content(c.st, c.args[0]), content(c.st, c.args[1])), None)
        return ('app', 'Sub', tuple(content(c.st, a) for a in c.args), None)

    @model('Instant::duration_since', 'Instant::saturating_duration_since', 'Instant::checked_duration_since')
    def dsince(c):
        return ('app', 'Instant::duration_since', (content(c.st, c.args[0]), content(c.st, c.args[1])), None)

    @model('downcast_ref', 'downcast_mut', 'Any::downcast_ref')
    def downcast(c):
        a = c.args[0]
        T = p.ty(c.fr.crate, c.callee['a'][0])['s'] if c.callee['a'] else '?'
        out = []
        cond = ('app', 'is_type', (a, ('ty', T)), None)
        for t, s in split_bool(c.st, cond):
            out.append(ret(s, SOME(a) if t else NONE))
        return out

    @model('is', 'Any::is')
    def any_is(c):
        if not c.callee.get('a'):
            return NotImplemented
        T = p.ty(c.fr.crate, c.callee['a'][0])['s']
        return ('app', 'is_type', (c.args[0], ('ty', T)), None)

    @model('CastRef::cast', 'CastMut::cast')
    def casttrait(c):
        a = c.args[0]
        T = '|'.join(p.ty(c.fr.crate, x)['s'] for x in c.callee['a'] if isinstance(x, int))
        out = []
        for t, s in split_bool(c.st, ('app', 'is_type', (a, ('ty', T)), None)):
            out.append(ret(s, SOME(a) if t else NONE))
        return out

    @model('CastRef::impls', 'CastMut::impls')
    def implstrait(c):
        T = '|'.join(p.ty(c.fr.crate, x)['s'] for x in c.callee['a'] if isinstance(x, int))
        return ('app', 'is_type', (c.args[0], ('ty', T)), None)

    # ------------------------------------------------------------------ Vec / VecDeque / slices
    @model('Array::new')
    def toml_array_new(c):
        return ('vec', ())

    @model('Array::push', 'Array::push_formatted')
    def toml_array_push(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        x = c.args[1]
        t = c.at[1].get('s', '') if len(c.at) > 1 else ''
        if t != 'toml_edit::Value':
            x = ('app', 'to_toml', (content(c.st, x),), None)
        new = ('vec', old[1] + (x,)) if old[0] == 'vec' and len(old[1]) < 40 else ('push', old, x)
        upd(c, loc, new, 'vec.push', x)
        return UNIT

    @model('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
    def vec_new(c):
        return ('vec', ())

    @model('HashMap::new', 'HashSet::new', 'BTreeMap::new', 'HashMap::with_capacity', 'BTreeSet::new', 'HashSet::with_capacity')
    def map_new(c):
        return ('emptymap',)

    def vloc(c, i=0):
        """location of the sequence/map argument i refers to"""
        v = c.args[i]
        t = c.at[i] if i < len(c.at) else {}
        n = 0
        while t.get('k') == 'ref' and n < 4:
            u = p.ty(c.fr.crate, t['t'])
            if u.get('k') != 'ref':
                break
            v = I.loadp(c.st, v)
            t = u
            n += 1
        return I.deref(v)
    I.vloc = vloc

    def upd(c, loc, new, what, *args):
        I.store_quiet(c.st, loc, new)
        c.st.add(Ev('write', what, (('ref', loc),) + args, None, c.sp, c.fr.path))

    @model('Vec::push', 'VecDeque::push_back')
    def vec_push(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        x = c.args[1]
        new = ('vec', old[1] + (x,)) if old[0] == 'vec' and len(old[1]) < 40 else ('push', old, x)
        upd(c, loc, new, 'vec.push', x)
        return UNIT

    @model('Vec::insert', 'VecDeque::push_front', 'VecDeque::insert')
    def vec_insert(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        ix = c.args[1] if c.name != 'VecDeque::push_front' else ('int', 0)
        x = c.args[-1]
        new = ('vec', old[1][:ix[1]] + (x,) + old[1][ix[1]:]) if old[0] == 'vec' and ix[:1] == ('int',) and ix[1] <= len(old[1]) < 40 else ('vinsert', old, ix, x)
        upd(c, loc, new, 'vec.insert', ix, x)
        return UNIT

    def vlen(st, v):
        if v[0] in ('vec', 'arr'):
            return ('int', len(v[1]))
        if v[0] in ('push', 'vinsert'):
            return I.binop(st, 'Add', vlen(st, v[1]), ('int', 1))
        if v[0] == 'upd' and all(not isinstance(e, str) and e[0] == 'i' for e, _ in v[2]):
            return vlen(st, v[1])
        if v[0] == 'seqmap':
            return vlen(st, v[3]) if v[4] else ('len', v)
        if v[0] == 'vremove':
            l = vlen(st, v[1])
            return I.binop(st, 'Sub', l, ('int', 1))
        return ('len', v)
    I.vlen = vlen

    @model('Vec::len', 'slice::len', 'VecDeque::len', 'HashMap::len', 'HashSet::len', 'Array::len', 'BTreeMap::len', 'ExactSizeIterator::len')
    def length(c):
        if c.name.startswith('Exact'):
            it = content(c.st, c.args[0])
            if it[0] == 'it' and it[1] == 'seq':
                return vlen(c.st, seqval(c.st, it))
            return NotImplemented
        return vlen(c.st, I.load(c.st, vloc(c)))

    def is_emp(st, v):
        if v[0] in ('vec', 'arr'):
            return ('bool', len(v[1]) == 0)
        if v[0] in ('push', 'vinsert', 'minsert'):
            return FALSE
        if v[0] == 'emptymap':
            return TRUE
        return I.binop(st, 'Eq', vlen(st, v), ('int', 0))

    @model('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty')
    def isempty(c):
        return is_emp(c.st, I.load(c.st, vloc(c)))

    @model('Vec::clear', 'VecDeque::clear', 'HashMap::clear', 'HashSet::clear')
    def clear(c):
        loc = vloc(c)
        upd(c, loc, ('vec', ()) if 'Vec' in c.name else ('emptymap',), 'vec.clear')
        return UNIT

    @model('Vec::remove', 'Vec::swap_remove', 'VecDeque::remove')
    def vec_remove(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        ix = c.args[1]
        x = I.walk1(c.st, old, ('i', ix))
        if old[0] == 'vec' and ix[0] == 'int' and ix[1] < len(old[1]):
            upd(c, loc, ('vec', old[1][:ix[1]] + old[1][ix[1] + 1:]), c.name.lower(), ix)
        else:
            upd(c, loc, ('vremove', old, ix), 'vec.' + c.name.split('::')[1], ix)
        if c.name.startswith('VecDeque'):
            out = []
            for t, s in split_bool(c.st, ('bin', 'Lt', ix, vlen(c.st, old))):
                out.append(ret(s, SOME(x) if t else NONE))
            return out
        c.st.add(Ev('mayfail', 'Vec::remove', (ix, vlen(c.st, old)), None, c.sp, c.fr.path))
        return x

    @model('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back')
    def vec_pop(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        front = c.name.endswith('front')
        if old[0] == 'vec':
            if not old[1]:
                return NONE
            x = old[1][0] if front else old[1][-1]
            upd(c, loc, ('vec', old[1][1:] if front else old[1][:-1]), 'vec.pop', ('str', 'front' if front else 'back'))
            return SOME(x)
        if old[0] == 'push' and not front:
            upd(c, loc, old[1], 'vec.pop', ('str', 'back'))
            return SOME(old[2])
        out = []
        for t, s in split_bool(c.st, is_emp(c.st, old)):
            if t:
                out.append(ret(s, NONE))
            else:
                ix = ('int', 0) if front else ('last',)
                x = I.walk1(s, old, ('i', ix))
                c2 = c
                I.store_quiet(s, loc, ('vremove', old, ix))
                s.add(Ev('write', 'vec.pop', (('ref', loc), ('str', 'front' if front else 'back')), None, c.sp, c.fr.path))
                out.append(ret(s, SOME(x)))
        return out

    @model('Vec::append', 'Vec::extend_from_slice', 'VecDeque::append')
    def vec_append(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        l2 = vloc(c, 1)
        x = I.load(c.st, l2)
        if old[0] == 'vec' and x[0] in ('vec', 'arr'):
            new = ('vec', old[1] + x[1])
        else:
            new = ('vappend', old, x)
        upd(c, loc, new, 'vec.append', x)
        if c.name.endswith('append'):
            I.store_quiet(c.st, l2, ('vec', ()))
        return UNIT

    @model('Vec::truncate', 'Vec::resize', 'Vec::reverse', 'slice::sort', 'slice::reverse', 'slice::sort_unstable', 'slice::swap', 'Vec::dedup', 'slice::sort_by', 'slice::sort_by_key', 'VecDeque::rotate_left')
    def vec_mut(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        op = c.name.split('::')[1]
        if op == 'reverse':
            new = old[1] if old[0] == 'revd' else (old[0], tuple(reversed(old[1]))) if old[0] in ('vec', 'arr') else ('revd', old)
        else:
            new = ('vop', op, old) + tuple(c.args[1:])
        upd(c, loc, new, 'vec.' + op, *c.args[1:])
        return UNIT

    @model('Index::index', 'IndexMut::index_mut')
    def index(c):
        if c.callee['r'] == 'unresolved':
            return NotImplemented
        t = c.at[0]
        u = p.ty(c.fr.crate, t['t']) if t.get('k') == 'ref' else {}
        loc = I.deref(c.args[0])
        s = u.get('s', '')
        d = u.get('d', '')
        if 'collections::HashMap' in d or 'BTreeMap' in d:
            k = content(c.st, c.args[1])
            c.st.add(Ev('mayfail', 'map index', (k,), None, c.sp, c.fr.path))
            return ('ref', (loc[0], loc[1] + (('k', k),)))
        it = c.at[1].get('s', '')
        if d == 'std::string::String' or s == 'str':
            v = content(c.st, I.load(c.st, loc)) if d else content(c.st, c.args[0])
            c.st.add(Ev('mayfail', 'str slice', (v, c.args[1]), None, c.sp, c.fr.path))
            return ('app', 'strslice', (v, c.args[1]), None)
        if s.startswith(('toml_edit', '&toml_edit', '&mut toml_edit')):
            k = content(c.st, c.args[1])
            c.st.add(Ev('call', 'toml.' + c.name.split('::')[1], (c.args[0], k), None, c.sp, c.fr.path))
            if c.name == 'Index::index':
                c.st.add(Ev('mayfail', 'toml index', (k,), None, c.sp, c.fr.path))
            return ('ref', (loc[0], loc[1] + (('k', k),)))
        if 'Range' in it:
            c.st.add(Ev('mayfail', 'slice range', (c.args[1],), None, c.sp, c.fr.path))
            return I.new_cell(c.st, ('app', 'subslice', (I.load(c.st, loc), c.args[1]), None))
        c.st.add(Ev('mayfail', 'index', (c.args[1], vlen(c.st, I.load(c.st, loc))), None, c.sp, c.fr.path))
        return ('ref', (loc[0], loc[1] + (('i', c.args[1]),)))

    @model('v1::Some', 'Option::Some', 'v1::Ok', 'Result::Ok', 'v1::Err', 'Result::Err')
    def ctor_fn(c):
        n = c.name.split('::')[1]
        return (SOME if n == 'Some' else OK if n == 'Ok' else ERR)(c.args[0])

    @model('Value::as_inline_table_mut', 'Value::as_array_mut')
    def value_as_mut(c):
        loc = I.deref(c.args[0])
        want = 'InlineTable' if c.name == 'Value::as_inline_table_mut' else 'Array'
        r = []
        for n, pay, s2 in split_adt(c.st, I.load(c.st, loc), 'toml_edit::Value', ['String', 'Integer', 'Float', 'Boolean', 'Datetime', 'Array', 'InlineTable']):
            r.append(('ret', SOME(('ref', (loc[0], loc[1] + (want + '.0',)))) if n == want else NONE, s2))
        return r

    @model('toml_edit::value')
    def toml_value(c):
        t = c.at[0].get('s', '')
        v = c.args[0] if t == 'toml_edit::Value' else ('app', 'to_toml', (sv(c, 0) if t in ('&str', 'std::string::String', '&std::string::String') else content(c.st, c.args[0]),), None)
        return ('adt', 'toml_edit::Item', 'Value', (('0', v),))

    @model('slice::get', 'slice::get_mut', 'Vec::get', 'VecDeque::get', 'VecDeque::get_mut', 'Array::get', 'Array::get_mut')
    def slice_get(c):
        loc = vloc(c)
        v = I.load(c.st, loc)
        ix = c.args[1]
        if 'Range' in (c.at[1].get('s', '') if len(c.at) > 1 else ''):
            return ('app', 'slice::get', (v, ix), None)
        out = []
        for t, s in split_bool(c.st, I.binop(c.st, 'Lt', ix, vlen(c.st, v))):
            out.append(ret(s, SOME(('ref', (loc[0], loc[1] + (('i', ix),)))) if t else NONE))
        return out

    @model('slice::get_unchecked', 'slice::get_unchecked_mut')
    def slice_get_u(c):
        loc = vloc(c)
        c.st.add(Ev('mayfail', 'get_unchecked', (c.args[1],), None, c.sp, c.fr.path))
        return ('ref', (loc[0], loc[1] + (('i', c.args[1]),)))

    @model('slice::first', 'slice::last', 'slice::last_mut', 'slice::first_mut', 'VecDeque::front', 'VecDeque::back', 'VecDeque::front_mut', 'VecDeque::back_mut')
    def slice_first(c):
        loc = vloc(c)
        v = I.load(c.st, loc)
        front = 'first' in c.name or 'front' in c.name
        if v[0] in ('vec', 'arr') and v[1]:
            return SOME(('ref', (loc[0], loc[1] + (('i', ('int', 0 if front else len(v[1]) - 1)),))))
        out = []
        for t, s in split_bool(c.st, is_emp(c.st, v)):
            out.append(ret(s, NONE if t else SOME(('ref', (loc[0], loc[1] + (('i', ('int', 0) if front else ('last',)),))))))
        return out

    @model('slice::concat', 'slice::join', 'Join::join', 'Concat::concat')
    def slice_join(c):
        v = I.load(c.st, vloc(c))
        sep = content(c.st, c.args[1]) if len(c.args) > 1 else ('str', '')
        if v[0] in ('vec', 'arr'):
            out = ('str', '')
            for i, x in enumerate(v[1]):
                if i:
                    out = concat(out, sep)
                out = concat(out, content(c.st, x))
            return out
        return ('app', 'join', (v, sep), None)

    @model('slice::contains', 'VecDeque::contains')
    def slice_contains(c):
        loc = vloc(c)
        x = content(c.st, c.args[1])
        ot = I.deref(c.args[1])
        x = content(c.st, I.load(c.st, ot))
        return iter_loop(c, ('it', 'seq', ('ref', loc), 'ref', ()), 'any',
                         lambda st, item: [('ret', eqv(st, content(st, I.loadp(st, item)), x, False), st)])

    # ------------------------------------------------------------------ maps
    def haskey(st, m, k):
        n = 0
        while n < 50:
            n += 1
            if m[0] == 'emptymap':
                return FALSE
            if m[0] == 'minsert':
                if m[2] == k:
                    return TRUE
                if m[2][0] == 'str' and k[0] == 'str' or m[2][0] == 'int' and k[0] == 'int':
                    m = m[1]
                    continue
                return ('haskey', m, k)
            if m[0] == 'mremove':
                if m[2] == k:
                    return FALSE
                return ('haskey', m, k)
            if m[0] == 'upd':
                m = m[1]
                continue
            break
        return ('haskey', m, k)
    I.haskey = haskey

    old_walk1 = I.walk1

    def walk1(st, v, e):
        if not isinstance(e, str) and e[0] == 'k':
            k = e[1]
            m = v
            n = 0
            while n < 50:
                n += 1
                if m[0] == 'minsert':
                    if m[2] == k:
                        return m[3]
                    if m[2][0] == 'str' and k[0] == 'str' or m[2][0] == 'int' and k[0] == 'int':
                        m = m[1]
                        continue
                    return ('fld', m, e)
                if m[0] == 'upd':
                    hit = [x for n_, x in m[2] if n_ == e]
                    if hit:
                        return hit[0]
                    if all(not isinstance(n_, str) and n_[0] == 'k' and n_[1][0] == 'str' and k[0] == 'str' for n_, _ in m[2]):
                        m = m[1]
                        continue
                    return ('fld', m, e)
                break
            return ('fld', m, e)
        if not isinstance(e, str) and e[0] == 'i':
            if v[0] == 'seqmap' and v[4] and (contains(v[2], v[1]) or not any(isinstance(x, tuple) and x[:1] in (('app',), ('alts',)) for x in subterms(v[2]))):
                return subst(v[2], v[1], e[1])
            if v[0] == 'push':
                if e[1] == ('last',):
                    return v[2]
            if v[0] in ('vec', 'arr') and e[1] == ('last',) and v[1]:
                return v[1][-1]
            if v[0] == 'vecrep':
                return v[1]
            if v[0] == 'revd' and e[1][0] == 'ix':      # as for an iterator run backwards: some index
                return walk1(st, v[1], e)
            if v[0] in ('vec', 'arr') and len(v[1]) == 1:
                return v[1][0]
        return old_walk1(st, v, e)
    I.walk1 = walk1

    def subst(t, a, b):
        if t == a:
            return b
        if isinstance(t, tuple):
            return tuple(subst(x, a, b) for x in t)
        return t
    I.subst = subst

    @model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut', 'InlineTable::get', 'InlineTable::get_mut', 'Table::get', 'Table::get_mut', 'DocumentMut::get', 'Map::get')
    def map_get(c):
        loc = vloc(c)
        k = sv(c, 1)
        out = []
        for t, s in split_bool(c.st, haskey(c.st, I.load(c.st, loc), k)):
            out.append(ret(s, SOME(('ref', (loc[0], loc[1] + (('k', k),)))) if t else NONE))
        return out

    @model('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'InlineTable::contains_key', 'Table::contains_key', 'BTreeSet::contains', 'DashMap::contains_key')
    def contains_key(c):
        return haskey(c.st, I.load(c.st, vloc(c)), sv(c, 1))

    @model('HashMap::insert', 'HashSet::insert', 'BTreeMap::insert', 'InlineTable::insert', 'Table::insert', 'BTreeSet::insert', 'DashMap::insert')
    def map_insert(c):
        loc = vloc(c)
        k = sv(c, 1)
        v = c.args[2] if len(c.args) > 2 else UNIT
        m = I.load(c.st, loc)
        hk = haskey(c.st, m, k)
        oldv = I.walk1(c.st, m, ('k', k))
        upd(c, loc, ('minsert', m, k, v), 'map.insert', k, v)
        if len(c.args) == 2:
            return I.neg(hk)
        if hk == FALSE:
            return NONE
        if hk == TRUE:
            return SOME(oldv)
        return ('mapold', m, k)

    @model('HashMap::remove', 'HashSet::remove', 'BTreeMap::remove', 'InlineTable::remove', 'Table::remove', 'DashMap::remove', 'HashMap::remove_entry')
    def map_remove(c):
        loc = vloc(c)
        k = sv(c, 1)
        m = I.load(c.st, loc)
        hk = haskey(c.st, m, k)
        oldv = I.walk1(c.st, m, ('k', k))
        upd(c, loc, ('mremove', m, k), 'map.remove', k)
        if 'Set' in c.name:
            return hk
        out = []
        for t, s in split_bool(c.st, hk):
            out.append(ret(s, SOME(oldv) if t else NONE))
        return out

    @model('HashMap::entry', 'BTreeMap::entry')
    def map_entry(c):
        return ('entry', ('ref', vloc(c)), content(c.st, c.args[1]))

    @model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
    def entry_or_insert(c):
        e = c.args[0]
        if e[0] != 'entry':
            return NotImplemented
        loc = I.deref(e[1])
        k = e[2]
        out = []
        slot = ('ref', (loc[0], loc[1] + (('k', k),)))
        for t, s in split_bool(c.st, haskey(c.st, I.load(c.st, loc), k)):
            if t:
                out.append(ret(s, slot))
                continue
            vals = [('ret', c.args[1], s)] if c.name == 'Entry::or_insert' else I.call_value(c.fr, s, c.args[1], [], c.sp) if c.name == 'Entry::or_insert_with' else [('ret', ('app', 'default', (), None), s)]
            for kind, v, s2 in vals:
                if kind != 'ret':
                    out.append((kind, v, s2))
                    continue
                m = I.load(s2, loc)
                I.store_quiet(s2, loc, ('minsert', m, k, v))
                s2.add(Ev('write', 'map.insert', (('ref', loc), k, v), None, c.sp, c.fr.path))
                out.append(ret(s2, slot))
        return out

    # ------------------------------------------------------------------ iterators
    def seqval(st, it):
        return I.load(st, I.deref(it[2]))

    def mk(kind, *a):
        return ('it', kind) + a

    @model('slice::iter', 'slice::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'HashSet::iter', 'BTreeSet::iter', 'Array::iter', 'Vec::iter')
    def s_iter(c):
        return mk('seq', ('ref', vloc(c)), 'ref', ())

    @model('HashMap::iter', 'HashMap::iter_mut', 'BTreeMap::iter', 'InlineTable::iter', 'Table::iter', 'DocumentMut::iter', 'InlineTable::iter_mut', 'Table::iter_mut', 'BTreeMap::iter_mut')
    def m_iter(c):
        loc = vloc(c)
        return mk('map', ('ref', loc), 'kv')

    @model('HashMap::values', 'HashMap::values_mut', 'BTreeMap::values', 'HashMap::into_values')
    def m_values(c):
        if c.name.endswith('into_values'):
            return mk('map', I.new_cell(c.st, c.args[0]), 'vv')
        return mk('map', ('ref', vloc(c)), 'v')

    @model('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
    def m_keys(c):
        if c.name.endswith('into_keys'):
            return mk('map', I.new_cell(c.st, c.args[0]), 'kk')
        return mk('map', ('ref', vloc(c)), 'k')

    def is_map_ty(s):
        return ('collections::HashMap' in s or 'collections::hash_map' in s or 'BTreeMap' in s or 'InlineTable' in s or 'toml_edit::Table' in s) and 'Vec<' not in s.split('HashMap')[0]

    @model('IntoIterator::into_iter', 'Vec::into_iter', 'Vec::drain', 'VecDeque::drain', 'HashMap::drain')
    def into_iter(c):
        a = c.args[0]
        t = c.at[0] if c.at else {}
        r = to_iter(c, a, t)
        if r is None:
            return NotImplemented
        if c.name.endswith('drain'):
            # contents are taken
            loc = vloc(c)
            old = I.load(c.st, loc)
            r = mk('map', I.new_cell(c.st, old), 'kvv') if 'Map' in c.name else mk('seq', I.new_cell(c.st, old), 'val', ())
            upd(c, loc, ('vec', ()) if 'Map' not in c.name else ('emptymap',), 'vec.drain')
        return r

    def to_iter(c, a, t):
        if a[0] == 'it':
            return a
        s = t.get('s', '')
        rk = c.callee.get('rk') if c.name == 'IntoIterator::into_iter' else None
        if rk in p.fns and p.fns[rk].local:
            return None
        if s.startswith('std::option::Option') or s.startswith('std::result::Result'):
            return mk('opt', a)
        if s.startswith('std::ops::Range<') or s.startswith('std::ops::RangeInclusive<') or s.startswith('std::ops::range::Range'):
            return range_it(a)
        if t.get('k') == 'ref':
            u = p.ty(c.fr.crate, t['t'])
            us = u.get('s', '')
            if is_map_ty(us) and u.get('k') == 'adt':
                return mk('map', a, 'kv')
            if us.startswith('std::option::Option'):
                return mk('opt', a)
            return mk('seq', a if a[0] == 'ref' else ('ref', I.deref(a)), 'ref', ())
        if t.get('k') == 'adt' and is_map_ty(s):
            return mk('map', I.new_cell(c.st, a), 'kvv')
        if a[0] == 'ref' and t.get('k') != 'adt':
            return mk('seq', a, 'ref', ())
        return mk('seq', I.new_cell(c.st, a), 'val', ())
    I.to_iter = to_iter

    def range_it(a):
        if a[0] == 'adt':
            d = dict(a[3])
            lo = d.get('start')
            hi = d.get('end')
            if lo is not None and hi is not None:
                return mk('range', lo, hi, 'incl' if 'Inclusive' in a[1] else 'excl')
        return mk('range', ('app', 'range_start', (a,), None), ('app', 'range_end', (a,), None), '?')

    @model('RangeInclusive::new')
    def rincl(c):
        return ('adt', 'std::ops::RangeInclusive', 'RangeInclusive', (('start', c.args[0]), ('end', c.args[1]), ('exhausted', FALSE)))

    def describe(st, it):
        """what an iterator runs over: (kind, source value, ...) with the closures left out"""
        if it[0] != 'it':
            return it
        k = it[1]
        if k == 'seq':
            return ('seq', I.load(st, I.deref(it[2]))) + ((it[4],) if it[4] and it[4][0] != 'at' else ())
        if k == 'map':
            return ('map', I.load(st, I.deref(it[2])))
        if k == 'range' and it[2] == ('int', 0) and it[3][0] == 'len' and it[4] != 'incl':
            return ('seq', it[3][1])
        return (k,) + tuple(describe(st, x) if isinstance(x, tuple) and x and x[0] == 'it' else ('clo',) if isinstance(x, tuple) and x and x[0] in ('clo', 'ref') else x for x in it[2:])

    def nextit(c, st, it, tag, inloop=False):
        """[(end|item|panic.., value, newit, state)]"""
        if it[0] != 'it':
            # opaque iterator value
            return [('end', None, it, st.copy()), ('item', ('item', it, tag), it, st)]
        k = it[1]
        if k == 'seq':
            loc = I.deref(it[2])
            v = I.load(st, loc)
            restr = it[4]
            if v[0] in ('vec', 'arr') and not v[1]:
                return [('end', None, it, st)]
            # known short sequence, concrete cursor
            if v[0] in ('vec', 'arr') and len(v[1]) <= 24 and (not restr and not inloop or restr and restr[0] == 'at'):
                pos = restr[1] if restr else 0
                if isinstance(pos, int):
                    if pos >= len(v[1]):
                        return [('end', None, it, st)]
                    ix = ('int', pos)
                    nit = it[:4] + (('at', pos + 1),)
                    item = ('ref', (loc[0], loc[1] + (('i', ix),))) if it[3] == 'ref' else v[1][pos]
                    return [('item', item, nit, st)]
                restr = ()
            ix = ('ix', tag) if not restr or restr[0] == 'at' else ('ix', tag, restr)
            s2 = st.copy()
            item = ('ref', (loc[0], loc[1] + (('i', ix),))) if it[3] == 'ref' else I.walk1(st, v, ('i', ix))
            return [('end', None, it, s2), ('item', item, it, st)]
        if k == 'map':
            loc = I.deref(it[2])
            m = I.load(st, loc)
            if m == ('emptymap',):
                return [('end', None, it, st)]
            s2 = st.copy()
            key = ('mapkey', m, tag)
            st.facts[('B', ('haskey', m, key))] = True
            slot = ('ref', (loc[0], loc[1] + (('k', key),)))
            mode = it[3]
            kr = key
            item = {'kv': ('tup', (kr, slot)), 'v': slot, 'k': kr, 'vv': I.load(st, slot[1]), 'kk': key, 'kvv': ('tup', (key, I.load(st, slot[1])))}[mode]
            return [('end', None, it, s2), ('item', item, it, st)]
        if k == 'range':
            s2 = st.copy()
            lo, hi = it[2], it[3]
            if lo == ('int', 0) and hi[0] == 'len' and it[4] != 'incl':
                # the indices of a sequence
                return [('end', None, it, s2), ('item', ('ix', tag), it, st)]
            if lo[0] == 'int' and hi[0] == 'int' and hi[1] - lo[1] <= 24:
                n = hi[1] + (1 if it[4] == 'incl' else 0)
                if lo[1] >= n:
                    return [('end', None, it, st)]
                return [('item', lo, mk('range', ('int', lo[1] + 1), hi, it[4]), st)]
            x = ('rangeix', lo, hi, it[4], tag)
            return [('end', None, it, s2), ('item', x, it, st)]
        if k == 'opt':
            v = it[2]
            if v is None or v == ('none',):
                return [('end', None, it, st)]
            inner = content(st, v)
            out = []
            if inner[0] == 'adt' and inner[1].endswith('Result') or ('V', inner) in st.facts and 'Ok' in st.facts[('V', inner)]:
                res = split_adt(st, inner, 'std::result::Result', ['Ok', 'Err'])
                for n, x, s in res:
                    out.append(('item', x, mk('opt', ('none',)), s) if n == 'Ok' else ('end', None, it, s))
                return out
            for x, s in split_opt(st, inner):
                if x is None:
                    out.append(('end', None, it, s))
                else:
                    if v[0] == 'ref':
                        x = ('ref', (v[1][0], v[1][1] + ('Some.0',)))
                    out.append(('item', x, mk('opt', ('none',)), s))
            return out
        if k in ('map_', 'inspect'):
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                if kind != 'item':
                    out.append((kind, x, mk(k, ni, it[3]) if kind in ('end', 'skip') else ni, s))
                    continue
                a = x if k == 'map_' else I.new_cell(s, x)
                for kk, y, s2 in I.call_value(c.fr, s, it[3], [a], c.sp):
                    if kk == 'ret':
                        out.append(('item', y if k == 'map_' else x, mk(k, ni, it[3]), s2))
                    else:
                        out.append((kk, y, None, s2))
            return out
        if k in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while'):
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                nit = mk(k, ni, it[3])
                if kind != 'item':
                    out.append((kind, x, nit, s))
                    continue
                a = x if k in ('filter_map', 'map_while') else I.new_cell(s, x)
                for kk, y, s2 in I.call_value(c.fr, s, it[3], [a], c.sp):
                    if kk != 'ret':
                        out.append((kk, y, None, s2))
                    elif k in ('filter_map', 'map_while'):
                        for pay, s3 in split_opt(s2, y):
                            if pay is not None:
                                out.append(('item', pay, nit, s3))
                            elif k == 'map_while':
                                out.append(('end', None, nit, s3))
                            else:
                                out.append(('skip', None, nit, s3))
                    else:
                        for t, s3 in split_bool(s2, y):
                            if t:
                                out.append(('item', x, nit, s3)) if k != 'skip_while' else out.append(('skip', None, nit, s3))
                            elif k == 'take_while':
                                out.append(('end', None, nit, s3))
                            elif k == 'skip_while':
                                out.append(('item', x, ni, s3))
                            else:
                                out.append(('skip', None, nit, s3))
            return out
        if k == 'enumerate':
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                if kind == 'item':
                    ix = it[3]
                    src = it[2]
                    simple = src[0] == 'it' and src[1] == 'seq'
                    if ix is not None and ix[0] == 'int' and ni != src:
                        out.append(('item', ('tup', (ix, x)), mk(k, ni, ('int', ix[1] + 1)), s))
                    else:
                        iv = ('ix', tag) if aligned_src(s, src)[0] else ('enumix', tag)
                        out.append(('item', ('tup', (iv, x)), mk(k, ni, it[3]), s))
                else:
                    out.append((kind, x, mk(k, ni, it[3]) if kind in ('end', 'skip') else None, s))
            return out
        if k == 'rev':
            src = it[2]
            out = []
            if src[0] == 'it' and src[1] == 'seq':
                v = seqval(st, src)
                if v[0] in ('vec', 'arr') and len(v[1]) <= 24 and (not src[4]):
                    n = it[3] if len(it) > 3 else len(v[1]) - 1
                    if isinstance(n, int):
                        if n < 0:
                            return [('end', None, it, st)]
                        loc = I.deref(src[2])
                        item = ('ref', (loc[0], loc[1] + (('i', ('int', n)),))) if src[3] == 'ref' else v[1][n]
                        return [('item', item, mk('rev', src, n - 1), st)]
            for kind, x, ni, s in nextit(c, st, src, tag):
                out.append((kind, x, mk('rev', ni) if ni is not None else None, s))
            return out
        if k in ('cloned', 'copied'):
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                out.append((kind, I.loadp(s, x) if kind == 'item' else x, mk(k, ni), s))
            return out
        if k == 'zip':
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                if kind != 'item':
                    out.append((kind, x, mk('zip', ni, it[3]), s))
                    continue
                for kind2, y, nj, s2 in nextit(c, s, it[3], tag):
                    if kind2 == 'item':
                        out.append(('item', ('tup', (x, y)), mk('zip', ni, nj), s2))
                    else:
                        out.append((kind2, y, mk('zip', ni, nj), s2))
            return out
        if k == 'chain':
            out = []
            for i in (2, 3):
                for kind, x, ni, s in nextit(c, st.copy(), it[i], tag + (('chain', i),) if isinstance(tag, tuple) else (tag, i)):
                    if kind == 'end' and i == 2:
                        continue
                    out.append((kind, x, it, s))
            return out
        if k in ('skip', 'take', 'step_by'):
            out = []
            src = it[2]
            if k == 'take' and src[0] == 'it' and src[1] == 'repeat':
                pass
            if src[0] == 'it' and src[1] in ('seq',) and not src[4]:
                src = src[:4] + ((k, it[3]),)
                v = seqval(st, src)
                if v[0] in ('vec', 'arr') and it[3][0] == 'int' and k == 'skip':
                    src = src[:4] + (('at', it[3][1]),)
                    return nextit(c, st, src, tag)
                return nextit(c, st, src, tag)
            for kind, x, ni, s in nextit(c, st, src, tag):
                out.append((kind, x, mk(k, ni, it[3]), s))
            if k == 'take':
                pass
            return out
        if k == 'flat':
            out = []
            for kind, x, ni, s in nextit(c, st, it[2], tag):
                nit = mk('flat', ni, it[3])
                if kind != 'item':
                    out.append((kind, x, nit, s))
                    continue
                vals = [('ret', x, s)] if it[3] is None else I.call_value(c.fr, s, it[3], [x], c.sp)
                for kk, y, s2 in vals:
                    if kk != 'ret':
                        out.append((kk, y, None, s2))
                        continue
                    inner = y
                    if inner[0] != 'it':
                        cy = content(s2, y)
                        if optlike(s2, cy):
                            inner = mk('opt', y)
                        else:
                            inner = mk('seq', I.new_cell(s2, y) if y[0] != 'ref' else y, 'val' if y[0] != 'ref' else 'ref', ())
                    for k3, z, nj, s3 in nextit(c, s2, inner, (tag, 'flat')):
                        if k3 == 'end':
                            out.append(('skip', None, nit, s3))
                        else:
                            out.append((k3, z, nit, s3))
            return out
        if k == 'repeat':
            return [('item', it[2], it, st)]
        if k == 'once':
            if it[2] is None or it[2] == ('none',):
                return [('end', None, it, st)]
            return [('item', it[2], mk('once', ('none',)), st)]
        if k == 'empty':
            return [('end', None, it, st)]
        if k == 'succ':
            return [('end', None, it, st.copy()), ('item', ('item', it, tag), it, st)]
        raise AnalysisError('iterator kind ' + k)
    I.nextit = nextit

    for nm in ('map', 'inspect'):
        M['Iterator::' + nm] = lambda c, nm=nm: mk('map_' if nm == 'map' else nm, as_it(c), I.new_cell(c.st, c.args[1]) if c.args[1][0] == 'clo' else c.args[1])
    for nm in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while'):
        M['Iterator::' + nm] = lambda c, nm=nm: mk(nm, as_it(c), I.new_cell(c.st, c.args[1]) if c.args[1][0] == 'clo' else c.args[1])

    def as_it(c, i=0):
        a = c.args[i]
        if a[0] == 'it':
            return a
        b = content(c.st, a)
        if b[0] == 'it':
            return b
        t = c.at[i] if i < len(c.at) else {}
        s = t.get('s', '')
        if t.get('k') == 'adt' and ('Range' in s):
            return range_it(a)
        if t.get('k') == 'adt' and s.startswith(('std::vec::Vec<', 'std::collections')):
            return to_iter(c, a, t)
        if t.get('k') == 'array':
            return mk('seq', I.new_cell(c.st, a), 'val', ())
        if i > 0:
            r = to_iter(c, a, t)
            if r is not None:
                return r
        return a

    @model('Iterator::enumerate')
    def it_enum(c):
        src = as_it(c)
        known = False
        if src[0] == 'it' and src[1] == 'seq':
            v = seqval(c.st, src)
            known = v[0] in ('vec', 'arr')
        return mk('enumerate', src, ('int', 0) if known else None)

    @model('Iterator::rev')
    def it_rev(c):
        a = as_it(c)
        if a[0] == 'it' and a[1] == 'rev':
            return a[2]
        return mk('rev', a)

    @model('Iterator::cloned', 'Iterator::copied')
    def it_cloned(c):
        return mk('cloned', as_it(c))

    @model('Iterator::zip', 'iter::zip')
    def it_zip(c):
        return mk('zip', as_it(c), as_it(c, 1))

    @model('Iterator::chain')
    def it_chain(c):
        return mk('chain', as_it(c), as_it(c, 1))

    @model('Iterator::skip', 'Iterator::take', 'Iterator::step_by')
    def it_skip(c):
        return mk(c.name.split('::')[1], as_it(c), c.args[1])

    @model('Iterator::flat_map')
    def it_flat_map(c):
        f = c.args[1]
        g = p.fns.get(f[1]) if f[0] == 'clo' else None
        kind = 'filter_map' if g is not None and p.ty(g.crate, g.locals[0][0]).get('s', '').startswith(('std::option::Option<', 'core::option::Option<', 'Option<')) else 'flat'
        return mk(kind, as_it(c), I.new_cell(c.st, c.args[1]) if c.args[1][0] == 'clo' else c.args[1])

    @model('Iterator::flatten')
    def it_flatten(c):
        return mk('flat', as_it(c), None)

    @model('Iterator::peekable', 'Iterator::fuse', 'Iterator::by_ref', 'Iterator::into_iter')
    def it_id(c):
        return as_it(c)

    @model('iter::once')
    def it_once(c):
        return mk('once', c.args[0])

    @model('iter::empty')
    def it_empty(c):
        return mk('empty')

    @model('iter::repeat', 'iter::repeat_n')
    def it_repeat(c):
        return mk('repeat', c.args[0])

    def get_it(c):
        a = c.args[0]
        loc = None
        n = 0
        while a[0] == 'ref' and n < 6:
            loc = a[1]
            a = I.load(c.st, loc)
            n += 1
        t = c.at[0] if c.at else {}
        while t.get('k') == 'ref':
            t = p.ty(c.fr.crate, t['t'])
        if a[0] == 'adt' and 'Range' in a[1]:
            a = range_it(a)
        return a, loc

    def straight(c, it, loc, back):
        """a step outside of all loops from a known place of a sequence: the places are counted"""
        if back or loc is None or it[0] != 'it' or it[1] != 'seq' or c.name != 'Iterator::next':
            return None
        if any(c.fr.cur in body for body in c.fr.loops.values()):
            return None
        r = it[4]
        n = 0 if not r else r[1] if r[0] == 'at' and isinstance(r[1], int) else None
        l = I.deref(it[2])
        v = I.load(c.st, l)
        if n is None or n > 24 or v[0] in ('vec', 'arr') and len(v[1]) <= 24:
            return None
        L = vlen(c.st, v)
        ix = ('i', ('int', n))
        out = []
        for t, s in split_bool(c.st, I.binop(c.st, 'Lt', ('int', n), L)):
            if t:
                out.append(('item', ('ref', (l[0], l[1] + (ix,))) if it[3] == 'ref' else I.walk1(s, v, ix), it[:4] + (('at', n + 1),), s))
            else:
                out.append(('end', None, it, s))
        return out

    @model('Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::last')
    def it_next(c):
        it, loc = get_it(c)
        if c.callee['r'] == 'item' and c.callee.get('rk') in p.fns and p.fns[c.callee['rk']].local:
            return NotImplemented
        if c.callee['r'] == 'virtual':
            return NotImplemented
        back = c.name.endswith('next_back')
        if back and it[0] == 'it':
            it = mk('rev', it) if it[1] != 'rev' else it[2]
        tag = next(I.cnt)
        out = []
        desc = describe(c.st, it)
        inloop = getattr(c.fr, 'cur', None) in c.fr.loops or any(c.fr.cur in body for body in c.fr.loops.values())
        for kind, x, ni, s in straight(c, it, loc, back) or nextit(c, c.st, it, tag, inloop):
            if kind == 'skip':
                # the loop this call drives goes on with the next element
                if getattr(c.fr, 'cur', None) in c.fr.loops:
                    s.add(Ev('iter', 'skip', (desc,), None, c.sp, c.fr.path, (tag,) + aligned_src(c.st, it)))
                    if loc is not None and ni is not None and ni != it and not back:
                        I.store_quiet(s, loc, ni)
                    out.append(('skip', None, s))
                continue
            if kind not in ('item', 'end'):
                out.append((kind, x, s))
                continue
            s.add(Ev('iter', kind, (desc,) + ((x,) if kind == 'item' else ()), None, c.sp, c.fr.path, (tag,) + aligned_src(c.st, it)))
            if loc is not None and ni is not None and ni != it and not back:
                I.store_quiet(s, loc, ni)
            out.append(ret(s, SOME(x) if kind == 'item' else NONE))
        return out

    def iter_loop(c, it, mode, f, init=UNIT):
        """run a consumer over `it`; f(st,item) -> [(kind, value, st)].
        modes: any all find position for_each fold collect... returns list of outcomes"""
        tagbase = ('t', next(I.cnt))
        curtag = c.curtag = [tagbase]
        itcell = I.new_cell(c.st, it)

        # concrete unrolling for known finite sources
        def known(st):
            x = I.loadp(st, itcell)
            return known_it(st, x)

        def step(st, tag):
            outs = []
            cur = I.loadp(st, itcell)
            desc = describe(st, cur)
            for kind, x, ni, s in nextit(c, st, cur, tag):
                if kind in ('item', 'end', 'skip'):
                    s.add(Ev('iter', kind, (desc,) + ((x,) if kind == 'item' else ()), None, c.sp, c.fr.path, (tag,) + aligned_src(s, cur)))
                if kind in ('panic', 'ub'):
                    outs.append((kind, x, s))
                    continue
                if ni is not None and ni != cur:
                    I.store_quiet(s, itcell[1], ni)
                if kind == 'skip':
                    outs.append(('back', None, s))
                elif kind == 'end':
                    outs.append(('exit', ('end', None), s))
                else:
                    for kk, y, s2 in f(s, x):
                        if kk != 'ret':
                            outs.append((kk, y, s2))
                            continue
                        if mode == 'any':
                            for t, s3 in split_bool(s2, y):
                                outs.append(('exit', ('val', TRUE), s3) if t else ('back', None, s3))
                        elif mode == 'all':
                            for t, s3 in split_bool(s2, y):
                                outs.append(('back', None, s3) if t else ('exit', ('val', FALSE), s3))
                        elif mode == 'find':
                            for t, s3 in split_bool(s2, y):
                                outs.append(('exit', ('val', SOME(x)), s3) if t else ('back', None, s3))
                        elif mode == 'position':
                            for t, s3 in split_bool(s2, y):
                                outs.append(('exit', ('val', SOME(('ix', tag) if aligned_src(s3, cur)[0] else ('enumix', tag))), s3) if t else ('back', None, s3))
                        elif mode == 'find_map':
                            for pay, s3 in split_opt(s2, y):
                                outs.append(('exit', ('val', SOME(pay)), s3) if pay is not None else ('back', None, s3))
                        elif mode == 'try':
                            # y = ('cont', v) | ('brk', v)
                            if y[0] == 'brk':
                                outs.append(('exit', ('val', y[1]), s2))
                            else:
                                outs.append(('back', None, s2))
                        else:
                            outs.append(('back', None, s2))
            return outs

        if known(c.st):
            work = [c.st]
            res = []
            n = 0
            while work:
                n += 1
                if n > 400:
                    raise AnalysisError('unroll')
                s = work.pop()
                for kind, pl, s2 in step(s, ('k', n)):
                    if kind == 'back':
                        work.append(s2)
                    else:
                        res.append((kind, pl, s2))
        else:
            def stepf(s):
                curtag[0] = ('t', next(I.cnt))
                return step(s, curtag[0])
            res = I.loop(c.st, stepf, c.sp, c.fr)
        out = []
        for kind, pl, s in res:
            if kind == 'exit':
                out.append((pl[0], pl[1], s, itcell, tagbase))
            else:
                out.append((kind, pl, s, itcell, tagbase))
        if mode in ('any', 'all', 'find', 'position', 'find_map'):
            fin = []
            for kind, v, s, _, _ in out:
                if kind == 'end':
                    fin.append(ret(s, {'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'find_map': NONE}[mode]))
                elif kind == 'val':
                    fin.append(ret(s, v))
                else:
                    fin.append((kind, v, s))
            return fin
        return out
    I.iter_loop = iter_loop

    def known_it(st, x):
        if x[0] != 'it':
            return False
        k = x[1]
        if k == 'seq':
            v = I.load(st, I.deref(x[2]))
            return v[0] in ('vec', 'arr') and len(v[1]) <= 24 and (not x[4] or (x[4][0] == 'at' and isinstance(x[4][1], int)))
        if k in ('map_', 'filter', 'filter_map', 'enumerate', 'rev', 'cloned', 'inspect', 'take_while', 'map_while'):
            return known_it(st, x[2])
        if k == 'zip':
            return known_it(st, x[2]) or known_it(st, x[3])
        if k == 'range':
            return x[2][0] == 'int' and x[3][0] == 'int' and x[3][1] - x[2][1] <= 24
        if k in ('once', 'empty', 'opt'):
            return True
        return False

    def clo1(c, i=1):
        f = c.args[i]
        if f[0] == 'clo':
            f = I.new_cell(c.st, f)
        return f

    @model('Iterator::any', 'Iterator::all')
    def it_any(c):
        it, loc = get_it(c)
        f = clo1(c)
        return iter_loop(c, it, c.name.split('::')[1], lambda st, x: I.call_value(c.fr, st, f, [x], c.sp))

    @model('Iterator::find')
    def it_find(c):
        it, loc = get_it(c)
        f = clo1(c)
        return iter_loop(c, it, 'find', lambda st, x: I.call_value(c.fr, st, f, [I.new_cell(st, x)], c.sp))

    @model('Iterator::position', 'Iterator::rposition')
    def it_position(c):
        it, loc = get_it(c)
        f = clo1(c)
        return iter_loop(c, it, 'position', lambda st, x: I.call_value(c.fr, st, f, [x], c.sp))

    @model('Iterator::find_map')
    def it_find_map(c):
        it, loc = get_it(c)
        f = clo1(c)
        return iter_loop(c, it, 'find_map', lambda st, x: I.call_value(c.fr, st, f, [x], c.sp))

    def fin(out, endval):
        r = []
        for kind, v, s, ic, tb in out:
            if kind == 'end':
                r.append(ret(s, endval(s)))
            elif kind == 'val':
                r.append(ret(s, v))
            else:
                r.append((kind, v, s))
        return r

    @model('Iterator::for_each')
    def it_for_each(c):
        it, loc = get_it(c)
        f = clo1(c)
        return fin(iter_loop(c, it, 'each', lambda st, x: I.call_value(c.fr, st, f, [x], c.sp)), lambda s: UNIT)

    @model('Instanceable::iterate')
    def inst_iterate(c):
        # calls the closure with (parent, node, is_owner) of each node of some scene
        if 'Instanceable::iterate' in I.inst:
            return NotImplemented
        f = clo1(c)
        src = I.new_cell(c.st, ('items', content(c.st, c.args[0])))
        it = mk('seq', src, 'val', ())

        def g(st, x):
            return I.call_value(c.fr, st, f, [I.walk1(st, x, 'parent'), I.walk1(st, x, 'node'), I.walk1(st, x, 'is_owner')], c.sp)
        return fin(iter_loop(c, it, 'each', g), lambda s: UNIT)

    @model('Iterator::try_for_each', 'Iterator::try_fold')
    def it_try_each(c):
        it, loc = get_it(c)
        f = clo1(c, len(c.args) - 1)
        isfold = c.name.endswith('fold')
        acc = I.new_cell(c.st, c.args[1] if isfold else UNIT)
        opt = c.dty.get('s', '').startswith('std::option::Option')

        def g(st, x):
            r = []
            a = [I.loadp(st, acc), x] if isfold else [x]
            for kk, y, s2 in I.call_value(c.fr, st, f, a, c.sp):
                if kk != 'ret':
                    r.append((kk, y, s2))
                    continue
                if opt:
                    for pay, s3 in split_opt(s2, y):
                        if pay is None:
                            r.append(('ret', ('brk', NONE), s3))
                        else:
                            I.store_quiet(s3, acc[1], pay)
                            r.append(('ret', ('cont', pay), s3))
                else:
                    for n, pay, s3 in split_adt(s2, y, 'std::result::Result', ['Ok', 'Err']):
                        if n == 'Err':
                            r.append(('ret', ('brk', ERR(pay)), s3))
                        else:
                            I.store_quiet(s3, acc[1], pay)
                            r.append(('ret', ('cont', pay), s3))
            return r
        return fin(iter_loop(c, it, 'try', g), lambda s: (SOME if opt else OK)(I.loadp(s, acc)))

    @model('Iterator::fold')
    def it_fold(c):
        it, loc = get_it(c)
        f = clo1(c, 2)
        acc = I.new_cell(c.st, c.args[1])

        def g(st, x):
            r = []
            for kk, y, s2 in I.call_value(c.fr, st, f, [I.loadp(st, acc), x], c.sp):
                if kk == 'ret':
                    I.store_quiet(s2, acc[1], y)
                r.append((kk, y, s2))
            return r
        return fin(iter_loop(c, it, 'each', g), lambda s: I.loadp(s, acc))

    @model('Iterator::count', 'Iterator::sum', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::product')
    def it_count(c):
        it, loc = get_it(c)
        what = c.name.split('::')[1]
        items = I.new_cell(c.st, ('vec', ()))

        def g(st, x):
            I.store_quiet(st, items[1], ('aggr', what, content(st, x)))
            return [('ret', UNIT, st)]
        if it[0] == 'it' and it[1] == 'seq' and what == 'count':
            return vlen(c.st, seqval(c.st, it))
        return fin(iter_loop(c, it, 'each', g), lambda s: I.fresh(what, (I.loadp(s, items),)) if what in ('count', 'sum', 'product') else I.fresh(what, (I.loadp(s, items),)))

    @model('Iterator::nth')
    def it_nth(c):
        it, loc = get_it(c)
        out = []
        for kind, x, ni, s in nextit(c, c.st, it, next(I.cnt)):
            if kind in ('end', 'item'):
                out.append(ret(s, NONE if kind == 'end' else SOME(('app', 'nth', (x, c.args[1]), None))))
            elif kind != 'skip':
                out.append((kind, x, s))
        return out

    def wrap_elem(ty):
        s = ty.get('s', '')
        if s.startswith('std::result::Result'):
            return 'res'
        if s.startswith('std::option::Option'):
            return 'opt'
        return None

    @model('Iterator::collect', 'FromIterator::from_iter', 'Iterator::partition')
    def collect(c):
        rk = c.callee.get('rk')
        if rk in p.fns and p.fns[rk].local:
            return NotImplemented
        if c.name == 'FromIterator::from_iter':
            it = as_it(c)
            if it[0] != 'it':
                it = to_iter(c, it, c.at[0]) or it
        else:
            it, loc = get_it(c)
        dty = c.dty
        w = wrap_elem(dty)
        inner = dty
        if w:
            inner = p.ty(c.fr.crate, dty['a'][0])
        s = inner.get('s', '')
        ismap = s.startswith(('std::collections::HashMap', 'std::collections::BTreeMap', 'toml_edit::InlineTable', 'toml_edit::Table'))
        isset = s.startswith(('std::collections::HashSet', 'std::collections::BTreeSet'))
        isstr = s.startswith('std::string::String') or s == 'std::boxed::Box<str>'
        src0 = it
        acc = I.new_cell(c.st, ('emptymap',) if ismap or isset else ('str', '') if isstr else ('vec', ()))
        kn = known_it(c.st, it)
        elems = {}

        def add(st, v):
            a = I.loadp(st, acc)
            if isstr:
                v = content(st, v)
                if v[0] == 'char':
                    v = ('str', v[1])
            if kn:
                if ismap and v[0] == 'tup':
                    a = ('minsert', a, content(st, v[1][0]), v[1][1])
                elif isset:
                    a = ('minsert', a, content(st, v), UNIT)
                elif isstr:
                    a = concat(a, v)
                else:
                    a = ('vec', a[1] + (v,)) if a[0] == 'vec' else ('push', a, v)
                I.store_quiet(st, acc[1], a)
            else:
                I.collects.setdefault(TB, set()).add(c.curtag[0])
                v = subst(v, c.curtag[0], TB)
                elems.setdefault(repr(I.snap(st, v)), v)
                st.add(Ev('collect', 'item', (v,), None, c.sp, c.fr.path))

        def g(st, x):
            if w is None:
                add(st, x)
                return [('ret', ('cont', UNIT), st)]
            r = []
            if w == 'opt':
                for pay, s3 in split_opt(st, x):
                    if pay is None:
                        r.append(('ret', ('brk', NONE), s3))
                    else:
                        add(s3, pay)
                        r.append(('ret', ('cont', UNIT), s3))
            else:
                for n, pay, s3 in split_adt(st, x, 'std::result::Result', ['Ok', 'Err']):
                    if n == 'Err':
                        r.append(('ret', ('brk', ERR(pay)), s3))
                    else:
                        add(s3, pay)
                        r.append(('ret', ('cont', UNIT), s3))
            return r
        TB = ('t', next(I.cnt))
        out = iter_loop(c, it, 'try', g)
        res = []
        for kind, v, st, ic, tb in out:
            if kind == 'end':
                if kn:
                    val = I.loadp(st, acc)
                else:
                    aligned, base = aligned_src(st, src0)
                    kindname = 'map' if ismap else 'set' if isset else 'string' if isstr else 'vec'
                    es = list(elems.values())
                    if len(es) == 1:
                        val = ('seqmap', ('ix', TB), es[0], base, aligned and kindname == 'vec', kindname)
                    else:
                        val = ('seqmap', ('ix', TB), ('alts', tuple(es)), base, False, kindname)
                val = val if w is None else SOME(val) if w == 'opt' else OK(val)
                res.append(ret(st, val))
            elif kind == 'val':
                res.append(ret(st, v))
            else:
                res.append((kind, v, st))
        return res

    def optlike(st, t):
        if t[0] == 'adt':
            return t[1].endswith('Option')
        if t[0] == 'fld' and t[1][0] == 'seqmap' and t[2][0] == 'i':
            e = t[1][2]
            return all(x[0] == 'adt' and x[1].endswith('Option') for x in (e[1] if e[0] == 'alts' else (e,)))
        return ('V', t) in st.facts

    def aligned_src(st, it):
        """(is index i of the output element i of the source?, source content)"""
        if it[0] != 'it':
            return False, it
        k = it[1]
        if k == 'seq':
            return (not it[4]), I.load(st, I.deref(it[2]))
        if k == 'map':
            return False, I.load(st, I.deref(it[2]))
        if k in ('map_', 'enumerate', 'cloned', 'inspect'):
            return aligned_src(st, it[2])
        if k in ('filter', 'filter_map', 'flat', 'skip', 'take', 'rev', 'take_while', 'skip_while', 'step_by'):
            a, b = aligned_src(st, it[2])
            return False, (k, b)
        if k == 'range':
            if it[2] == ('int', 0) and it[3][0] == 'len' and it[4] != 'incl':
                return True, it[3][1]
            return False, ('rangeof', it[2], ('bin', 'Add', it[3], ('int', 1)) if it[4] == 'incl' else it[3])
        if k in ('chain', 'zip'):
            return False, (k, aligned_src(st, it[2])[1], aligned_src(st, it[3])[1])
        return False, it

    @model('Extend::extend', 'Vec::extend')
    def extend(c):
        loc = vloc(c)
        it = as_it(c, 1)
        old = I.load(c.st, loc)
        dt = c.at[0]
        ts = p.ty(c.fr.crate, dt['t'])['s'] if dt.get('k') == 'ref' else ''
        ismap = 'HashMap' in ts or 'BTreeMap' in ts
        kn = known_it(c.st, it)
        ut = p.ty(c.fr.crate, dt['t']) if dt.get('k') == 'ref' else {}
        et = p.ty(c.fr.crate, ut['a'][0]) if ut.get('d') in ('std::vec::Vec', 'std::collections::VecDeque') and ut.get('a') else {}
        byval = et.get('d') not in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'std::pin::Pin', 'std::ptr::NonNull') and et.get('k') in ('int', 'uint', 'prim', 'bool', 'char', 'adt', 'float') or et.get('s') in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64', 'bool', 'char')

        def g(st, x):
            cur = I.load(st, loc)
            if ismap:
                k, v = (x[1][0], x[1][1]) if x[0] == 'tup' else (x, UNIT)
                k = content(st, k)
                I.store_quiet(st, loc, ('minsert', cur, k, v))
                st.add(Ev('write', 'map.insert', (('ref', loc), k, v), None, c.sp, c.fr.path))
            elif ts == 'std::string::String':
                I.store_quiet(st, loc, concat(cur, content(st, x)))
            else:
                if byval and x[0] == 'ref':
                    x = I.loadp(st, x)
                I.store_quiet(st, loc, ('vec', cur[1] + (x,)) if cur[0] == 'vec' and kn else ('push', cur, x))
                st.add(Ev('write', 'vec.push', (('ref', loc), x), None, c.sp, c.fr.path))
            return [('ret', UNIT, st)]
        return fin(iter_loop(c, it, 'each', g), lambda s: UNIT)

    @model('Vec::retain', 'VecDeque::retain', 'HashMap::retain', 'Vec::retain_mut', 'HashSet::retain')
    def retain(c):
        loc = vloc(c)
        old = I.load(c.st, loc)
        f = clo1(c)
        ismap = 'Map' in c.name
        it = mk('map', ('ref', loc), 'kv') if ismap else mk('seq', ('ref', loc), 'ref', ())
        lid = next(I.cnt)

        def g(st, x):
            r = []
            args = [x[1][0], x[1][1]] if ismap else [x]
            item = content(st, x) if not ismap else content(st, x[1][0])
            for kk, y, s2 in I.call_value(c.fr, st, f, args, c.sp):
                if kk != 'ret':
                    r.append((kk, y, s2))
                    continue
                for t, s3 in split_bool(s2, y):
                    s3.add(Ev('write', 'vec.retain.keep' if t else 'vec.retain.drop', (('ref', loc), item), None, c.sp, c.fr.path))
                    r.append(('ret', UNIT, s3))
            return r

        def endv(s):
            I.store_quiet(s, loc, ('vretain', old, lid))
            s.add(Ev('write', 'vec.retain', (('ref', loc),), None, c.sp, c.fr.path))
            return UNIT
        return fin(iter_loop(c, it, 'each', g), endv)

    @model('array::map')
    def array_map(c):
        v = c.args[0]
        n = None
        ca = c.callee.get('ca')
        if ca and str(ca[0]).isdigit():
            n = int(ca[0])
        if v[0] in ('arr', 'vec'):
            xs = v[1]
        elif n is not None and n <= 16:
            xs = tuple(I.walk1(c.st, v, ('i', ('int', i))) for i in range(n))
        else:
            xs = None
        f = clo1(c)
        if xs is None:
            tag = ('ix', next(I.cnt))
            out = []
            for kk, y, s in I.call_value(c.fr, c.st, f, [I.walk1(c.st, v, ('i', tag))], c.sp):
                out.append((kk, ('seqmap', tag, y, v, True, 'arr') if kk == 'ret' else y, s))
            return out
        states = [([], c.st)]
        extra = []
        for x in xs:
            ns = []
            for acc, s in states:
                for kk, y, s2 in I.call_value(c.fr, s, f, [x], c.sp):
                    if kk == 'ret':
                        ns.append((acc + [y], s2))
                    else:
                        extra.append((kk, y, s2))
            states = ns
        return [('ret', ('arr', tuple(a)), s) for a, s in states] + extra
