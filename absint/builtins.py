"""Transfer functions for the standard library operations the crate uses (memory, slices, boxes, panics).
Everything not listed here is interpreted from its own MIR."""
from .core import (U, UNIT, NONE, some, tup, conc, norm, ncmp, nadd, Bad, Stuck, Panic, Exit, ptr_add, ordering, is_num, USIZE_MAX, Fork)

TABLE = {}
PREFIX = []


def reg(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d


def rd(st, r):
    if type(r) is int or r[0] != 'R': raise Stuck('read through %r' % (r,))
    return st.get(r[1], r[2])


def wr(st, r, v):
    if type(r) is int or r[0] != 'R': raise Stuck('write through %r' % (r,))
    st.set(r[1], r[2], v)


def alive(I, st, r):
    if type(r) is not int and r[0] == 'R' and r[1][0] in ('node', 'box'): I.check_alive(st, r[1])


# ---- MaybeUninit
@reg('std::mem::MaybeUninit::<T>::uninit', 'std::mem::MaybeUninit::<T>::zeroed')
def mu_uninit(I, cx):
    ty = I.p.types[cx.f['args'][0]]
    if ty['k'] == 'array':
        n = ty['len']
        if type(n) is not int:
            n = I.consts.get(n)
            if n is None: raise Stuck('array length')
        return ('V', (U,) * n)
    return U


@reg('std::mem::MaybeUninit::<T>::new', 'std::mem::MaybeUninit::<T>::assume_init', 'std::mem::ManuallyDrop::<T>::new',
     'std::mem::ManuallyDrop::<T>::into_inner', 'std::ptr::NonNull::<T>::as_ptr', 'std::ptr::NonNull::<T>::new_unchecked',
     'std::ptr::NonNull::<T>::as_ref', 'std::ptr::NonNull::<T>::as_mut', 'std::hint::must_use', 'std::hint::black_box',
     'std::convert::identity', 'std::ptr::NonNull::<T>::from_ref', 'std::ptr::NonNull::<T>::from_mut',
     'std::ptr::from_ref', 'std::ptr::from_mut')
def ident(I, cx):
    a = cx.args[0]
    if cx.f['name'] in ('as_ref', 'as_mut') and cx.f['path'].startswith('std::ptr::NonNull'):
        return rd(cx.st, a)
    return a


@reg('std::mem::MaybeUninit::<T>::write')
def mu_write(I, cx):
    alive(I, cx.st, cx.args[0])
    wr(cx.st, cx.args[0], cx.args[1])
    return cx.args[0]


@reg('std::mem::MaybeUninit::<T>::assume_init_read', 'std::ptr::read', 'std::ptr::NonNull::<T>::read', 'std::ptr::read_unaligned',
     'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::mem::ManuallyDrop::<T>::take')
def mu_read(I, cx):
    alive(I, cx.st, cx.args[0])
    v = rd(cx.st, cx.args[0])
    if v == U: raise Bad('read of a slot that holds no live value', 'ownership')
    return v


@reg('std::mem::MaybeUninit::<T>::assume_init_ref', 'std::mem::MaybeUninit::<T>::assume_init_mut',
     'std::mem::MaybeUninit::<T>::as_ptr', 'std::mem::MaybeUninit::<T>::as_mut_ptr',
     '<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref', '<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut')
def mu_ref(I, cx): return cx.args[0]


@reg('std::mem::MaybeUninit::<T>::assume_init_drop', 'std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place',
     'std::mem::ManuallyDrop::<T>::drop', 'std::ptr::drop_glue')
def drop_in_place(I, cx):
    r = cx.args[0]
    alive(I, cx.st, r)
    t = cx.f['args'][0]
    st, fr, tt = cx.st, cx.fr, cx.t
    for o in tt[2]: I.moved(st, fr, o)
    if tt[4] is None: raise Stuck('drop without return')
    a, pa, m = I.place(st, fr, tt[3])
    st.set(a, pa, UNIT)
    I.push_drop(st, [(r[1], r[2], t, r[3])], tt[4], tt[5])
    return None


@reg('std::mem::drop')
def mem_drop(I, cx):
    st, fr, tt = cx.st, cx.fr, cx.t
    v = cx.args[0]
    for o in tt[2]: I.moved(st, fr, o)
    a = ('tmp', st.fresh('d'))
    st.mem[a] = v
    b, pa, m = I.place(st, fr, tt[3])
    st.set(b, pa, UNIT)
    I.push_drop(st, [(a, (), cx.f['args'][0], None)], tt[4], tt[5])
    return None


@reg('std::mem::swap', 'std::intrinsics::typed_swap_nonoverlapping', 'std::ptr::swap', 'std::ptr::swap_nonoverlapping')
def swap(I, cx):
    a, b = cx.args[0], cx.args[1]
    alive(I, cx.st, a); alive(I, cx.st, b)
    va, vb = rd(cx.st, a), rd(cx.st, b)
    wr(cx.st, a, vb); wr(cx.st, b, va)
    return UNIT


@reg('std::mem::replace', 'std::ptr::replace')
def replace(I, cx):
    alive(I, cx.st, cx.args[0])
    v = rd(cx.st, cx.args[0])
    wr(cx.st, cx.args[0], cx.args[1])
    return v


@reg('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write', 'std::ptr::NonNull::<T>::write')
def pwrite(I, cx):
    alive(I, cx.st, cx.args[0])
    wr(cx.st, cx.args[0], cx.args[1])
    return UNIT


@reg('std::mem::needs_drop', 'std::intrinsics::needs_drop')
def needs_drop(I, cx):
    """Whether the item type needs a destructor is unknown: the answer is "yes" (which it may always be) unless the
    analysis asks for both."""
    def has_param(i):
        t = I.p.types[i]
        if t['k'] == 'param': return True
        if t['k'] == 'tuple': return any(has_param(x) for x in t['elems'])
        if t['k'] in ('array', 'slice'): return has_param(t['elem'])
        if t['k'] == 'adt':
            if t.get('path') in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'storage::BoxPtr', 'std::ptr::NonNull', 'std::marker::PhantomData'): return False
            return any(type(a) is int and has_param(a) for a in t.get('args', ()))
        return False
    if not has_param(cx.f['args'][0]): return 0
    if not I.both_drops: return 1
    if 'x_nd' not in cx.st.gh: raise Fork([lambda s: s.gh.__setitem__('x_nd', 1), lambda s: s.gh.__setitem__('x_nd', 0)])
    return cx.st.gh['x_nd']


@reg('std::mem::forget', 'std::intrinsics::forget')
def forget(I, cx):
    cx.st.ev.append(('forget', cx.args[0]))
    return UNIT


def copy_n(I, st, src, dst, n, loc=None):
    n = conc(st, n)
    vals = []
    if n == 0: return
    sp, dp = src, dst
    if sp[3] is not None or dp[3] is not None: raise Stuck('copy of fat pointers')
    if n == 1:
        wr(st, dp, rd(st, sp)); return
    for i in range(n): vals.append(rd(st, ptr_add(st, sp, i)))
    for i in range(n): wr(st, ptr_add(st, dp, i), vals[i])


@reg('std::ptr::copy', 'std::ptr::copy_nonoverlapping', 'std::intrinsics::copy', 'std::intrinsics::copy_nonoverlapping')
def pcopy(I, cx):
    copy_n(I, cx.st, cx.args[0], cx.args[1], cx.args[2])
    return UNIT


@reg('std::ptr::mut_ptr::<impl *mut T>::copy_to', 'std::ptr::const_ptr::<impl *const T>::copy_to', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping',
     'std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping')
def pcopyto(I, cx):
    copy_n(I, cx.st, cx.args[0], cx.args[1], cx.args[2])
    return UNIT


@reg('std::ptr::mut_ptr::<impl *mut T>::copy_from', 'std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping')
def pcopyfrom(I, cx):
    copy_n(I, cx.st, cx.args[1], cx.args[0], cx.args[2])
    return UNIT


@reg('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::NonNull::<T>::add',
     'std::ptr::mut_ptr::<impl *mut T>::offset', 'std::ptr::const_ptr::<impl *const T>::offset')
def padd(I, cx): return ptr_add(cx.st, cx.args[0], cx.args[1])


@reg('std::ptr::mut_ptr::<impl *mut T>::sub', 'std::ptr::const_ptr::<impl *const T>::sub', 'std::ptr::NonNull::<T>::sub')
def psub(I, cx): return ptr_add(cx.st, cx.args[0], -conc(cx.st, cx.args[1]))


@reg('std::ptr::mut_ptr::<impl *mut T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast', 'std::ptr::mut_ptr::<impl *mut T>::cast_const',
     'std::ptr::const_ptr::<impl *const T>::cast_mut', 'std::ptr::NonNull::<T>::cast')
def pcast(I, cx): return cx.args[0]


@reg('std::ptr::NonNull::<T>::new')
def nn_new(I, cx):
    a = cx.args[0]
    if type(a) is tuple and a[0] in ('R', 'N'): return some(a)
    raise Stuck('NonNull::new')


@reg('std::intrinsics::assert_inhabited', 'std::intrinsics::assert_mem_uninitialized_valid', 'std::intrinsics::assert_zero_valid',
     'core::num::<impl usize>::unchecked_add::precondition_check', 'core::num::<impl usize>::unchecked_sub::precondition_check',
     'std::ptr::NonNull::<T>::new_unchecked::precondition_check', 'std::intrinsics::cold_path')
def nop(I, cx): return UNIT


@reg('std::hint::assert_unchecked', 'std::intrinsics::assume')
def assume(I, cx):
    I.assume(cx.st, cx.args[0])
    return UNIT


@reg('std::hint::unreachable_unchecked', 'std::intrinsics::unreachable')
def unreach(I, cx): raise Bad('code is reached that is declared unreachable (undefined behaviour)')


@reg('std::intrinsics::saturating_sub', 'core::num::<impl usize>::saturating_sub')
def satsub(I, cx):
    a, b = cx.args
    if ncmp(cx.st, 'Le', a, b): return 0
    return nadd(cx.st, a, b, -1)


@reg('std::intrinsics::saturating_add', 'core::num::<impl usize>::saturating_add')
def satadd(I, cx):
    r = nadd(cx.st, cx.args[0], cx.args[1])
    return USIZE_MAX if ncmp(cx.st, 'Gt', r, USIZE_MAX) else r


@reg('core::num::<impl usize>::wrapping_add', 'std::intrinsics::wrapping_add')
def wadd(I, cx):
    r = nadd(cx.st, cx.args[0], cx.args[1])
    return r & USIZE_MAX if type(r) is int else r


@reg('core::num::<impl usize>::wrapping_sub', 'std::intrinsics::wrapping_sub')
def wsub(I, cx):
    r = nadd(cx.st, cx.args[0], cx.args[1], -1)
    if ncmp(cx.st, 'Lt', r, 0): return r & USIZE_MAX if type(r) is int else nadd(cx.st, r, 1 << 64)
    return r


@reg('core::num::<impl usize>::checked_sub')
def csub(I, cx):
    a, b = cx.args
    if ncmp(cx.st, 'Lt', a, b): return NONE
    return some(nadd(cx.st, a, b, -1))


@reg('core::num::<impl usize>::checked_add')
def cadd(I, cx):
    r = nadd(cx.st, cx.args[0], cx.args[1])
    return NONE if ncmp(cx.st, 'Gt', r, USIZE_MAX) else some(r)


@reg('std::intrinsics::select_unpredictable')
def selectu(I, cx):
    c, a, b = cx.args
    return a if conc(cx.st, c) else b


@reg('std::intrinsics::integer_min', 'std::intrinsics::integer_max')
def imin(I, cx):
    a, b = cx.args
    return a if ncmp(cx.st, 'Le', a, b) == (cx.f['name'] == 'integer_min') else b


# ---- panics
@reg('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_display', 'core::panicking::panic_explicit',
     'std::rt::begin_panic', 'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'core::panicking::assert_failed_inner',
     'core::panicking::panic_str_2015', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_const::panic_const_add_overflow', 'std::rt::panic_fmt', 'core::panicking::panic_bounds_check')
def panic(I, cx): raise Panic('explicit panic')


@reg('std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed')
def unwrapf(I, cx): raise Panic('unwrap on a value that is not there')


@reg('core::slice::index::slice_index_fail', 'core::slice::index::slice_end_index_len_fail', 'core::slice::index::slice_start_index_len_fail',
     'core::slice::index::slice_index_order_fail')
def sif(I, cx): raise Panic('slice index out of range')


@reg('core::panicking::panic_nounwind_fmt', 'core::panicking::panic_nounwind', 'std::process::abort', 'core::panicking::panic_cannot_unwind',
     'core::panicking::panic_in_cleanup')
def pnu(I, cx): raise Exit('abort', 'abort')


# ---- formatting: opaque
@reg('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new', 'core::fmt::rt::Argument::<\'_>::new_debug',
     'core::fmt::rt::Argument::<\'_>::new_display', 'std::fmt::format')
def fmt_opaque(I, cx):
    return ('O', (cx.f['name'],) + tuple(cx.args))


# ---- slices
def as_slice(st, r):
    if r[0] != 'R': raise Stuck('slice expected: %r' % (r,))
    if r[3] is not None: return r
    v = st.get(r[1], r[2])
    if type(v) is tuple and v[0] == 'V': return ('R', r[1], r[2], (0, len(v[1])))
    raise Stuck('slice of unknown length')


@reg('core::slice::<impl [T]>::len')
def sl_len(I, cx): return as_slice(cx.st, cx.args[0])[3][1]


@reg('core::slice::<impl [T]>::is_empty')
def sl_empty(I, cx): return int(as_slice(cx.st, cx.args[0])[3][1] == 0)


@reg('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
     "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new")
def sl_iter(I, cx):
    s = as_slice(cx.st, cx.args[0])
    return ('SI', s[1], s[2], s[3][0], s[3][0] + s[3][1])


@reg('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def sl_ptr(I, cx):
    s = as_slice(cx.st, cx.args[0])
    return ('R', s[1], s[2] + (s[3][0],), None)


@reg('<[T] as std::convert::AsRef<[T]>>::as_ref', '<[T] as std::borrow::Borrow<[T]>>::borrow', 'std::array::<impl [T; N]>::as_slice',
     '<[T] as std::convert::AsMut<[T]>>::as_mut', 'std::array::<impl [T; N]>::as_mut_slice')
def sl_same(I, cx): return as_slice(cx.st, cx.args[0])


def rng(I, cx, idx, n, ty):
    """(start, end) of a range value"""
    p = ty.get('path')
    f = idx[2] if type(idx) is tuple and idx[0] == 'A' else ()
    st = cx.st
    if p == 'std::ops::Range': return conc(st, f[0]), conc(st, f[1])
    if p == 'std::ops::RangeFrom': return conc(st, f[0]), n
    if p == 'std::ops::RangeTo': return 0, conc(st, f[0])
    if p == 'std::ops::RangeFull': return 0, n
    if p == 'std::ops::RangeInclusive': return conc(st, f[0]), conc(st, f[1]) + 1
    if p == 'std::ops::RangeToInclusive': return 0, conc(st, f[0]) + 1
    return None


def sl_index_common(I, cx, s, idx, ty, unchecked=False):
    """returns reference or None when out of range"""
    n = s[3][1]
    if ty['k'] in ('uint', 'int'):
        i = conc(cx.st, idx)
        if not (0 <= i < n): return None
        return ('R', s[1], s[2] + (s[3][0] + i,), None)
    r = rng(I, cx, idx, n, ty)
    if r is None: raise Stuck('slice index by ' + ty['s'])
    a, b = r
    if a > b or b > n: return None
    return ('R', s[1], s[2], (s[3][0] + a, b - a))


def index_ty(I, cx, k):
    """type of the index argument"""
    for a in cx.f['args']:
        ty = I.p.types[a] if type(a) is int else None
        if ty and (ty['k'] in ('uint',) or ty.get('path', '').startswith('std::ops::Range')): return ty
    o = cx.t[2][k]
    t = I.optype(cx.fr, o)
    if t is None: raise Stuck('index type')
    return I.p.types[t]


@reg('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(I, cx):
    r = sl_index_common(I, cx, as_slice(cx.st, cx.args[0]), cx.args[1], index_ty(I, cx, 1))
    return NONE if r is None else some(r)


@reg('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def sl_getu(I, cx):
    r = sl_index_common(I, cx, as_slice(cx.st, cx.args[0]), cx.args[1], index_ty(I, cx, 1))
    if r is None: raise Bad('unchecked slice access out of bounds')
    return r


@reg('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
     'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def sl_index(I, cx):
    r = sl_index_common(I, cx, as_slice(cx.st, cx.args[0]), cx.args[1], index_ty(I, cx, 1))
    if r is None: raise Panic('slice index out of range')
    return r


@reg('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def sl_first(I, cx):
    s = as_slice(cx.st, cx.args[0])
    return some(('R', s[1], s[2] + (s[3][0],), None)) if s[3][1] else NONE


@reg('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_last(I, cx):
    s = as_slice(cx.st, cx.args[0])
    return some(('R', s[1], s[2] + (s[3][0] + s[3][1] - 1,), None)) if s[3][1] else NONE


@reg('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def sl_split_at(I, cx):
    s = as_slice(cx.st, cx.args[0])
    k = conc(cx.st, cx.args[1])
    if k > s[3][1]: raise Panic('split_at out of range')
    return tup(('R', s[1], s[2], (s[3][0], k)), ('R', s[1], s[2], (s[3][0] + k, s[3][1] - k)))


@reg('core::slice::<impl [T]>::swap')
def sl_swap(I, cx):
    s = as_slice(cx.st, cx.args[0])
    a = conc(cx.st, cx.args[1]); b = conc(cx.st, cx.args[2])
    if a >= s[3][1] or b >= s[3][1]: raise Panic('slice index out of range')
    ra = ('R', s[1], s[2] + (s[3][0] + a,), None); rb = ('R', s[1], s[2] + (s[3][0] + b,), None)
    va, vb = rd(cx.st, ra), rd(cx.st, rb)
    wr(cx.st, ra, vb); wr(cx.st, rb, va)
    return UNIT


def sl_rotate(I, cx, left):
    s = as_slice(cx.st, cx.args[0])
    k = conc(cx.st, cx.args[1]); n = s[3][1]
    if k > n: raise Panic('rotation out of range')
    if not left: k = n - k
    rs = [('R', s[1], s[2] + (s[3][0] + i,), None) for i in range(n)]
    vs = [rd(cx.st, r) for r in rs]
    vs = vs[k:] + vs[:k]
    for r, v in zip(rs, vs): wr(cx.st, r, v)
    return UNIT


TABLE['core::slice::<impl [T]>::rotate_left'] = lambda I, cx: sl_rotate(I, cx, True)
TABLE['core::slice::<impl [T]>::rotate_right'] = lambda I, cx: sl_rotate(I, cx, False)


@reg('core::slice::<impl [T]>::reverse')
def sl_reverse(I, cx):
    s = as_slice(cx.st, cx.args[0])
    rs = [('R', s[1], s[2] + (s[3][0] + i,), None) for i in range(s[3][1])]
    vs = [rd(cx.st, r) for r in rs]
    for r, v in zip(rs, reversed(vs)): wr(cx.st, r, v)
    return UNIT


@reg('core::slice::<impl [T]>::windows')
def sl_windows(I, cx):
    s = as_slice(cx.st, cx.args[0])
    return ('SW', s[1], s[2], s[3][0], s[3][1], conc(cx.st, cx.args[1]))


@reg("<std::slice::Windows<'a, T> as std::iter::Iterator>::nth")
def win_nth(I, cx):
    r = cx.args[0]; w = rd(cx.st, r)
    if w[0] != 'SW': return NotImplemented
    k = conc(cx.st, cx.args[1])
    if k + w[5] > w[4]:
        wr(cx.st, r, ('SW', w[1], w[2], w[3] + w[4], 0, w[5]))
        return NONE
    wr(cx.st, r, ('SW', w[1], w[2], w[3] + k + 1, w[4] - k - 1, w[5]))
    return some(('R', w[1], w[2], (w[3] + k, w[5])))


@reg("<std::slice::Windows<'a, T> as std::iter::Iterator>::next")
def win_next(I, cx):
    r = cx.args[0]; w = rd(cx.st, r)
    if w[0] != 'SW': return NotImplemented
    if w[5] > w[4]: return NONE
    wr(cx.st, r, ('SW', w[1], w[2], w[3] + 1, w[4] - 1, w[5]))
    return some(('R', w[1], w[2], (w[3], w[5])))


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def si_next(I, cx):
    r = cx.args[0]; it = rd(cx.st, r)
    if it[0] != 'SI': raise Stuck('slice iterator expected')
    if it[3] >= it[4]: return NONE
    wr(cx.st, r, ('SI', it[1], it[2], it[3] + 1, it[4]))
    return some(('R', it[1], it[2] + (it[3],), None))


@reg("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def si_next_back(I, cx):
    r = cx.args[0]; it = rd(cx.st, r)
    if it[0] != 'SI': raise Stuck('slice iterator expected')
    if it[3] >= it[4]: return NONE
    wr(cx.st, r, ('SI', it[1], it[2], it[3], it[4] - 1))
    return some(('R', it[1], it[2] + (it[4] - 1,), None))


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth")
def si_nth(I, cx):
    r = cx.args[0]; it = rd(cx.st, r)
    if it[0] != 'SI': raise Stuck('slice iterator expected')
    k = conc(cx.st, cx.args[1])
    if it[3] + k >= it[4]:
        wr(cx.st, r, ('SI', it[1], it[2], it[4], it[4]))
        return NONE
    wr(cx.st, r, ('SI', it[1], it[2], it[3] + k + 1, it[4]))
    return some(('R', it[1], it[2] + (it[3] + k,), None))


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def si_unchecked(I, cx):
    it = rd(cx.st, cx.args[0])
    if it[0] != 'SI': raise Stuck('slice iterator expected')
    k = conc(cx.st, cx.args[1])
    if k >= it[4] - it[3]: raise Bad('an iterator is indexed out of its bounds', 'bounds')
    return ('R', it[1], it[2] + (it[3] + k,), None)


@reg("<std::slice::Windows<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def win_unchecked(I, cx):
    w = rd(cx.st, cx.args[0])
    if w[0] != 'SW': return NotImplemented
    k = conc(cx.st, cx.args[1])
    if k + w[5] > w[4]: raise Bad('an iterator is indexed out of its bounds', 'bounds')
    return ('R', w[1], w[2], (w[3] + k, w[5]))


@reg("<std::slice::Windows<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def win_next_back(I, cx):
    r = cx.args[0]; w = rd(cx.st, r)
    if w[0] != 'SW': return NotImplemented
    if w[5] > w[4]: return NONE
    wr(cx.st, r, ('SW', w[1], w[2], w[3], w[4] - 1, w[5]))
    return some(('R', w[1], w[2], (w[3] + w[4] - w[5], w[5])))


@reg("<std::slice::Windows<'a, T> as std::iter::Iterator>::size_hint")
def win_hint(I, cx):
    w = rd(cx.st, cx.args[0])
    if w[0] != 'SW': return NotImplemented
    n = max(0, w[4] - w[5] + 1)
    return tup(n, some(n))


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::last")
def si_last(I, cx):
    it = cx.args[0]
    if it[0] != 'SI': raise Stuck('slice iterator expected')
    if it[3] >= it[4]: return NONE
    return some(('R', it[1], it[2] + (it[4] - 1,), None))


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint")
def si_hint(I, cx):
    it = rd(cx.st, cx.args[0])
    n = it[4] - it[3]
    return tup(n, some(n))


@reg("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len",
     "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::is_empty")
def si_len(I, cx):
    it = rd(cx.st, cx.args[0])
    n = it[4] - it[3]
    return n if cx.f['name'] == 'len' else int(n == 0)


@reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::count")
def si_count(I, cx):
    it = cx.args[0]
    return it[4] - it[3]


@reg("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone")
def si_clone(I, cx): return rd(cx.st, cx.args[0])


@reg("std::slice::Iter::<'a, T>::as_slice")
def si_slice(I, cx):
    it = rd(cx.st, cx.args[0])
    return ('R', it[1], it[2], (it[3], it[4] - it[3]))


# ---- boxes
@reg('std::boxed::Box::<T>::new')
def box_new(I, cx):
    st = cx.st
    a = ('box', st.fresh('b'))
    st.mem[a] = cx.args[0]
    st.ev.append(('alloc', a))
    return ('R', a, (), None)


@reg('std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T>::leak', 'std::boxed::Box::<T, A>::into_raw',
     'std::boxed::Box::<T, A>::leak', 'std::boxed::Box::<T, A>::from_raw')
def box_same(I, cx):
    r = cx.args[0]
    if type(r) is not tuple or r[0] != 'R': raise Stuck('box of %r' % (r,))
    if cx.f['name'] == 'from_raw':
        if r[1][0] != 'box' or r[2]: raise Bad('a box built from a pointer that does not come from a box')
        alive(I, cx.st, r)
    return r


@reg('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def box_dealloc(I, cx):
    """deallocation of the box memory (its content has been dropped or moved out already)"""
    st = cx.st
    b = rd(st, cx.args[0])
    free_box(I, st, b)
    return UNIT


def free_box(I, st, b):
    if type(b) is not tuple or b[0] != 'R' or b[1][0] != 'box': raise Stuck('box value %r' % (b,))
    dead = st.gh.get('dead') or frozenset()
    if b[1] in dead: raise Bad('a node is freed twice', 'use-after-release')
    st.gh['dead'] = dead | {b[1]}
    st.ev.append(('free', b[1]))
