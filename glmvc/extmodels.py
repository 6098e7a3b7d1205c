"""Tables of assumed contracts for external functions.  Handlers take (run, callee, generic args, args)."""
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .engine import (SideEffect, Arr, Adt, Tuple, UNIT, OPTION, RESULT, CF, Some, NONE, Ok, Err, Cell, Ref, BoxV, MutView, ElemRef,
                     Closure, FnV, PyFn, Iter, Str, Opaque, Lazy, UNINIT, NAN, INF, EPS, Unsupported, PathDrop, has_inf,
                     Diverge, tsubst, abstract_type, isnan)
from . import models as Mo

TRAITS, BYCRATE, BYPATH = {}, {}, []
ND, STD = {}, {}


def trait(*names):
    def deco(f):
        for n in names:
            t, m = n.rsplit('::', 1)
            TRAITS[(t, m)] = f
        return f
    return deco


def nd(*names):
    def deco(f):
        for n in names:
            ND[n] = f
        return f
    return deco


def std(*names):
    def deco(f):
        for n in names:
            STD[n] = f
        return f
    return deco


def A(run, x):
    v = run.deref_all(x)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Adt) and v.path == 'array':
        fs = v.fields
        return Arr((T.const(len(fs)),), lambda i: fs[int(i.cval)] if i.isconst else _pick(fs, i))
    raise Unsupported('array expected, got %s' % type(v).__name__)


def _pick(fs, i):
    out = fs[-1]
    for k in range(len(fs) - 2, -1, -1):
        out = T.ite(T.iv_eq(i - k), fs[k], out)
    return out


# operators -----------------------------------------------------------------------------------------------------
for _t, _m, _o in (('Add', 'add', 'add'), ('Sub', 'sub', 'sub'), ('Mul', 'mul', 'mul'), ('Div', 'div', 'div'), ('Rem', 'rem', 'rem')):
    TRAITS[('std::ops::' + _t, _m)] = lambda run, c, ca, a, o=_o: Mo.arith(run, o, a[0], a[1])
    TRAITS[('std::ops::' + _t + 'Assign', _m + '_assign')] = lambda run, c, ca, a, o=_o: Mo.arith_assign(run, o, a[0], a[1])


@trait('std::ops::Neg::neg')
def _(run, c, ca, a):
    x = run.deref_all(a[0])
    if isinstance(x, Arr):
        return Arr(x.shape, lambda *i: -x.at(*i))
    return -run.num(x)


@trait('std::ops::Not::not')
def _(run, c, ca, a):
    return ONE - run.num(a[0])


for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    TRAITS[('std::cmp::PartialOrd', _n)] = lambda run, c, ca, a, o=_o: run.cmp(o, a[0], a[1])


@trait('std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::cmp')
def _(run, c, ca, a):
    r = Opaque('cmp', (run.num(a[0]), run.num(a[1])))
    return Some(r) if c['name'] == 'partial_cmp' else r


def equal(run, x, y):
    x, y = run.deref_all(x), run.deref_all(y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        return run.cmp('Eq', x, y)
    if isinstance(x, Arr) and isinstance(y, Arr):
        if x.ndim != y.ndim:
            return ZERO
        r = ONE
        for s, t in zip(x.shape, y.shape):
            r = r * T.iv_eq(run.dec.facts.simp(s - t))
        ix = [T.fresh_ix(s) for s in x.shape]
        d = x.at(*ix) - y.at(*ix)
        d = d * d
        for i, s in zip(ix, x.shape):
            d = T.Sum(i, s, d)
        return r * (ONE - T.iv_pos(d))
    if isinstance(x, Adt) and isinstance(y, Adt) and x.path == y.path:
        if x.variant != y.variant:
            return ZERO
        r = ONE
        for p, q in zip(x.fields, y.fields):
            r = r * equal(run, p, q)
        return r
    raise Unsupported('equality of %s' % type(x).__name__)


@trait('std::cmp::PartialEq::eq')
def _(run, c, ca, a):
    return equal(run, a[0], a[1])


@trait('std::cmp::PartialEq::ne')
def _(run, c, ca, a):
    return ONE - equal(run, a[0], a[1])


@trait('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
       'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut')
def _(run, c, ca, a):
    v = run.force(a[0])
    if isinstance(v, Ref):
        x = run.read_ref(v)
        if isinstance(x, BoxV):
            return Ref(x.cell)
    return v


@trait('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def _(run, c, ca, a):
    return snapshot(run, run.deref_all(a[0]))


@trait('std::clone::Clone::clone_from')
def _(run, c, ca, a):
    run.write_ref(run.mut_target(a[0]), run.deref_all(a[1]))
    return UNIT


def snapshot(run, v):
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, [snapshot(run, x) if isinstance(x, (Adt, BoxV)) else x for x in v.fields], v.args)
    if isinstance(v, BoxV):
        return BoxV(Cell(snapshot(run, run.force(v.cell.v)), 'box'))
    return v


@trait('std::ops::Index::index')
def _(run, c, ca, a):
    return index(run, a, False)


@trait('std::ops::IndexMut::index_mut')
def _(run, c, ca, a):
    return index(run, a, True)


def index(run, a, mut):
    idx = run.deref_all(a[1])
    arr = A(run, a[0])
    if isinstance(idx, Poly):
        ids = [idx]
    elif isinstance(idx, Adt) and idx.path in ('array', 'tuple'):
        ids = [run.num(x) for x in idx.fields]
    elif isinstance(idx, Adt) and idx.path.startswith('std::ops::Range'):
        return slice_(run, a[0], idx, mut)
    else:
        raise Unsupported('index %r' % (idx,))
    if len(ids) != arr.ndim:
        raise Diverge('wrong number of indices', 'bounds')
    for i, n in zip(ids, arr.shape):
        run.oblige('bounds', T.iv_pos(n - i), 'index %s < %s' % (T.show(i), T.show(n)))
    if mut or isinstance(run.force(a[0]), (Ref, MutView)):
        try:
            return ElemRef(run.mut_target(a[0]), ids)
        except Unsupported:
            pass
    return arr.at(*ids)


# slicing
@trait('std::convert::From::from')
def _(run, c, ca, a):
    st = ca[0]
    if st['k'] == 'adt' and st['d'] in ('ndarray::SliceInfoElem', 'ndarray::Slice'):
        return Mo.slice_elem(run, a[0])
    if st['k'] == 'prim':
        return run.num(a[0])
    if st['k'] == 'adt' and st['d'] == 'ndarray::ArrayBase':
        return A(run, a[0])
    if st['k'] == 'adt' and st['d'] in ('std::string::String',):
        return Opaque('str')
    return a[0]


@trait('std::convert::Into::into')
def _(run, c, ca, a):
    return a[0]


@trait('ndarray::SliceNextDim::next_in_dim', 'ndarray::SliceNextDim::next_out_dim')
def _(run, c, ca, a):
    return UNIT


@nd('new_unchecked')
def _(run, c, ca, a):
    els = run.deref_all(a[0])
    return Opaque('SliceInfo', [Mo.slice_elem(run, e) for e in els.fields])


def slice_(run, x, info, mut):
    arr = A(run, x)
    sh, fwd, inv = Mo.do_slice(run, arr.shape, info)
    if mut:
        return Mo.mk_mutview(run, x, sh, fwd, inv)
    return Arr(sh, lambda *v: arr.at(*fwd(*v)))


@nd('slice', 'slice_move')
def _(run, c, ca, a):
    return slice_(run, a[0], a[1], False)


@nd('slice_mut')
def _(run, c, ca, a):
    return slice_(run, a[0], a[1], True)


@nd('slice_axis')
def _(run, c, ca, a):
    return _slice_axis(run, a, False)


@nd('slice_axis_mut')
def _(run, c, ca, a):
    return _slice_axis(run, a, True)


def _slice_axis(run, a, mut):
    arr = A(run, a[0])
    ax = axis(run, a[1])
    info = Adt('tuple', 0, [Mo.slice_elem(run, a[2]) if k == ax else Opaque('srange', (ZERO, None)) for k in range(arr.ndim)])
    return slice_(run, a[0], info, mut)


def axis(run, v):
    v = run.deref_all(v)
    if isinstance(v, Adt):
        v = v.fields[0]
    v = run.num(v)
    if not v.isconst:
        raise Unsupported('symbolic axis')
    return int(v.cval)


def Axis(k):
    return Adt('ndarray::Axis', 0, (T.const(k),))


def _at_axis(run, x, ax, i, mut):
    arr = A(run, x)
    info = Adt('tuple', 0, [Opaque('sindex', (i,)) if k == ax else Opaque('srange', (ZERO, None)) for k in range(arr.ndim)])
    return slice_(run, x, info, mut)


@nd('row', 'column', 'row_mut', 'column_mut')
def _(run, c, ca, a):
    return _at_axis(run, a[0], 0 if c['name'].startswith('row') else 1, run.num(a[1]), c['name'].endswith('mut'))


@nd('index_axis', 'index_axis_mut', 'index_axis_move')
def _(run, c, ca, a):
    return _at_axis(run, a[0], axis(run, a[1]), run.num(a[2]), c['name'].endswith('mut'))


@nd('outer_iter', 'rows', 'axis_iter', 'columns')
def _(run, c, ca, a):
    arr = A(run, a[0])
    ax = {'outer_iter': 0, 'rows': 0, 'columns': 1}.get(c['name'])
    if ax is None:
        ax = axis(run, a[1])
    n = arr.shape[ax]
    rest = arr.shape[:ax] + arr.shape[ax + 1:]
    return Iter(n, lambda k: Arr(rest, lambda *i: arr.at(*(i[:ax] + (k,) + i[ax:]))))


@nd('outer_iter_mut', 'axis_iter_mut', 'rows_mut', 'columns_mut', 'genrows_mut')
def _(run, c, ca, a):
    arr = A(run, a[0])
    ax = {'outer_iter_mut': 0, 'rows_mut': 0, 'columns_mut': 1}.get(c['name'])
    if ax is None:
        ax = axis(run, a[1])
    n = arr.shape[ax]
    return Iter(n, lambda k: _at_axis(run, a[0], ax, k, True))


# element-wise --------------------------------------------------------------------------------------------------
def mapped(run, arr, f):
    return Mo.gen_arr(run, arr.shape, lambda *i: run.call_closure_elem(f, [arr.at(*i)]))


@nd('mapv', 'mapv_into', 'map', 'mapv_into_any', 'map_mut')
def _(run, c, ca, a):
    return mapped(run, A(run, a[0]), a[1])


@nd('mapv_inplace')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    run.array_write(t, mapped(run, run.view_read(t), a[1]))
    return UNIT


@nd('map_inplace', 'for_each_mut')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    arr = run.view_read(t)

    def one(*i):
        cell = Cell(arr.at(*i), 'elem')

        def go():
            run.call(None, a[1], [Ref(cell)])
            return run.deref_shallow(cell.v)
        return run.merged(go)
    run.array_write(t, Mo.gen_arr(run, arr.shape, one))
    return UNIT


@nd('zip_mut_with')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    arr = run.view_read(t)
    b = A(run, a[1])
    sh, fa, fb = Mo.bcast(run, arr, b, 'zip_mut_with')

    def one(*i):
        cell = Cell(fa(i), 'elem')

        def go():
            run.call(None, a[2], [Ref(cell), fb(i)])
            return run.deref_shallow(cell.v)
        return run.merged(go)
    run.array_write(t, Mo.gen_arr(run, arr.shape, one))
    return UNIT


for _n, _f in Mo.FLOAT1.items():
    def _h(run, c, ca, a, f=_f):
        x = run.deref_all(a[0])
        if isinstance(x, Arr):
            return Arr(x.shape, lambda *i: f(x.at(*i)))
        x = run.num(x)
        return NAN if isnan(x) else f(x)
    TRAITS[('num_traits::Float', _n)] = _h
    ND[_n] = _h
    STD[_n] = _h
    for _t in ('num_traits::real::Real', 'num_traits::Signed', 'num_traits::float::FloatCore', 'num_traits::Inv'):
        TRAITS[(_t, _n)] = _h


@trait('num_traits::Float::powi', 'num_traits::Pow::pow', 'num_traits::Float::powf')
def _powi(run, c, ca, a):
    x = run.deref_all(a[0])
    k = run.num(a[1])
    if not k.isconst:
        raise Unsupported('symbolic exponent')
    e = k.cval
    e = int(e) if e == int(e) else Fraction(e)
    if isinstance(x, Arr):
        return Arr(x.shape, lambda *i: T.power(x.at(*i), e))
    return T.power(run.num(x), e)


ND['powi'] = ND['powf'] = STD['powi'] = STD['powf'] = _powi


@nd('pow2')
def _(run, c, ca, a):
    x = A(run, a[0])
    return Arr(x.shape, lambda *i: x.at(*i) * x.at(*i))


@trait('num_traits::Float::max', 'num_traits::Float::min', 'std::cmp::Ord::max', 'std::cmp::Ord::min')
def _maxmin(run, c, ca, a):
    f = Mo.tmax if c['name'] == 'max' else Mo.tmin
    x, y = run.num(a[0]), run.num(a[1])
    return f(x, y)


STD['max'] = STD['min'] = _maxmin


@trait('num_traits::Float::clamp')
def _clamp(run, c, ca, a):
    x, lo, hi = [run.num(v) for v in a]
    return Mo.tmin(Mo.tmax(x, lo), hi)


STD['clamp'] = _clamp


@trait('num_traits::Float::mul_add', 'num_traits::MulAdd::mul_add')
def _(run, c, ca, a):
    return run.num(a[0]) * run.num(a[1]) + run.num(a[2])


@trait('num_traits::Float::epsilon')
def _(run, c, ca, a):
    return EPS


@trait('num_traits::Float::infinity')
def _(run, c, ca, a):
    return INF


@trait('num_traits::Float::neg_infinity')
def _(run, c, ca, a):
    return -INF


@trait('num_traits::Float::nan')
def _(run, c, ca, a):
    return NAN


def exactly_known(x):
    return x.isconst or T.is_int_poly(x)


@trait('num_traits::Float::is_nan')
def _isnan(run, c, ca, a):
    x = run.num(a[0])
    return ONE if isnan(x) else ZERO if exactly_known(x) else T.ap(T.atom('B', 'is_nan', x))


@trait('num_traits::Float::is_finite')
def _isfin(run, c, ca, a):
    x = run.num(a[0])
    if isnan(x) or has_inf(x):
        return ZERO
    if exactly_known(x):
        return ONE
    return ONE - T.ap(T.atom('B', 'is_nan', x)) if run.decide(ONE - T.ap(T.atom('B', 'is_infinite', x))) else ZERO


@trait('num_traits::Float::is_infinite')
def _isinf(run, c, ca, a):
    x = run.num(a[0])
    if isnan(x) or has_inf(x) or exactly_known(x):
        return ONE if not isnan(x) and has_inf(x) else ZERO
    return T.ap(T.atom('B', 'is_infinite', x))


STD['is_infinite'] = _isinf
STD['is_nan'] = _isnan
STD['is_finite'] = _isfin


@trait('num_traits::Float::is_sign_negative')
def _(run, c, ca, a):
    x = run.num(a[0])
    return T.iv_pos(-x)


@trait('num_traits::Zero::zero')
def _(run, c, ca, a):
    return ZERO


@trait('num_traits::One::one')
def _(run, c, ca, a):
    return ONE


@trait('num_traits::Zero::is_zero')
def _(run, c, ca, a):
    return run.cmp('Eq', a[0], ZERO)


@trait('num_traits::One::is_one')
def _(run, c, ca, a):
    return run.cmp('Eq', a[0], ONE)


def _cast(run, c, ca, a):
    return Some(run.num(a[0]))


for _n in ('f64', 'f32', 'usize', 'u64', 'i64', 'u32', 'i32', 'u16', 'u8'):
    TRAITS[('num_traits::FromPrimitive', 'from_' + _n)] = _cast
TRAITS[('num_traits::ToPrimitive', 'to_f64')] = _cast


@trait('num_traits::ToPrimitive::to_f32')
def _(run, c, ca, a):
    x = run.num(a[0])
    return Some(x if x.isconst else T.fn('as_f32', x))


TRAITS[('num_traits::NumCast', 'from')] = _cast


def _toint(run, c, ca, a):
    x = run.num(a[0])
    if T.is_int_poly(x):
        return Some(x)
    raise Unsupported('float to integer conversion')


for _n in ('usize', 'u64', 'i64', 'u32', 'i32', 'u16'):
    TRAITS[('num_traits::ToPrimitive', 'to_' + _n)] = _toint


@trait('std::default::Default::default')
def _(run, c, ca, a):
    t = ca[0]
    if t['k'] == 'prim':
        return ZERO
    if t['k'] == 'adt' and t['d'] == 'std::option::Option':
        return NONE
    if t['k'] == 'param':
        return ZERO
    if t['k'] == 'adt' and t['d'] == 'std::marker::PhantomData':
        return UNIT
    if t['k'] == 'adt' and t['d'] == 'std::vec::Vec':
        return Arr((ZERO,), lambda i: ZERO, 'adt')
    if t['k'] == 'adt' and t['d'].endswith('OnceCell'):
        return Adt('OnceCell', 0, (NONE,))
    raise Unsupported('default of %s' % t)


# array methods -------------------------------------------------------------------------------------------------
@nd('view', 'to_owned', 'into_owned', 'view_mut', 'to_vec', 'into_raw_vec', 'reborrow', 'to_owned_f', 'into_shared', 'cow', 'into_dyn', 'as_standard_layout', 'as_ref', 'deref', 'raw_dim_id')
def _(run, c, ca, a):
    if c['name'] == 'view_mut':
        arr = A(run, a[0])
        return MutView(run.mut_target(a[0]), arr.shape, lambda *i: i, lambda *i: (ONE, list(i)))
    return A(run, a[0])


@nd('t', 'reversed_axes')
def _(run, c, ca, a):
    x = A(run, a[0])
    return Arr(tuple(reversed(x.shape)), lambda *i: x.at(*reversed(i)))


@nd('to_shape', 'into_shape_with_order', 'into_shape', 'into_shape_clone')
def _(run, c, ca, a):
    x = A(run, a[0])
    sh = shape_of(run, a[1])
    if len(sh) == x.ndim:
        for s, t in zip(sh, x.shape):
            run.same_dim(s, t, 'to_shape')
        return Ok(x)
    if x.ndim == 1 and len(sh) == 2 and (sh[0] is ONE or sh[1] is ONE):
        run.same_dim(sh[0] * sh[1], x.shape[0], 'to_shape')
        k = 1 if sh[0] is ONE else 0
        return Ok(Arr(sh, lambda *i: x.at(i[k])))
    raise Unsupported('reshape %r to %r' % (x.shape, sh))


def shape_of(run, v):
    v = run.deref_all(v)
    if isinstance(v, Poly):
        return [v]
    if isinstance(v, Opaque) and v.tag == 'shape':
        return list(v.args)
    if isinstance(v, Adt) and v.path in ('tuple', 'array'):
        out = []
        fs = v.fields
        if len(fs) == 2 and not isinstance(run.deref_all(fs[0]), Poly):
            fs = fs[:1]         # (shape, order)
        for x in fs:
            x = run.deref_all(x)
            if isinstance(x, Poly):
                out.append(x)
            elif isinstance(x, Adt) and x.path in ('tuple', 'array'):
                out.extend(shape_of(run, x))
            elif isinstance(x, Opaque) and x.tag == 'shape':
                out.extend(x.args)
        return out
    raise Unsupported('shape %r' % (v,))


@nd('len')
def _(run, c, ca, a):
    r = ONE
    for s in A(run, a[0]).shape:
        r = r * s
    return r


@nd('dim')
def _(run, c, ca, a):
    sh = A(run, a[0]).shape
    return sh[0] if len(sh) == 1 else Adt('tuple', 0, sh)


@nd('raw_dim', 'shape')
def _(run, c, ca, a):
    return Adt('array', 0, A(run, a[0]).shape)


@nd('nrows')
def _(run, c, ca, a):
    return A(run, a[0]).shape[0]


@nd('ncols')
def _(run, c, ca, a):
    return A(run, a[0]).shape[1]


@nd('len_of')
def _(run, c, ca, a):
    return A(run, a[0]).shape[axis(run, a[1])]


@nd('ndim')
def _(run, c, ca, a):
    return T.const(A(run, a[0]).ndim)


@nd('is_empty')
def _(run, c, ca, a):
    r = ONE
    for s in A(run, a[0]).shape:
        r = r * s
    return T.iv_eq(r)


@nd('from_elem')
def _(run, c, ca, a):
    v = run.deref_all(a[1])
    return Arr(shape_of(run, a[0]), lambda *i: v)


@nd('ones')
def _(run, c, ca, a):
    return Arr(shape_of(run, a[0]), lambda *i: ONE)


@nd('zeros', 'default')
def _(run, c, ca, a):
    return Arr(shape_of(run, a[0]), lambda *i: ZERO)


@nd('eye')
def _(run, c, ca, a):
    n = run.num(a[0])
    return Arr((n, n), lambda i, j: T.iv_eq(i - j))


@nd('from_diag')
def _(run, c, ca, a):
    x = A(run, a[0])
    n = x.shape[0]
    return Arr((n, n), lambda i, j: T.iv_eq(i - j) * x.at(i))


@nd('from_shape_fn')
def _(run, c, ca, a):
    sh = shape_of(run, a[0])
    if len(sh) == 1:
        return Mo.gen_arr(run, sh, lambda i: run.call_closure_elem(a[1], [i]))
    return Mo.gen_arr(run, sh, lambda *i: run.call_closure_elem(a[1], [Adt('tuple', 0, i)]))


@nd('from_vec', 'from_iter', 'arr1', 'aview1', 'arr2', 'aview0')
def _(run, c, ca, a):
    v = run.deref_all(a[0])
    if isinstance(v, Iter):
        return Mo.item_gen(run, v)
    return A(run, v)


@nd('from_shape_vec', 'from_shape_simple_fn')
def _(run, c, ca, a):
    sh = shape_of(run, a[0])
    x = A(run, a[1])
    if len(sh) == 1:
        run.same_dim(sh[0], x.shape[0], 'from_shape_vec')
        return Ok(x)
    raise Unsupported('from_shape_vec')


@nd('range', 'linspace')
def _(run, c, ca, a):
    raise Unsupported('range constructor')


@nd('dot')
def _(run, c, ca, a):
    return Mo.dot(run, a[0], a[1])


TRAITS[('ndarray::linalg::Dot', 'dot')] = TRAITS[('ndarray::Dot', 'dot')] = ND['dot']


def total(run, x):
    ix = [T.fresh_ix(s) for s in x.shape]
    v = x.at(*ix)
    for i, s in zip(ix, x.shape):
        v = T.Sum(i, s, v)
    return v


@nd('sum')
def _(run, c, ca, a):
    return total(run, A(run, a[0]))


@nd('mean')
def _(run, c, ca, a):
    x = A(run, a[0])
    n = ONE
    for s in x.shape:
        n = n * s
    if n.isconst and not n.t:
        return NONE
    if not run.decide(T.iv_pos(n)):
        return NONE
    return Some(total(run, x) / n)


def sum_axis(run, x, ax):
    rest = x.shape[:ax] + x.shape[ax + 1:]
    n = x.shape[ax]

    def f(*i):
        k = T.fresh_ix(n)
        return T.Sum(k, n, x.at(*(i[:ax] + (k,) + i[ax:])))
    return Arr(rest, f)


@nd('sum_axis')
def _(run, c, ca, a):
    return sum_axis(run, A(run, a[0]), axis(run, a[1]))


@nd('mean_axis')
def _(run, c, ca, a):
    x = A(run, a[0])
    ax = axis(run, a[1])
    if not run.decide(T.iv_pos(x.shape[ax])):
        return NONE
    s = sum_axis(run, x, ax)
    n = x.shape[ax]
    return Some(Arr(s.shape, lambda *i: s.at(*i) / n))


@nd('product')
def _(run, c, ca, a):
    raise Unsupported('product')


@nd('insert_axis')
def _(run, c, ca, a):
    x = A(run, a[0])
    ax = axis(run, a[1])
    return Arr(x.shape[:ax] + (ONE,) + x.shape[ax:], lambda *i: x.at(*(i[:ax] + i[ax + 1:])))


@nd('remove_axis')
def _(run, c, ca, a):
    x = A(run, a[0])
    ax = axis(run, a[1])
    return Arr(x.shape[:ax] + x.shape[ax + 1:], lambda *i: x.at(*(i[:ax] + (ZERO,) + i[ax:])))


@nd('diag', 'into_diag')
def _(run, c, ca, a):
    x = A(run, a[0])
    run_min(run, x)
    return Arr((x.shape[0],), lambda i: x.at(i, i))


def run_min(run, x):
    if x.ndim != 2:
        raise Unsupported('diag of rank %d' % x.ndim)
    if x.shape[0] is not x.shape[1]:
        d = run.dec.facts.simp(x.shape[0] - x.shape[1])
        if d is not ZERO:
            raise Unsupported('diagonal of a rectangular matrix')


@nd('diag_mut')
def _(run, c, ca, a):
    x = A(run, a[0])
    run_min(run, x)
    return Mo.mk_mutview(run, a[0], (x.shape[0],), lambda i: (i, i), lambda i, j: (T.iv_eq(i - j), [i]))


@nd('assign')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    dst = run.view_read(t)
    src = A(run, a[1])
    sh, fa, fb = Mo.bcast(run, dst, src, 'assign')
    for x, y in zip(sh, dst.shape):
        if x is not y:
            run.same_dim(x, y, 'assign')
    run.array_write(t, Arr(dst.shape, lambda *i: fb(i)))
    return UNIT


@nd('fill')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    dst = run.view_read(t)
    v = run.deref_all(a[1])
    run.array_write(t, Arr(dst.shape, lambda *i: v))
    return UNIT


@nd('broadcast')
def _(run, c, ca, a):
    x = A(run, a[0])
    sh = shape_of(run, a[1])
    pad = len(sh) - x.ndim
    if pad < 0:
        return NONE
    m = []
    for k, s in enumerate(x.shape):
        t = sh[pad + k]
        if s is ONE and t is not ONE:
            m.append((pad + k, True))
        else:
            run.same_dim(s, t, 'broadcast')
            m.append((pad + k, False))
    return Some(Arr(sh, lambda *i: x.at(*[ZERO if z else i[k] for k, z in m])))


def concat(run, ax, arrs):
    out = list(arrs[0].shape)
    for b in arrs[1:]:
        for k in range(len(out)):
            if k != ax:
                run.same_dim(out[k], b.shape[k], 'concatenate')
    offs, tot = [], ZERO
    for b in arrs:
        offs.append(tot)
        tot = tot + b.shape[ax]
    out[ax] = tot

    def f(*i):
        k = i[ax]
        r = None
        for b, o in reversed(list(zip(arrs, offs))):
            if b.shape[ax] is ZERO:
                continue
            rel = k - o
            v = lambda b=b, rel=rel: b.at(*(i[:ax] + (rel,) + i[ax + 1:]))
            if r is None:
                r = v()
                continue
            c = T.iv_pos(o + b.shape[ax] - k)
            if c is ONE:
                r = v()
            elif c is ZERO:
                pass
            else:
                r = T.ite(c, v(), r)
        return r if r is not None else ZERO
    return Arr(out, f)


@nd('concatenate')
def _(run, c, ca, a):
    ax = axis(run, a[0])
    xs = run.deref_all(a[1])
    arrs = [A(run, x) for x in xs.fields]
    return Ok(concat(run, ax, arrs))


@nd('stack')
def _(run, c, ca, a):
    raise Unsupported('stack')


@nd('push_column', 'push_row')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    x = run.view_read(t)
    v = A(run, a[1])
    ax = 1 if c['name'] == 'push_column' else 0
    w = Arr((v.shape[0], ONE), lambda i, j: v.at(i)) if ax else Arr((ONE, v.shape[0]), lambda i, j: v.at(j))
    run.array_write(t, concat(run, ax, [x, w]))
    return Ok(UNIT)


@nd('iter', 'into_iter')
def _(run, c, ca, a):
    if c['name'] == 'into_iter':
        it = run.deref_all(a[0])
        if isinstance(it, Iter):
            return it
    x = A(run, a[0])
    at = line(x)
    if at:
        return Iter(x.shape[at[0]], lambda k: x.at(*at[1](k)))
    raise Unsupported('iteration over a matrix')


def line(x):
    """the axis along which an array extends and the full index of a position, when it is a vector, a row or a column"""
    if x.ndim == 1:
        return 0, lambda k: (k,)
    for ax in range(x.ndim):
        if all(x.shape[j] is ONE for j in range(x.ndim) if j != ax):
            return ax, lambda k: tuple(k if j == ax else ZERO for j in range(x.ndim))
    return None


@nd('split_at')
def _(run, c, ca, a):
    v = run.force(a[0])
    arr = A(run, v)
    ax, k = axis(run, a[1]), run.num(a[2])
    out = []
    for r in ((ZERO, k), (k, None)):
        info = Adt('tuple', 0, [Opaque('srange', r if j == ax else (ZERO, None)) for j in range(arr.ndim)])
        out.append(slice_(run, v, info, isinstance(v, MutView)))
    return Tuple(*out)


@nd('indexed_iter')
def _(run, c, ca, a):
    x = A(run, a[0])
    if x.ndim == 1:
        return Iter(x.shape[0], lambda k: Tuple(k, x.at(k)))
    raise Unsupported('iteration over a matrix')


@nd('iter_mut')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    x = run.view_read(t)
    at = line(x)
    if at:
        return Iter(x.shape[at[0]], lambda k: ElemRef(t, at[1](k)))
    raise Unsupported('iteration over a matrix')


@nd('get')
def _(run, c, ca, a):
    x = A(run, a[0])
    idx = run.deref_all(a[1])
    ids = [idx] if isinstance(idx, Poly) else [run.num(v) for v in idx.fields]
    for i, n in zip(ids, x.shape):
        if not run.decide(T.iv_pos(n - i)):
            return NONE
    return Some(x.at(*ids))


@nd('first', 'last')
def _(run, c, ca, a):
    x = A(run, a[0])
    if not run.decide(T.iv_pos(x.shape[0])):
        return NONE
    return Some(x.at(ZERO if c['name'] == 'first' else x.shape[0] - 1))


@nd('fold')
def _(run, c, ca, a):
    z = run.deref_all(a[0])
    if isinstance(z, Opaque) and z.tag == 'Zip':
        arrs, sh = zip_parts(run, z)
        if len(sh) != 1:
            raise Unsupported('fold over a matrix')
        return fold(run, Iter(sh[0], lambda k: Several([b.at(k) for b in arrs])), a[1], a[2])
    x = A(run, a[0])
    if x.ndim != 1:
        raise Unsupported('fold over a matrix')
    return fold(run, Iter(x.shape[0], lambda k: x.at(k)), a[1], a[2])


@nd('all', 'any')
def _(run, c, ca, a):
    z = run.deref_all(a[0])
    if isinstance(z, Opaque) and z.tag == 'Zip':
        arrs, sh = zip_parts(run, z)
        if len(sh) != 1:
            raise Unsupported('Zip::all over a matrix')
        return all_any(run, Iter(sh[0], lambda k: Several([b.at(k) for b in arrs])), a[1], c['name'])
    x = A(run, a[0])
    return all_any(run, Iter(x.shape[0], lambda k: x.at(k)), a[1], c['name'])


@nd('for_each')
def _(run, c, ca, a):
    z = run.deref_all(a[0])
    if isinstance(z, Opaque) and z.tag == 'Zip':
        if not any(isinstance(run.deref_all(x), Iter) for x in z.args):
            try:
                return zip_apply(run, z, a[1], False)
            except SideEffect:
                pass
        run.each(zip_iter(run, z), a[1], spread)
        return UNIT
    raise Unsupported('for_each')


def zip_iter(run, z):
    """the items of a one-dimensional Zip: lanes, elements to be changed, or elements"""
    parts = []
    for x in z.args:
        v = run.force(x)
        d = run.deref_all(v)
        if isinstance(d, Iter):
            parts.append((d.n - d.pos, lambda k, d=d: d.item(d.pos + k)))
            continue
        arr = A(run, x)
        if arr.ndim != 1:
            raise Unsupported('Zip over a matrix')
        t = None
        if isinstance(v, (Ref, MutView)):
            try:
                t = run.mut_target(v)
            except Unsupported:
                pass
        parts.append((arr.shape[0], (lambda k, t=t: ElemRef(t, (k,))) if t is not None else (lambda k, arr=arr: arr.at(k))))
    for n, _ in parts[1:]:
        run.same_dim(parts[0][0], n, 'Zip')
    return Iter(parts[0][0], lambda k: Several([g(k) for _, g in parts]))


@nd('scaled_add')
def _(run, c, ca, a):
    t = run.mut_target(a[0])
    x = run.view_read(t)
    k = run.num(a[1])
    b = A(run, a[2])
    sh, fa, fb = Mo.bcast(run, x, b, 'scaled_add')
    run.array_write(t, Arr(x.shape, lambda *i: fa(i) + k * fb(i)))
    return UNIT


# Zip
@nd('from')
def _(run, c, ca, a):
    if c['d'].startswith('ndarray::Zip'):
        return Opaque('Zip', [a[0]])
    return A(run, a[0])


@nd('and')
def _(run, c, ca, a):
    z = run.deref_all(a[0])
    return Opaque('Zip', list(z.args) + [a[1]])


def zip_parts(run, z):
    arrs = [A(run, x) for x in z.args]
    sh = arrs[0].shape
    for b in arrs[1:]:
        if b.ndim != len(sh):
            raise Diverge('Zip of different ranks', 'shape')
        for s, t in zip(sh, b.shape):
            run.same_dim(s, t, 'Zip')
    return arrs, sh


@nd('map_collect')
def _(run, c, ca, a):
    arrs, sh = zip_parts(run, run.deref_all(a[0]))
    return Mo.gen_arr(run, sh, lambda *i: run.call_closure_elem(a[1], [b.at(*i) for b in arrs]))


def zip_apply(run, z, f, _):
    arrs, sh = zip_parts(run, z)
    outs = []
    tg = []
    for k, x in enumerate(z.args):
        v = run.force(x)
        try:
            tg.append(run.mut_target(v) if isinstance(v, (Ref, MutView)) else None)
        except Unsupported:
            tg.append(None)
    news = {}
    for k, t in enumerate(tg):
        if t is None:
            continue

        def one(*i, k=k):
            cells = [Cell(b.at(*i), 'z') for b in arrs]

            def go():
                run.call(None, f, [Ref(cl) for cl in cells])
                return run.deref_shallow(cells[k].v)
            return run.merged(go)
        news[k] = (t, Mo.gen_arr(run, sh, one), arrs[k])
    for k, (t, n, old) in news.items():
        ix = [T.fresh_ix(s) for s in sh]
        if n.at(*ix) is not old.at(*ix):
            run.array_write(t, n)
    return UNIT


@nd('new')
def _(run, c, ca, a):
    if 'SliceInfo' in c['d']:
        els = run.deref_all(a[0])
        return Ok(Opaque('SliceInfo', [Mo.slice_elem(run, e) for e in els.fields]))
    raise Unsupported(c['d'])


@nd('f', 'set_f', 'strides')
def _(run, c, ca, a):
    return Adt('tuple', 0, [run.deref_all(a[0])])


BYCRATE['ndarray'] = ND
TRAITS[('ndarray::ShapeBuilder', 'f')] = ND['f']


# linear algebra
def _lin(r):
    return Err(Mo.LINERR) if r is None else Ok(r)


@trait('ndarray_linalg::InverseInto::inv_into', 'ndarray_linalg::Inverse::inv', 'ndarray_linalg::InverseHInto::invh_into', 'ndarray_linalg::InverseH::invh')
def _(run, c, ca, a):
    return _lin(Mo.inverse(run, a[0]))


@trait('ndarray_linalg::SolveH::solveh_into', 'ndarray_linalg::SolveH::solveh', 'ndarray_linalg::SolveH::solveh_inplace',
       'ndarray_linalg::Solve::solve_into', 'ndarray_linalg::Solve::solve')
def _(run, c, ca, a):
    r = Mo.solve(run, a[0], a[1], 'solveh' in c['name'])
    if c['name'].endswith('inplace'):
        if r is not None:
            run.write_ref(run.mut_target(a[1]), r)
        return _lin(r)
    return _lin(r)


# iterators -----------------------------------------------------------------------------------------------------
@trait('std::iter::IntoIterator::into_iter', 'std::iter::Iterator::by_ref')
def _(run, c, ca, a):
    v = run.force(a[0])
    x = run.deref_all(v)
    if c['name'] == 'by_ref':
        return v
    if isinstance(x, Iter):
        return x
    if isinstance(v, MutView) or (isinstance(v, Ref) and isinstance(x, Arr) and ca and ca[0].get('k') == 'ref' and ca[0].get('m')):
        t = run.mut_target(v)
        return Iter(x.shape[0], lambda k: ElemRef(t, (k,)))
    it = Mo.as_iter(run, x)
    if it is not None:
        return it
    if isinstance(x, Opaque) and x.tag == 'opt_iter':
        return x
    if isinstance(x, Adt):
        return v
    raise Unsupported('into_iter of %s' % type(x).__name__)


def lazy_map(run, it, f):
    arr = Mo.gen_arr(run, (it.n - it.pos,), lambda k: run.call_closure_elem(f, [it.item(it.pos + k)]))
    return Iter(it.n - it.pos, lambda k: arr.at(k))


@trait('std::iter::Iterator::map')
def _(run, c, ca, a):
    it = Mo.to_iter(run, a[0])
    # deferred: a closure whose results have different variants is handled by the consumer
    return LazyMap(it, a[1])


class LazyMap(Iter):
    __slots__ = ('base', 'f', 'run', 'arr')

    def __init__(self, base, f):
        Iter.__init__(self, base.n - base.pos, None)
        self.base, self.f, self.arr = base, f, None


def real_iter(run, v):
    v = Mo.to_iter(run, v)
    if isinstance(v, LazyMap):
        return lazy_map(run, real_iter(run, v.base), v.f)
    return v


@trait('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::fuse')
def _(run, c, ca, a):
    it = Mo.to_iter(run, a[0])
    if isinstance(it, LazyMap):
        return it
    return Iter(it.n, lambda k: run.deref_all(it.item(k)), it.pos)


@trait('std::iter::Iterator::enumerate')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    p = it.pos
    return Iter(it.n - p, lambda k: Tuple(k, it.item(p + k)))


@trait('std::iter::Iterator::skip')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    k = run.num(a[1])
    left = it.n - it.pos
    if not run.dec.facts.entails_int(left - k):
        if not run.decide(T.iv_ge(left - k)):
            return Iter(ZERO, lambda i: ZERO)
    return Iter(it.n, it.item, it.pos + k)


@trait('std::iter::Iterator::take')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    k = run.num(a[1])
    left = it.n - it.pos
    if not run.dec.facts.entails_int(left - k):
        if not run.decide(T.iv_ge(left - k)):
            return it
    return Iter(it.pos + k, it.item, it.pos)


@trait('std::iter::Iterator::rev')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    n, p = it.n, it.pos
    return Iter(n - p, lambda k: it.item(n - 1 - k))


@trait('std::iter::Iterator::zip')
def _(run, c, ca, a):
    x, y = real_iter(run, a[0]), real_iter(run, a[1])
    nx, ny = x.n - x.pos, y.n - y.pos
    d = run.dec.facts.simp(nx - ny)
    if d is ZERO:
        n = nx
    elif run.decide(T.iv_ge(ny - nx)):
        n = nx
    else:
        n = ny
    return Iter(n, lambda k: Tuple(x.item(x.pos + k), y.item(y.pos + k)))


@trait('std::iter::Iterator::chain')
def _(run, c, ca, a):
    x, y = real_iter(run, a[0]), real_iter(run, a[1])
    nx, ny = x.n - x.pos, y.n - y.pos

    def item(k):
        cnd = T.iv_pos(nx - k)
        if cnd is ONE:
            return x.item(x.pos + k)
        if cnd is ZERO:
            return y.item(y.pos + k - nx)
        return T.ite(cnd, run.num(x.item(x.pos + k)), run.num(y.item(y.pos + k - nx)))
    return Iter(nx + ny, item)


@trait('std::iter::Iterator::sum', 'std::iter::Sum::sum')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    arr = Mo.item_gen(run, it)
    return total(run, arr)


@trait('std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def _(run, c, ca, a):
    it = Mo.to_iter(run, a[0])
    return it.n - it.pos


class Several(list):
    """the arguments of a closure over several arrays at once"""


def spread(x):
    return list(x) if isinstance(x, Several) else [x]


def fold(run, it, init, f):
    n = it.n - it.pos
    init = run.deref_all(init)
    if n.isconst:
        acc = init
        for k in range(int(n.cval)):
            acc = run.call(None, f, [acc] + spread(it.item(it.pos + k)))
        return acc
    i = T.fresh_ix(n, 'k')
    h = run.havoc_like(init)
    v = run.merged(lambda: run.deref_shallow(run.call(None, f, [h] + spread(it.item(it.pos + i)))))
    return run.close_loop(i, n, init, h, v)


@trait('std::iter::Iterator::fold')
def _(run, c, ca, a):
    return fold(run, real_iter(run, a[0]), a[1], a[2])


@trait('std::iter::Iterator::for_each')
def _(run, c, ca, a):
    run.each(real_iter(run, a[0]), a[1], spread)
    return UNIT


def all_any(run, it, f, name):
    n = it.n - it.pos
    k = T.fresh_ix(n, 'k')
    v = run.call_closure_elem(f, spread(it.item(it.pos + k)))
    if name == 'all':
        return T.iv_eq(T.Sum(k, n, ONE - v)) if not v.isconst else (ONE if v is ONE else T.iv_eq(n))
    return ONE - (T.iv_eq(T.Sum(k, n, v)) if not v.isconst else (ONE if v is ZERO else T.iv_eq(n)))


@trait('std::iter::Iterator::all', 'std::iter::Iterator::any')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    return all_any(run, it, a[1], c['name'])


@trait('std::iter::Iterator::next')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    left = run.dec.facts.simp(it.n - it.pos)
    t = run.mut_target(a[0])
    if not run.decide(T.iv_pos(left)):
        return NONE
    run.write_ref(t, Iter(it.n, it.item, it.pos + 1))
    return Some(it.item(it.pos))


@trait('std::iter::Iterator::last')
def _(run, c, ca, a):
    it = real_iter(run, a[0])
    if not run.decide(T.iv_pos(it.n - it.pos)):
        return NONE
    return Some(it.item(it.n - 1))


def target_is(ca, what):
    t = ca[-1]
    return t['k'] == 'adt' and t['d'] == what


@trait('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(run, c, ca, a):
    tgt = ca[-1] if c['name'] == 'collect' else ca[0]
    it = Mo.to_iter(run, a[0])
    if tgt['k'] == 'adt' and tgt['d'] in (RESULT, OPTION) and isinstance(it, LazyMap):
        base = real_iter(run, it.base)
        return collect_result(run, base, it.f, tgt['d'])
    return Mo.item_gen(run, real_iter(run, it))


def collect_result(run, it, f, kind):
    n = it.n - it.pos
    k = T.fresh_ix(n, 'k')
    good = 1 if kind == OPTION else 0
    ps = run.explore(lambda: run.deref_shallow(run.call(None, f, [it.item(it.pos + k)])))
    bad = ZERO
    goods, bads = [], []
    from .engine import pathcond
    for p in ps:
        if p.status == 'diverge':
            run.safety.append((p.msg.kind, ZERO, p.msg.msg, list(run.dec.conds) + p.conds, p.facts))
            continue
        pc = pathcond(p.conds)
        if p.value.variant == good:
            goods.append((pc, p))
        else:
            bad = bad + pc
            bads.append((pc, p))
    okc = T.iv_eq(T.Sum(k, n, bad)) if bad is not ZERO else ONE
    if bad is ONE:
        okc = T.iv_eq(n)
    run.events.append(('collect', n, k, bad))
    if run.decide(okc):
        # every element takes one of the good paths
        if not goods:
            return Adt(kind, good, (Arr((n,), lambda i: ZERO),))
        if len(goods) == 1:
            v = goods[0][1].value.fields[0]
        else:
            v = run.merge([(pc, p.value.fields[0]) for pc, p in goods])
        v = run.deref_shallow(v)
        arr = Arr((n,), lambda i: Mo.vsubst(v, {k: i}))
        return Adt(kind, good, (arr,))
    w = T.fresh_ix(n, 'w')
    if not bads:
        raise PathDrop()
    e = bads[0][1].value
    return Mo.vsubst(e, {k: w})


@trait('std::iter::Iterator::max_by')
def _(run, c, ca, a):
    it = Mo.to_iter(run, a[0])
    return max_by(run, it, a[1], 1)


@trait('std::iter::Iterator::min_by')
def _(run, c, ca, a):
    it = Mo.to_iter(run, a[0])
    return max_by(run, it, a[1], -1)


@trait('std::iter::Iterator::reduce', 'std::iter::Iterator::max_by_key', 'std::iter::Iterator::filter', 'std::iter::Iterator::filter_map',
       'std::iter::Iterator::flat_map', 'std::iter::Iterator::try_fold', 'std::iter::Iterator::scan', 'std::iter::Iterator::take_while')
def _(run, c, ca, a):
    raise Unsupported('iterator adaptor ' + c['name'])


def max_by(run, it, f, sgn):
    n = it.n - it.pos
    if not run.decide(T.iv_pos(n)):
        return NONE
    m = T.fresh_ix(n, 'm')
    k = T.fresh_ix(n, 'q')
    o = run.call(None, f, [Ref(Cell(it.item(it.pos + m), 'a')), Ref(Cell(it.item(it.pos + k), 'b'))])
    o = run.deref_all(o)
    if isinstance(o, Adt) and o.path == OPTION:
        o = run.deref_all(o.fields[0])
    if not (isinstance(o, Opaque) and o.tag in ('cmp', 'rcmp')):
        raise Unsupported('comparison function')
    s = sgn if o.tag == 'cmp' else -sgn
    # the comparison says: element m >= element k for all k
    run.events.append(('max_by', n, m, k, s * (o.args[0] - o.args[1])))
    run.maxby = (n, m, k, s * (o.args[0] - o.args[1]))
    return Some(it.item(it.pos + m))


@trait('std::iter::Iterator::size_hint')
def _(run, c, ca, a):
    raise Unsupported('size_hint')


# itertools
BYCRATE['itertools'] = {}


def process_results(run, c, ca, a):
    """process_results(iterable of results, f): stops at the first Err, which is returned instead of f's value."""
    h = run.hooks.get('process_results')
    if h is None:
        raise Unsupported('process_results')
    return h(run, a)


BYCRATE['itertools']['process_results'] = process_results


# core / std ----------------------------------------------------------------------------------------------------
@std('total_cmp')
def _(run, c, ca, a):
    return Opaque('cmp', (run.num(a[0]), run.num(a[1])))


@std('reverse')
def _(run, c, ca, a):
    o = run.deref_all(a[0])
    return Opaque('rcmp' if o.tag == 'cmp' else 'cmp', o.args)


@std('panic', 'panic_fmt', 'unwrap_failed', 'expect_failed', 'panic_display', 'begin_panic', 'assert_failed', 'unreachable_display', 'panic_explicit', 'panic_str')
def _(run, c, ca, a):
    msg = ''
    for x in a:
        x = run.deref_all(x)
        if isinstance(x, Str):
            msg = x.s
        elif isinstance(x, Opaque) and x.tag == 'str' and x.args:
            msg = str(x.args[0])
    raise Diverge('explicit panic: ' + msg, 'panic')


@std('new_display', 'new_debug', 'from_str', 'new_const', 'new_v1', 'from_str_nonconst', 'format', 'must_use', '_eprint', '_print', 'write_fmt', 'write_str')
def _(run, c, ca, a):
    if c['name'] in ('_eprint', '_print'):
        return UNIT
    s = [x.s for x in (run.deref_all(y) for y in a) if isinstance(x, Str)]
    return Opaque('str', s)


@trait('std::string::ToString::to_string', 'std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def _(run, c, ca, a):
    return Opaque('str')


def stdmulti(run, c, ca, a):
    """Methods called new, push, len, ... told apart by path."""
    p, n = c['d'], c['name']
    if 'OnceCell' in p:
        return once(run, c, ca, a)
    if p.startswith('std::boxed::Box'):
        if n == 'new':
            return BoxV(Cell(a[0], 'box'))
        if n in ('new_uninit',):
            return BoxV(Cell(UNINIT, 'box'))
    if p.startswith('std::vec::Vec') or p.startswith('std::slice') or p.startswith('core::slice') or 'for [T]' in p or '[T]' in p:
        return vec(run, c, ca, a)
    if p.startswith('std::fmt') or p.startswith('core::fmt'):
        return Opaque('str')
    raise KeyError


def vec(run, c, ca, a):
    n = c['name']
    if n in ('new', 'with_capacity'):
        return Arr((ZERO,), lambda i: ZERO, 'adt')
    if n == 'push':
        t = run.mut_target(a[0])
        old = run.view_read(t)
        x = snapshot(run, run.deref_all(a[1]))
        m = old.shape[0]

        def f(k):
            if k is m:
                return x
            cc = T.iv_eq(k - m)
            if cc is ONE:
                return x
            if cc is ZERO:
                return old.at(k)
            if isinstance(x, Poly):
                return T.ite(cc, x, old.at(k))
            return run.merge([(cc, x), (ONE - cc, old.at(k))])
        run.array_write(t, Arr((m + 1,), f, 'adt'))
        return UNIT
    if n == 'len':
        return A(run, a[0]).shape[0]
    if n == 'is_empty':
        return T.iv_eq(A(run, a[0]).shape[0])
    if n == 'iter':
        x = A(run, a[0])
        return Iter(x.shape[0], lambda k: x.at(k))
    if n in ('last', 'first'):
        x = A(run, a[0])
        if not run.decide(T.iv_pos(x.shape[0])):
            return NONE
        return Some(x.at(ZERO if n == 'first' else x.shape[0] - 1))
    if n in ('clear',):
        run.array_write(run.mut_target(a[0]), Arr((ZERO,), lambda i: ZERO, 'adt'))
        return UNIT
    if n == 'reserve':
        return UNIT
    if n in ('to_vec', 'into_vec', 'into_boxed_slice', 'as_slice'):
        return A(run, a[0])
    raise Unsupported('Vec::' + n)


def once(run, c, ca, a):
    n = c['name']
    if n == 'new':
        return Adt('OnceCell', 0, (NONE,))
    if n in ('with_value', 'from'):
        return Adt('OnceCell', 0, (Some(a[0]),))
    t = run.mut_target(a[0])
    cell = run.read_ref(t)
    inner = run.field(cell, ('f', 0))
    tpath = t.path + (('f', 0), ('f', 0))
    if n == 'get':
        return Some(Ref(t.cell, tpath)) if inner.variant == 1 else NONE
    if n == 'set':
        if inner.variant == 1:
            return Err(a[1])
        run.write_ref(t, Adt('OnceCell', 0, (Some(a[1]),)))
        return Ok(UNIT)
    if n in ('get_or_init', 'get_or_try_init'):
        try_ = n.endswith('try_init')
        if inner.variant != 1:
            run.events.append(('once', t))
            v = run.call(None, a[1], [])
            if try_:
                v = run.deref_shallow(v)
                if v.variant == 1:
                    return v
                v = v.fields[0]
            run.write_ref(t, Adt('OnceCell', 0, (Some(v),)))
        r = Ref(t.cell, tpath)
        return Ok(r) if try_ else r
    if n in ('into_inner', 'take'):
        if n == 'take':
            run.write_ref(t, Adt('OnceCell', 0, (NONE,)))
        return inner
    raise Unsupported('OnceCell::' + n)


@std('box_assume_init_into_vec_unsafe', 'into_vec')
def _(run, c, ca, a):
    v = run.deref_all(a[0])
    while isinstance(v, Adt) and v.path != 'array':
        fs = [x for x in v.fields if x is not UNINIT]
        v = run.deref_all(fs[-1])
    return A(run, v)


@std('transmute')
def _(run, c, ca, a):
    return a[0]


@std('swap')
def _(run, c, ca, a):
    x, y = run.mut_target(a[0]), run.mut_target(a[1])
    vx, vy = run.deref_all(x), run.deref_all(y)
    run.write_ref(x, vy)
    run.write_ref(y, vx)
    return UNIT


@std('replace')
def _(run, c, ca, a):
    if 'mem' not in c['d']:
        raise Unsupported(c['d'])
    x = run.mut_target(a[0])
    v = run.deref_all(x)
    run.write_ref(x, a[1])
    return v


@std('take')
def _(run, c, ca, a):
    x = run.mut_target(a[0])
    v = run.deref_all(x)
    if isinstance(v, Adt) and v.path == OPTION:
        run.write_ref(x, NONE)
    elif isinstance(v, Arr):
        run.write_ref(x, Arr((ZERO,) * v.ndim, lambda *i: ZERO))
    else:
        raise Unsupported('mem::take')
    return v


@std('drop', 'forget')
def _(run, c, ca, a):
    return UNIT


# Option / Result: explicit contracts for the usual helpers (closures are run on the value)
def opt(name):
    def deco(f):
        OPT[name] = f
        return f
    return deco


OPT = {}


def _body(run, c, ca, a):
    """The Option/Result methods."""
    n = c['name']
    v = run.force(a[0])
    isref = isinstance(v, (Ref,))
    x = run.deref_all(v)
    if not (isinstance(x, Adt) and x.path in (OPTION, RESULT)):
        raise Unsupported('%s on %r' % (n, x))
    some = (x.variant == 1) if x.path == OPTION else (x.variant == 0)
    val = x.fields[0] if x.fields else None
    O = x.path == OPTION
    if n in ('is_some', 'is_ok'):
        return ONE if some else ZERO
    if n in ('is_none', 'is_err'):
        return ZERO if some else ONE
    if n in ('unwrap', 'expect', 'unwrap_unchecked'):
        if some:
            return val
        e = run.deref_all(x.fields[0]) if x.fields else None
        failed_fit = isinstance(e, Adt) and e.path == 'error::RegressionError' or isinstance(e, Opaque) and e.tag == 'refit_error'
        raise Diverge('%s of a failure value' % n, 'fit' if failed_fit else 'unwrap')
    if n == 'unwrap_or':
        return val if some else a[1]
    if n == 'unwrap_or_else':
        return val if some else run.call(None, a[1], [] if O else [val])
    if n == 'unwrap_or_default':
        return val if some else ZERO
    if n == 'map':
        if not some:
            return x
        r = run.call(None, a[1], [val])
        return Some(r) if O else Ok(r)
    if n == 'map_or':
        return run.call(None, a[2], [val]) if some else a[1]
    if n == 'map_or_else':
        return run.call(None, a[2], [val]) if some else run.call(None, a[1], [] if O else [val])
    if n == 'map_err':
        return x if some else Err(run.call(None, a[1], [val]))
    if n in ('and_then',):
        return run.call(None, a[1], [val]) if some else x
    if n == 'ok_or':
        return Ok(val) if some else Err(a[1])
    if n == 'ok_or_else':
        return Ok(val) if some else Err(run.call(None, a[1], []))
    if n == 'ok':
        return Some(val) if some else NONE
    if n == 'err':
        return NONE if some else Some(val)
    if n == 'or':
        return x if some else a[1]
    if n == 'or_else':
        return x if some else run.call(None, a[1], [] if O else [val])
    if n in ('as_ref', 'as_deref', 'as_mut', 'as_deref_mut'):
        if not some:
            return x
        if isref:
            t = run.mut_target(v)
            r = Ref(t.cell, t.path + (('f', 0),))
        else:
            r = val
        return Some(r) if O else Ok(r)
    if n in ('cloned', 'copied'):
        return Some(run.deref_all(val)) if some else x
    if n == 'is_some_and':
        return run.call(None, a[1], [val]) if some else ZERO
    if n == 'is_none_or':
        return run.call(None, a[1], [val]) if some else ONE
    if n == 'take':
        run.write_ref(run.mut_target(v), NONE)
        return x
    if n in ('insert', 'replace'):
        run.write_ref(run.mut_target(v), Some(a[1]))
        return x if n == 'replace' else a[1]
    if n == 'iter':
        return Iter(ONE, lambda k: val) if some else Iter(ZERO, lambda k: ZERO)
    if n == 'filter':
        if some and run.decide(run.num(run.call(None, a[1], [val]))):
            return x
        return NONE
    if n == 'zip':
        y = run.deref_all(a[1])
        return Some(Tuple(val, y.fields[0])) if some and y.variant == 1 else NONE
    if n == 'transpose':
        inner = run.deref_all(val) if some else None
        if O:
            if not some:
                return Ok(NONE)
            return Ok(Some(inner.fields[0])) if inner.variant == 0 else inner
    raise Unsupported('Option/Result method ' + n)


class OptTable(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return _body


class StdMulti(dict):
    names = {'new', 'push', 'len', 'is_empty', 'iter', 'last', 'first', 'get_or_init', 'get_or_try_init', 'get', 'set',
             'with_value', 'new_uninit', 'with_capacity', 'clear', 'reserve', 'to_vec', 'into_inner', 'take', 'as_slice',
             'into_vec', 'into_boxed_slice'}

    def __contains__(self, k):
        return k in self.names

    def __getitem__(self, k):
        return stdmulti


@trait('std::ops::Try::branch')
def _(run, c, ca, a):
    x = run.deref_shallow(a[0])
    some = (x.variant == 1) if x.path == OPTION else (x.variant == 0)
    if some:
        return Adt(CF, 0, (x.fields[0],))
    return Adt(CF, 1, (x,))


@trait('std::ops::Try::from_output')
def _(run, c, ca, a):
    t = ca[0]
    return Some(a[0]) if t['d'] == OPTION else Ok(a[0])


@trait('std::ops::FromResidual::from_residual')
def _(run, c, ca, a):
    x = run.deref_shallow(a[0])
    if x.path == OPTION:
        return NONE
    e = run.deref_shallow(x.fields[0])
    tgt = ca[0]
    if isinstance(e, Opaque) and e.tag == 'LinalgError' and tgt['k'] == 'adt' and tgt['d'] == RESULT:
        et = run.norm_type(tgt['a'][1])
        for im in run.prog.impls:
            if im['trait'] == 'std::convert::From' and im['self']['k'] == 'adt' and et['k'] == 'adt' and im['self']['d'] == et['d']:
                at = im['args'][1] if len(im['args']) > 1 else None
                if at is not None and at['k'] == 'adt' and 'LinalgError' in at['d']:
                    for it in im['items']:
                        if it['name'] == 'from' and run.prog.items.get(it['d'], {}).get('body'):
                            return Err(run.exec_body(it['d'], run.prog.items[it['d']]['body'], [e], {}))
        raise Unsupported('conversion of a linear algebra error')
    return Err(e)


# distributions -------------------------------------------------------------------------------------------------
ST = {}


def _dist(run, c, ca, a):
    p = c['d']
    n = p.split('::')[-2].split('<')[0].strip()
    if n == '' or '<' in n:
        n = [s for s in p.split('::') if s and not s.startswith('<')][-2]
    if c['name'] == 'standard':
        return Opaque('dist', (n, ZERO, ONE))
    v = [run.num(x) for x in a]
    pos = {'Normal': (1,), 'StudentsT': (1, 2), 'FisherSnedecor': (0, 1), 'ChiSquared': (0,), 'Gamma': (0, 1), 'Exp': (0,), 'Poisson': (0,)}.get(n)
    ok = True
    if pos is not None:
        for k in pos:
            ok = ok and v[k] is not NAN and run.decide(T.iv_pos(v[k]))
    elif n in ('Bernoulli', 'Binomial'):
        ok = v[0] is not NAN and run.decide(T.iv_ge(v[0])) and run.decide(T.iv_ge(1 - v[0]))
    else:
        raise Unsupported('distribution ' + n)
    if not ok:
        return Err(Opaque('distribution error'))
    return Ok(Opaque('dist', (n,) + tuple(v)))


ST['new'] = ST['standard'] = _dist
BYCRATE['statrs'] = ST


def _cdf(run, c, ca, a):
    d = run.deref_all(a[0])
    if not (isinstance(d, Opaque) and d.tag == 'dist'):
        raise Unsupported('distribution')
    x = run.num(a[1])
    name = d.args[0]
    n = c['name']
    if n == 'cdf':
        return ONE - T.fn('sf_' + name, *(list(d.args[1:]) + [x]))
    if n == 'sf':
        return T.fn('sf_' + name, *(list(d.args[1:]) + [x]))
    if n == 'inverse_cdf':
        return T.fn('quant_' + name, *(list(d.args[1:]) + [x]))
    raise Unsupported('distribution method ' + n)


for _t in ('statrs::distribution::ContinuousCDF', 'statrs::distribution::DiscreteCDF'):
    for _n in ('cdf', 'sf', 'inverse_cdf'):
        TRAITS[(_t, _n)] = _cdf

BYPATH.append(('std::option::Option', OptTable()))
BYPATH.append(('std::result::Result', OptTable()))
BYPATH.append(('std::fmt::', StdMulti()))
BYPATH.append(('core::fmt::', StdMulti()))
BYPATH.append(('once_cell::', StdMulti()))
BYPATH.append(('std::boxed::', StdMulti()))
BYPATH.append(('std::vec::', StdMulti()))
BYPATH.append(('std::slice::', StdMulti()))
BYPATH.append(('core::slice::', StdMulti()))
BYPATH.append(('alloc::', StdMulti()))
BYPATH.append(('std::cell::', StdMulti()))
BYPATH.append(('std::', STD))
BYPATH.append(('core::', STD))
BYPATH.append(('alloc::', STD))


def _contains(run, c, ca, a):
    r = run.deref_all(a[0])
    x = run.deref_all(a[1])
    if not isinstance(r, Adt) or not r.path.startswith('std::ops::Range'):
        raise Unsupported('contains of %s' % type(r).__name__)
    k = r.path.split('::')[-1]
    if k == 'RangeFull':
        return ONE
    lo = r.fields[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = r.fields[1] if k in ('Range', 'RangeInclusive') else r.fields[0] if k in ('RangeTo', 'RangeToInclusive') else None
    ok = ONE
    if lo is not None:
        ok = ok * run.cmp('Ge', x, run.deref_all(lo))
    if hi is not None:
        ok = ok * run.cmp('Le' if 'Inclusive' in k else 'Lt', x, run.deref_all(hi))
    return ok


TRAITS[('std::ops::RangeBounds', 'contains')] = _contains
for _k in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive'):
    BYPATH.insert(0, ('std::ops::%s::<' % _k, {'contains': _contains}))
