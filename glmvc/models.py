"""Assumed contracts of external functions (core, ndarray, ndarray-linalg, num-traits, statrs, itertools, once_cell)
and call dispatch.  Every external function used on a path is recorded in run.externs."""
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .engine import (Arr, Adt, Tuple, UNIT, OPTION, RESULT, CF, Some, NONE, Ok, Err, Cell, Ref, BoxV, MutView, ElemRef,
                     Closure, FnV, PyFn, Iter, Str, Opaque, Lazy, UNINIT, NAN, INF, EPS, Unsupported, PathDrop,
                     Diverge, tsubst, abstract_type, isnan, linear_in, pathcond)

F64 = {'k': 'prim', 'n': 'f64'}
LOCAL_ABSTRACT = ('glm::Glm', 'link::Link', 'link::Transform', 'response::Response', 'response::Yval')


# value substitution --------------------------------------------------------------------------------------------
def vsubst(v, m):
    if isinstance(v, Poly):
        return T.subst(v, m)
    if isinstance(v, Arr):
        return Arr([T.subst(s, m) for s in v.shape], lambda *i: vsubst_in(v, i, m), v.elem, v.tag)
    if isinstance(v, Adt):
        return Adt(v.path, v.variant, [vsubst(x, m) for x in v.fields], v.args)
    if isinstance(v, Opaque):
        return Opaque(v.tag, [vsubst(x, m) if isinstance(x, (Poly, Arr, Adt)) else x for x in v.args])
    return v


def vsubst_in(v, idx, m):
    # evaluate at private indices first so that the substitution does not touch the requested ones
    fr = [T.fresh_ix(s) for s in v.shape]
    keys = {k.single_atom().id if isinstance(k, Poly) else k for k in m}
    if not any(i.fv & keys for i in idx):
        return vsubst(v.at(*idx), m)
    e = vsubst(v.at(*fr), m)
    return vsubst(e, dict(zip(fr, idx)))


def gen_arr(run, shape, f, elem='num'):
    """Array whose generic element is computed now (closures run in the current state)."""
    shape = [P(s) for s in shape]
    if any(s is ZERO for s in shape):
        return Arr(shape, lambda *i: ZERO)
    fr = [T.fresh_ix(s, 'g') for s in shape]
    try:
        v = f(*fr)
    except Diverge as e:
        # the closure panics on every element: fine only when there is none
        run.oblige(e.kind, T.iv_eq(T.P(1) if not shape else _prod(shape)), e.msg)
        return Arr(shape, lambda *i: ZERO)
    v = run.deref_all(v) if not isinstance(v, (Poly, Arr, Adt, Opaque)) else v
    if isinstance(v, Poly):
        return Arr(shape, lambda *i: T.subst(v, dict(zip(fr, i))))
    return Arr(shape, lambda *i: vsubst(v, dict(zip(fr, i))), 'adt')


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


# operators -----------------------------------------------------------------------------------------------------
def scal(op, a, b):
    if isnan(a) or isnan(b):
        return NAN
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'div':
        return a / b
    raise Unsupported('operator ' + op)


def bcast(run, a, b, what):
    """Shapes and index maps of an element-wise operation with ndarray's broadcasting."""
    n = max(a.ndim, b.ndim)
    sa = (None,) * (n - a.ndim) + a.shape
    sb = (None,) * (n - b.ndim) + b.shape
    out, ma, mb = [], [], []
    for k in range(n):
        x, y = sa[k], sb[k]
        if x is None:
            out.append(y)
            mb.append((k, False))
        elif y is None:
            out.append(x)
            ma.append((k, False))
        elif y is ONE and x is not ONE:
            out.append(x)
            ma.append((k, False))
            mb.append((k, True))
        elif x is ONE and y is not ONE:
            out.append(y)
            ma.append((k, True))
            mb.append((k, False))
        else:
            run.same_dim(x, y, what)
            out.append(x)
            ma.append((k, False))
            mb.append((k, False))
    fa = lambda i: a.at(*[ZERO if z else i[k] for k, z in ma])
    fb = lambda i: b.at(*[ZERO if z else i[k] for k, z in mb])
    return out, fa, fb


def arith(run, op, a, b):
    a, b = run.deref_all(a), run.deref_all(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if op == 'rem':
            return run.binop('Rem', a, b)
        if op == 'div':
            return run.fdiv(a, b)
        return scal(op, a, b)
    if isinstance(a, Arr) and isinstance(b, Poly):
        return Arr(a.shape, lambda *i: scal(op, a.at(*i), b))
    if isinstance(a, Poly) and isinstance(b, Arr):
        return Arr(b.shape, lambda *i: scal(op, a, b.at(*i)))
    if isinstance(a, Arr) and isinstance(b, Arr):
        sh, fa, fb = bcast(run, a, b, op)
        return Arr(sh, lambda *i: scal(op, fa(i), fb(i)))
    raise Unsupported('operands of %s: %s %s' % (op, type(a).__name__, type(b).__name__))


def arith_assign(run, op, dst, b):
    t = run.mut_target(dst)
    if isinstance(t, MutView):
        a = run.view_read(t)
    else:
        a = run.deref_all(t)
    b = run.deref_all(b)
    if isinstance(a, Poly):
        run.write_ref(t, scal(op, a, b))
        return UNIT
    if isinstance(b, Poly):
        new = Arr(a.shape, lambda *i: scal(op, a.at(*i), b))
    else:
        if b.ndim > a.ndim:
            raise Diverge('cannot broadcast in %s_assign' % op, 'shape')
        sh, fa, fb = bcast(run, a, b, op + '_assign')
        for x, y in zip(sh, a.shape):
            if x is not y:
                run.same_dim(x, y, op + '_assign')
        new = Arr(a.shape, lambda *i: scal(op, fa(i), fb(i)))
    run.array_write(t, new)
    return UNIT


# slicing -------------------------------------------------------------------------------------------------------
def slice_elem(run, x):
    x = run.deref_all(x)
    if isinstance(x, Opaque) and x.tag in ('srange', 'sindex', 'newaxis'):
        return x
    if isinstance(x, Poly):
        return Opaque('sindex', (x,))
    if isinstance(x, Adt):
        p = x.path
        if p == 'std::ops::RangeFull':
            return Opaque('srange', (ZERO, None))
        if p == 'std::ops::RangeFrom':
            return Opaque('srange', (run.num(x.fields[0]), None))
        if p == 'std::ops::RangeTo':
            return Opaque('srange', (ZERO, run.num(x.fields[0])))
        if p == 'std::ops::Range':
            return Opaque('srange', (run.num(x.fields[0]), run.num(x.fields[1])))
        if p == 'std::ops::RangeToInclusive':
            return Opaque('srange', (ZERO, run.num(x.fields[0]) + 1))
        if p == 'std::ops::RangeInclusive':
            return Opaque('srange', (run.num(x.fields[0]), run.num(x.fields[1]) + 1))
        if p == 'ndarray::NewAxis':
            return Opaque('newaxis')
    raise Unsupported('slice element %r' % (x,))


def neg_wrap(run, v, n):
    """ndarray treats negative slice bounds as relative to the end."""
    if v.isconst and v.cval < 0:
        return n + v
    return v


def do_slice(run, shape, info):
    """(out shape, fwd, inv) of a slice."""
    info = run.deref_all(info)
    if isinstance(info, Opaque) and info.tag == 'SliceInfo':
        els = info.args
    elif isinstance(info, Adt) and info.path in ('array', 'tuple'):
        els = [slice_elem(run, e) for e in info.fields]
    else:
        els = [slice_elem(run, info)]
    out, plan = [], []
    ax = 0
    for e in els:
        e = slice_elem(run, e)
        if e.tag == 'newaxis':
            out.append(ONE)
            plan.append(('new', None))
            continue
        if ax >= len(shape):
            raise Diverge('slice has too many axes', 'shape')
        n = shape[ax]
        if e.tag == 'sindex':
            i = neg_wrap(run, e.args[0], n)
            run.oblige('bounds', T.iv_ge(n - 1 - i), 'slice index %s < %s' % (T.show(i), T.show(n)))
            plan.append(('index', i))
        else:
            a, b = e.args
            a = neg_wrap(run, a, n)
            b = n if b is None else neg_wrap(run, b, n)
            if b is not n:
                run.oblige('bounds', T.iv_ge(n - b), 'slice end %s <= %s' % (T.show(b), T.show(n)))
            run.oblige('bounds', T.iv_ge(b - a), 'slice start %s <= end %s' % (T.show(a), T.show(b)))
            a2 = run.dec.facts.simp(a)
            out.append(run.dec.facts.simp(b - a))
            plan.append(('range', a2))
        ax += 1
    if ax != len(shape):
        raise Diverge('slice has too few axes', 'shape')

    def fwd(*v):
        r, k = [], 0
        for kind, x in plan:
            if kind == 'index':
                r.append(x)
            elif kind == 'range':
                r.append(v[k] + x)
                k += 1
            else:
                k += 1
        return r

    def inv(*i):
        c, r, k = ONE, [], 0
        for kind, x in plan:
            if kind == 'index':
                c = c * T.iv_eq(i[k] - x)
                k += 1
            elif kind == 'range':
                sz = out[len(r)]
                if x is not ZERO:
                    c = c * T.iv_ge(i[k] - x)
                if (x + sz) is not shape[k]:
                    c = c * T.iv_pos(x + sz - i[k])
                r.append(i[k] - x)
                k += 1
            else:
                r.append(ZERO)
        return c, r
    return out, fwd, inv


def mk_mutview(run, target, shape, fwd, inv):
    t = run.mut_target(target)
    if isinstance(t, ElemRef):
        raise Unsupported('view of an element')
    return MutView(t, shape, fwd, inv)


# linear algebra ------------------------------------------------------------------------------------------------
def dot(run, a, b):
    a, b = run.deref_all(a), run.deref_all(b)
    if a.ndim == 1 and b.ndim == 1:
        run.same_dim(a.shape[0], b.shape[0], 'dot')
        k = T.fresh_ix(a.shape[0])
        return T.Sum(k, a.shape[0], a.at(k) * b.at(k))
    if a.ndim == 2 and b.ndim == 1:
        run.same_dim(a.shape[1], b.shape[0], 'dot')

        def f(i):
            k = T.fresh_ix(b.shape[0])
            return T.Sum(k, b.shape[0], a.at(i, k) * b.at(k))
        return Arr((a.shape[0],), f)
    if a.ndim == 2 and b.ndim == 2:
        run.same_dim(a.shape[1], b.shape[0], 'dot')

        def f(i, j):
            k = T.fresh_ix(b.shape[0])
            return T.Sum(k, b.shape[0], a.at(i, k) * b.at(k, j))
        return Arr((a.shape[0], b.shape[1]), f)
    if a.ndim == 1 and b.ndim == 2:
        run.same_dim(a.shape[0], b.shape[0], 'dot')

        def f(j):
            k = T.fresh_ix(b.shape[0])
            return T.Sum(k, b.shape[0], a.at(k) * b.at(k, j))
        return Arr((b.shape[1],), f)
    raise Unsupported('dot of ranks %d %d' % (a.ndim, b.ndim))


def matrix_key(run, a):
    run.same_dim(a.shape[0], a.shape[1], 'square matrix')
    n = a.shape[0]
    return n, T.matrix_blocks(n, a.at)


def singular_flag(n, blocks):
    # one truth value per matrix content
    key = T.ZERO
    args = [n] + list(blocks)
    return T.ap(T.atom('B', 'singular', *args))


def inverse(run, a):
    a = run.deref_all(a)
    n, blocks = matrix_key(run, a)
    if run.decide(singular_flag(n, blocks)):
        return None
    return Arr((n, n), lambda i, j: T.inv_atom(n, blocks, i, j))


def solve(run, a, b, sym=False):
    a, b = run.deref_all(a), run.deref_all(b)
    n, blocks = matrix_key(run, a)
    run.same_dim(n, b.shape[0], 'solve')
    run.solves.append((a, b))
    if run.decide(singular_flag(n, blocks)):
        return None

    def f(i):
        k = T.fresh_ix(n)
        return T.Sum(k, n, T.inv_atom(n, blocks, i, k) * b.at(k))
    return Arr((n,), f)


LINERR = Opaque('LinalgError')


# scalar functions ----------------------------------------------------------------------------------------------
def signum(x):
    # 1 for positive numbers, -1 for negative ones; the value at a zero is the sign bit, left unspecified
    z = T.iv_eq(x)
    s = T.sign(x)
    if x.isconst:
        return s if x.t else T.ap(T.atom('B', 'zsign', x)) * 2 - 1
    return s + z * (2 * T.ap(T.atom('B', 'zsign', x)) - 1)


def expand(x):
    return x


FLOAT1 = {
    'abs': T.absval, 'exp': T.exp, 'exp_m1': lambda x: T.exp(x) - 1, 'ln': T.ln, 'ln_1p': lambda x: T.ln(1 + x),
    'recip': lambda x: 1 / x if False else T.power(x, -1), 'signum': signum, 'sqrt': T.sqrt,
    'exp2': lambda x: T.exp(x * T.ln(P(2))), 'log10': lambda x: T.ln(x) / T.ln(P(10)), 'cbrt': lambda x: T.power(x, Fraction(1, 3)),
}


def tmax(a, b):
    return T.ite(T.iv_pos(b - a), b, a)


def tmin(a, b):
    return T.ite(T.iv_pos(a - b), b, a)


def as_iter(run, it):
    if isinstance(it, Iter):
        return it
    if isinstance(it, Adt):
        if it.path == 'std::ops::Range':
            a, b = run.num(it.fields[0]), run.num(it.fields[1])
            n = run.dec.facts.simp(b - a)
            if not run.dec.facts.entails_int(n):
                if run.decide(T.iv_pos(-n)):
                    n = ZERO
            return Iter(n, lambda k: a + k)
        if it.path == 'array':
            fs = it.fields
            return Iter(T.const(len(fs)), lambda k: fs[int(k.cval)])
    if isinstance(it, Arr):
        if it.ndim == 1:
            return Iter(it.shape[0], lambda k: it.at(k))
    return None


def to_iter(run, v):
    v0 = run.force(v)
    if isinstance(v0, Iter):
        return v0
    x = run.deref_all(v0)
    r = as_iter(run, x)
    if r is None:
        raise Unsupported('iteration over %s' % type(x).__name__)
    return r


def item_gen(run, it):
    """Array view of the remaining items (generic evaluation)."""
    return gen_arr(run, (it.n - it.pos,), lambda k: it.item(it.pos + k))


def abstract_const(run, c):
    if c['name'] == 'DISPERSED':
        dt = 'glm::DispersionType'
        free = run.prog.variant(dt, 'FreeDispersion')
        other = run.prog.variant(dt, 'NoDispersion')
        return Adt(dt, free if run.decide(T.boolvar('DISPERSED')) else other, ())
    raise Unsupported('abstract constant ' + c['name'])


# abstract family -----------------------------------------------------------------------------------------------
def abstract_family(run, c, tenv, args):
    """The abstract response family M with its link: functions known only by the laws established in C05."""
    name = c['name']
    a = args
    num = run.num
    arr = lambda x: run.view_read(run.deref_all(x))
    if name == 'func':
        return T.fn('g', num(a[0]))
    if name == 'func_inv':
        return T.fn('mean', num(a[0]))
    if name == 'log_partition':
        return T.fn('A', num(a[0]))
    if name == 'variance':
        return T.fn('V', num(a[0]))
    if name == 'log_like_sat':
        return T.fn('lsat', num(a[0]))
    if name == 'nat_param':
        x = arr(a[0])
        return Arr(x.shape, lambda *i: T.fn('nat', x.at(*i)))
    if name == 'd_nat_param':
        x = arr(a[0])
        return Arr(x.shape, lambda *i: T.fn('dnat', x.at(*i)))
    if name == 'get_distribution':
        return Opaque('dist', ('resp', num(a[0]), num(a[1])))
    if name == 'into_float':
        y = a[0]
        y = run.deref_all(y)
        if run.decide(T.ap(T.atom('B', 'yvalid', num(y)))):
            return Ok(T.fn('yfloat', num(y)))
        adt = 'error::RegressionError'
        return Err(Adt(adt, run.prog.variant(adt, 'InvalidY'), (Opaque('msg'),)))
    over = run.prog.overridden(c['trait'], name)
    if over:
        law = LAWS.get(name)
        if law is None:
            raise Unsupported('%s is overridden' % name)
        run.assumed.add('law:' + name)
        return law(run, a)
    return None


def _law_adj_err(run, a):
    e, x = run.view_read(run.deref_all(a[0])), run.view_read(run.deref_all(a[1]))
    run.same_dim(e.shape[0], x.shape[0], 'adjust_errors')
    return Arr(e.shape, lambda i: e.at(i) * T.fn('dnat', x.at(i)))


def _law_adj_var(run, a):
    e, x = run.view_read(run.deref_all(a[0])), run.view_read(run.deref_all(a[1]))
    run.same_dim(e.shape[0], x.shape[0], 'adjust_variance')
    return Arr(e.shape, lambda i: e.at(i) * T.fn('dnat', x.at(i)) * T.fn('dnat', x.at(i)))


LAWS = {
    'log_like_natural': lambda run, a: run.num(a[0]) * run.num(a[1]) - T.fn('A', run.num(a[1])),
    'adjust_errors': _law_adj_err,
    'adjust_variance': _law_adj_var,
    'adjust_errors_variance': lambda run, a: Tuple(_law_adj_err(run, [a[0], a[2]]), _law_adj_var(run, [a[1], a[2]])),
}


# dispatch ------------------------------------------------------------------------------------------------------
def callee_env(run, path, cargs):
    it = run.prog.items[path]
    env = {}
    gens = it.get('generics') or []
    gens = [g if isinstance(g, str) else g.get('name') for g in gens]
    gens = [g for g in gens if not g.startswith("'")]
    tys = [x for x in cargs if x.get('k') != 'lifetime']
    if len(gens) == len(tys):
        env = dict(zip(gens, tys))
    else:
        for g, x in zip(gens, tys):
            env[g] = x
    return env


def value_type(run, v):
    """The concrete type of a runtime value, for dynamic dispatch."""
    x = run.deref_all(v)
    if isinstance(x, Adt):
        args = [tsubst(t, {'F': F64}) for t in (x.args or [])]
        return {'k': 'adt', 'd': x.path, 'a': args}
    return None


def inline(run, path, cargs, args, env=None):
    h = run.contracts.get(path)
    if h is not None:
        r = h(run, args)
        if r is not NotImplemented:
            return r
    it = run.prog.items[path]
    e = callee_env(run, path, cargs) if env is None else env
    return run.exec_body(path, it['body'], list(args), e)


def call_fn(run, c, tenv, args):
    prog = run.prog
    path = c['d']
    cargs = [run.norm_type(tsubst(t, tenv)) for t in c.get('a', [])]
    trait = c.get('trait')
    hk = run.hooks.get(('call', c['name']))
    if hk is not None:
        r = hk(run, c, cargs, args)
        if r is not NotImplemented:
            return r
    if trait is None:
        it = prog.items.get(path)
        if it is not None and it.get('local') and it.get('body'):
            return inline(run, path, cargs, args)
        return external(run, c, cargs, args, None)
    selfty = cargs[0] if cargs else None
    # dynamic dispatch
    while selfty is not None and selfty['k'] == 'adt' and selfty['d'] == 'std::boxed::Box' and not is_std(trait):
        selfty = selfty['a'][0]
    if selfty is not None and selfty['k'] == 'dyn':
        if trait in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce'):
            return call_callable(run, args)
        vt = value_type(run, args[0])
        if vt is not None:
            selfty = vt
    if trait in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce'):
        return call_callable(run, args)
    if selfty is not None and not abstract_type(selfty):
        r = prog.assoc(trait, c['name'], selfty, cargs[1:] if len(cargs) > 1 and trait in ('std::convert::From', 'response::Yval', 'link::Link') else None)
        if r is None and trait in ('response::Yval', 'link::Link'):
            r = prog.assoc(trait, c['name'], selfty)
        if r is not None:
            kind, item, env = r
            p = item['d']
            if prog.items.get(p, {}).get('body'):
                # method-level generics follow the trait's
                e = dict(env)
                gens = [g if isinstance(g, str) else g.get('name') for g in prog.items[p].get('generics') or []]
                gens = [g for g in gens if not g.startswith("'")]
                left = [g for g in gens if g not in e and g != 'Self']
                # trait-level arguments come first in cargs; the method's own are last
                own = cargs[len(cargs) - len(left):] if left else []
                for g, x in zip(left, own):
                    e[g] = x
                e.setdefault('Self', selfty)
                if p not in run.prog.items:
                    raise Unsupported(p)
                if p in run.contracts:
                    rr = run.contracts[p](run, args)
                    if rr is not NotImplemented:
                        return rr
                if not trivial_clone(trait):
                    return run.exec_body(p, prog.items[p]['body'], list(args), e)
    elif selfty is not None and trait in LOCAL_ABSTRACT:
        r = abstract_family(run, c, tenv, args)
        if r is not None:
            return r
        d = trait + '::' + c['name']
        if prog.items.get(d, {}).get('body'):
            env = callee_env(run, d, cargs)
            env['Self'] = selfty
            if d in run.contracts:
                rr = run.contracts[d](run, args)
                if rr is not NotImplemented:
                    return rr
            return run.exec_body(d, prog.items[d]['body'], list(args), env)
    return external(run, c, cargs, args, selfty)


def is_std(t):
    return t.startswith('std::') or t.startswith('core::')


def trivial_clone(trait):
    return trait == 'std::clone::Clone'


def call_callable(run, args):
    f = run.force(args[0])
    while isinstance(f, (Ref, BoxV)):
        f = run.read_ref(f)
    rest = run.force(args[1]) if len(args) > 1 else UNIT
    if isinstance(rest, Adt) and rest.path == 'tuple':
        rest = list(rest.fields)
    else:
        rest = [rest]
    return run.call(None, f, rest)


def external(run, c, cargs, args, selfty):
    name, crate, trait = c['name'], c.get('crate'), c.get('trait')
    path = c['d']
    run.externs.add(c.get('rd') or path)
    f = None
    if trait:
        f = TRAITS.get((trait, name)) or TRAITS.get((trait, '*'))
    if f is None and crate in BYCRATE:
        f = BYCRATE[crate].get(name)
    if f is None:
        for pre, tab in BYPATH:
            if path.startswith(pre) and name in tab:
                f = tab[name]
                break
    if f is not None:
        return f(run, c, cargs, args)
    # bodies of small core functions are available in the dump
    p = c.get('rd') if c.get('rd') in run.prog.items else path
    it = run.prog.items.get(p)
    if it is not None and it.get('body'):
        ra = [run.norm_type(tsubst(t, {})) for t in c.get('ra', [])] if p == c.get('rd') and c.get('rd') != path else cargs
        return run.exec_body(p, it['body'], list(args), callee_env(run, p, ra))
    raise Unsupported('external function %s' % (c.get('rd') or path))


from .extmodels import TRAITS, BYCRATE, BYPATH  # noqa: E402
