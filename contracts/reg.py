"""C13 penalties, C14 ADMM."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, NONE, Some, Unsupported
from glmvc.inputs import get, put, DTABLE
from glmvc.spec import unit

ANY = [dict(intercept=True), dict(intercept=False)]


def pen_std(s, b):
    """documented penalty at internal coefficients"""
    l1, l2 = s.L1(), s.L2()
    j = T.fresh_ix(s.p)
    x = b(j + 1 if s.ic else j)
    return -l1 * T.Sum(j, s.p, T.absval(x)) - l2 / 2 * T.Sum(j, s.p, x * x)


def rf(x):
    return Ref(Cell(x))


# C13 -----------------------------------------------------------------------------------------------------------
@unit('C13', 'penalty value', cfgs=ANY, private=True)
def _(c):
    s = c.S()
    r = s.reg()
    g = s.beta('g')
    c.eq('penalty', s.dyn(r, 'likelihood', rf(s.arr(g))), pen_std(s, g))


@unit('C13', 'penalty gradient and curvature', cfgs=ANY, private=True)
def _(c):
    s = c.S()
    r = s.reg()
    g = s.beta('g')
    jac = s.beta('jac')
    out = s.dyn(r, 'gradient', s.arr(jac), rf(s.arr(g)))
    obj = pen_std(s, g)
    c.arr('gradient', out, (s.k,), lambda k: jac(k) + T.Diff('g', [k], DTABLE).poly(obj), s.params())
    from .gradients import pairs
    mat = Arr((s.k, s.k), lambda k, m: T.var('mat', P(k), P(m)))
    out = s.dyn(r, 'fisher_mat', mat, rf(s.arr(g)))
    c.arr('curvature of the smooth part', out, (s.k, s.k), lambda k, m: T.var('mat', P(k), P(m)) + s.pen_curv(k, m), pairs(s))


@unit('C13', 'penalty of the fit and of an alternative')
def _(c):
    # through public queries: 2(l - l_alt) and the score
    s = c.S()
    f = s.fit()
    a = s.beta('a')
    lr = s.call('fit::Fit::lr_test_against', f, rf(s.arr(a)))
    c.eq('penalty of an alternative', T.var('like') - s.run.num(lr) / 2 - s.loglik(a), s.pen(a))


@unit('C13', 'gradient and curvature of the penalty in public queries')
def _(c):
    from .gradients import pairs
    s = c.S()
    f = s.fit()
    a = s.beta('c')
    data = s.loglik(a)
    r = s.call('fit::Fit::score', f, s.arr(a))
    c.arr('gradient of the penalty', r, (s.k,), lambda k: T.Diff('c', [k], DTABLE).poly(data) + T.Diff('c', [k], DTABLE).poly(s.pen(a)), s.params())
    m = s.call('fit::Fit::fisher', f, rf(s.arr(a)))
    c.arr('curvature of the penalty', m, (s.k, s.k), lambda k, q: s.info(k, q, a), pairs(s))


@unit('C13', 'penalty choice for given options', cfgs=ANY, private=True)
def _(c):
    # nothing is penalized without options; each strength alone brings in its own term only; negative strengths are ignored
    s = c.S()
    r = s.reg(havoc=False)
    g = s.beta('g')
    v = s.dyn(r, 'likelihood', rf(s.arr(g)))
    run = c.run
    if not run.decide(T.iv_pos(T.var('l1'))) and not run.decide(T.iv_pos(T.var('l2'))):
        c.eq('no penalty', v, ZERO)
    z = s.dyn(r, 'likelihood', rf(s.arr(lambda k: T.iv_eq(P(k)) * T.var('b0') if s.ic else ZERO)))
    c.eq('an intercept-only model is not penalized', z, ZERO)


# C14 -----------------------------------------------------------------------------------------------------------
def state(c, s, r):
    o = c.run.deref_all(r)
    names = c.run.prog.fields(o.path)
    need = ('l1_vec', 'dual', 'cum_res', 'rho', 'r_sq', 's_sq')
    if not all(n in names for n in need):
        raise Unsupported('lost anchor: ADMM state of %s' % o.path)
    return {n: get(c.run, r, n) for n in need}


def admm(c):
    s = c.S()
    run = c.run
    l1 = s.L1()
    if l1 is ZERO:
        return None, None, None
    r = s.reg()
    return s, r, run


def soft(x, t):
    """proximal map of t|.|"""
    d = T.absval(x) - t
    return T.sign(x) * T.ite(T.iv_pos(-d), ZERO, d)


@unit('C14', 'one ADMM update', cfgs=ANY)
def _(c):
    s, r, run = admm(c)
    if s is None:
        c.static('no L1 penalty', True)
        return
    old = state(c, s, r)
    rho0, u0, z0 = old['rho'], old['cum_res'], old['dual']
    g = s.beta('g')
    s.dyn(r, 'prepare', rf(s.arr(g)))
    new = state(c, s, r)
    rho, u, z = new['rho'], new['cum_res'], new['dual']
    c.true('rho stays positive', T.iv_pos(rho))
    if rho is not rho0:
        pass
    q = rho0 / rho        # rescaling of the scaled dual
    j = T.fresh_ix(s.p)
    for k in ([ZERO, j + 1] if s.ic else [j]):
        lam = ZERO if s.ic and k is ZERO else T.var('l1') / rho
        us = u0.at(k) * q
        c.eq('auxiliary variable = soft threshold', z.at(k), soft(g(k) + us, lam))
        c.eq('dual accumulates the primal residual', u.at(k), us + g(k) - z.at(k))
    c.eq('primal residual', new['r_sq'], s.psum(lambda k: (g(k) - z.at(k)) * (g(k) - z.at(k))))
    c.eq('dual residual', new['s_sq'], s.psum(lambda k: rho * rho * (z.at(k) - z0.at(k)) * (z.at(k) - z0.at(k))))
    k = T.fresh_ix(s.k)
    c.eq('L1 strengths unchanged', new['l1_vec'].at(k), old['l1_vec'].at(k))


@unit('C14', 'soft threshold is the proximal map', cfgs=[dict()])
def _(c):
    # z = soft(x, t) minimizes t|z| + (z-x)^2/2: x - z is t*sign(z) where z is not zero, and at most t in size elsewhere
    s = c.S()
    n = T.sz('m')
    x = Arr((n,), lambda i: T.var('x', i))
    t = Arr((n,), lambda i: T.var('r_sq', i))
    z = s.call('regularization::soft_thresh', x, t)
    i = T.fresh_ix(n)
    zi, xi, ti = s.run.deref_all(z).at(i), T.var('x', i), T.var('r_sq', i)
    c.dim('length', s.run.deref_all(z).shape[0], n)
    if c.run.decide(T.iv_pos(xi - ti)):
        c.eq('above the threshold', zi, xi - ti)
    elif c.run.decide(T.iv_pos(-xi - ti)):
        c.eq('below the threshold', zi, xi + ti)
    else:
        c.eq('within the threshold', zi, ZERO)


@unit('C14', 'quadratic terms of the iteration', cfgs=ANY)
def _(c):
    # matrix and vector are Hessian and gradient of the augmented objective
    s, r, run = admm(c)
    if s is None:
        c.static('no L1 penalty', True)
        return
    st = state(c, s, r)
    g = s.beta('g')
    obj = s.run.num(s.dyn(r, 'irls_like', rf(s.arr(g))))
    l2 = s.L2()
    aug = lambda k: g(k) - st['dual'].at(k) + st['cum_res'].at(k)
    j = T.fresh_ix(s.p)
    x = g(j + 1 if s.ic else j)
    c.eq('augmented objective', obj, -st['rho'] / 2 * s.psum(lambda k: aug(k) * aug(k)) - l2 / 2 * T.Sum(j, s.p, x * x))
    from .gradients import pairs
    mat = Arr((s.k, s.k), lambda k, m: T.var('mat', P(k), P(m)))
    vec = s.beta('vec')
    H = s.dyn(r, 'irls_mat', mat, rf(s.arr(g)))
    v = s.dyn(r, 'irls_vec', s.arr(vec), rf(s.arr(g)))
    H, v = run.deref_all(H), run.deref_all(v)
    for k, m in pairs(s):
        d1 = T.Diff('g', [k], DTABLE).poly(obj)
        c.eq('matrix: minus the Hessian', H.at(k, m) - T.var('mat', P(k), P(m)), -T.Diff('g', [m], DTABLE).poly(d1))
    for k in s.params():
        d1 = T.Diff('g', [k], DTABLE).poly(obj)
        # gradient + (-Hessian) * current
        pc = s.psum(lambda m: (H.at(k, m) - T.var('mat', P(k), P(m))) * g(m))
        c.eq('vector: gradient plus curvature times current', v.at(k) - vec(k), d1 + pc)


@unit('C14', 'termination', cfgs=ANY)
def _(c):
    s, r, run = admm(c)
    if s is None:
        c.static('no L1 penalty', True)
        return
    st = state(c, s, r)
    t = run.num(s.dyn(r, 'terminate_ok', T.var('tol')))
    lim = T.sqrt(s.k) * T.var('tol')
    c.eq('exactly when both residuals are small', t, T.iv_pos(lim - st['r_sq']) * T.iv_pos(lim - st['s_sq']))


@unit('C14', 'initial state', cfgs=ANY)
def _(c):
    s = c.S()
    if s.L1() is ZERO:
        c.static('no L1 penalty', True)
        return
    r = s.reg(havoc=False)
    st = state(c, s, r)
    c.true('rho positive', T.iv_pos(st['rho']))
    c.arr('auxiliary variable', st['dual'], (s.k,), lambda k: ZERO)
    c.arr('dual', st['cum_res'], (s.k,), lambda k: ZERO)
    c.arr('strengths', st['l1_vec'], (s.k,), lambda k: s.pcase(k, lambda: ZERO, lambda j: T.var('l1')), s.params())
    t = c.run.num(s.dyn(r, 'terminate_ok', T.var('tol')))
    c.eq('not converged before the first update', t, ZERO)
