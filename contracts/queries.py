"""C08 prediction, C15 tests, C16 residuals, C17 leverage and influence, C18 deviance, dispersion, information criteria."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Ref, Cell, NONE, Some, Unsupported
from glmvc.inputs import DISP, LEV, DISPLEV, DISPLOO, NULLFIT, get, data_n
from glmvc.models import signum
from glmvc.spec import unit


def resp(s, i):
    return s.y(i) - s.mean(i)


# C08 -----------------------------------------------------------------------------------------------------------
@unit('C08', 'predict')
def _(c):
    s = c.S()
    f = s.fit()
    m = T.sz('m')
    Z = Arr((m, s.p), lambda i, j: T.var('Z', i, j))
    off = lambda i: T.var('zoff', i)
    given = c.run.decide(T.boolvar('offset_given'))
    arg = Some(Ref(Cell(Arr((m,), off)))) if given else NONE
    r = s.call('fit::Fit::predict', f, Ref(Cell(Z)), arg)

    def want(i):
        j = T.fresh_ix(s.p)
        lin = (s.b(ZERO) if s.ic else ZERO) + T.Sum(j, s.p, T.var('Z', i, j) * s.b(j + 1 if s.ic else j))
        return T.fn('mean', lin + (off(i) if given else ZERO))
    c.arr('predict = inverse link of offset + covariates * coefficients', r, (m,), want)


@unit('C08', 'fitted values')
def _(c):
    s = c.S()
    f = s.fit()
    c.arr('stored linear predictor', get(c.run, f, 'x_lin_pred'), (s.n,), lambda i: s.omega(i))
    c.arr('stored fitted values', get(c.run, f, 'y_hat'), (s.n,), lambda i: s.mean(i))
    c.arr('result in user coordinates', get(c.run, f, 'result'), (s.k,), lambda k: s.b(k), s.params())


@unit('C08', 'prediction on the training data')
def _(c):
    s = c.S()
    f = s.fit()
    Z = Arr((s.n, s.p), lambda i, j: s.X(i, j))
    arg = Some(Ref(Cell(Arr((s.n,), s.off)))) if s._has(s.l_off) else NONE
    r = s.call('fit::Fit::predict', f, Ref(Cell(Z)), arg)
    c.arr('predict(training) = fitted values', r, (s.n,), lambda i: get(c.run, f, 'y_hat').at(i))
    r2 = s.call('fit::Fit::resid_resp', f)
    c.arr('residuals use the fitted values', r2, (s.n,), lambda i: s.y(i) - s.mean(i))


# C16 -----------------------------------------------------------------------------------------------------------
def pear(s, i):
    return T.sqrt(s.wt(i)) * resp(s, i) / T.sqrt(s.V(i))


@unit('C16', 'response, Pearson, working residuals')
def _(c):
    s = c.S()
    f = s.fit()
    c.arr('response', s.call('fit::Fit::resid_resp', f), (s.n,), lambda i: resp(s, i))
    c.arr('Pearson', s.call('fit::Fit::resid_pear', f), (s.n,), lambda i: pear(s, i))
    c.arr('working', s.call('fit::Fit::resid_work', f), (s.n,), lambda i: resp(s, i) / (s.dnat(i) * s.V(i)))


def max0(d):
    """a deviance term, which is not negative; where rounding left it so, the residuals take zero"""
    return T.ite(T.iv_pos(-d), ZERO, d)


def root0(d):
    return T.sqrt(max0(d))


@unit('C16', 'deviance residuals')
def _(c):
    s = c.S()
    f = s.fit()
    c.arr('deviance', s.call('fit::Fit::resid_dev', f), (s.n,), lambda i: signum(resp(s, i)) * root0(s.dev_i(i)))


@unit('C16', 'standardized residuals', contracts=DISPLEV)
def _(c):
    s = c.S()
    f = s.fit()
    sc = lambda i: T.sqrt(s.phi() * (1 - s.lev(i)))
    r = s.call('fit::Fit::resid_pear_std', f)
    c.arr('standardized Pearson', c.ok(r), (s.n,), lambda i: pear(s, i) / sc(i))
    r = s.call('fit::Fit::resid_dev_std', f)
    c.arr('standardized deviance', c.ok(r), (s.n,), lambda i: signum(resp(s, i)) * root0(s.dev_i(i)) / sc(i))


@unit('C16', 'partial residuals')
def _(c):
    s = c.S()
    f = s.fit()
    r = s.call('fit::Fit::resid_part', f)

    def want(i, j):
        xbar = s.nsum(lambda t: s.w(t) * s.X(t, j)) / s.sum_w() if s.ic else ZERO
        return resp(s, i) / (s.dnat(i) * s.V(i)) + (s.X(i, j) - xbar) * s.b(j + 1 if s.ic else j)
    c.arr('partial', r, (s.n, s.p), want)


# C17 -----------------------------------------------------------------------------------------------------------
def hat(s, i, j):
    I = s.inv(lambda k, m: s.info_data_std(k, m, s.b) + s.pen_curv(k, m))
    return s.V(i) * s.dnat(i) * s.psum(lambda k: s.psum(lambda m: s.Ds(i, k) * I(k, m) * s.Ds(j, m))) * s.w(j) * s.dnat(j)


@unit('C17', 'hat matrix and leverage')
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::hat', f))
    c.arr('hat', r, (s.n, s.n), lambda i, j: hat(s, i, j))
    r = c.ok(s.call('fit::Fit::leverage', f))
    c.arr('leverage', r, (s.n,), lambda i: hat(s, i, i))


@unit('C17', 'change of coordinates of the information')
def _(c):
    # with it, D inv(I) D' is the same in both coordinate systems
    s = c.S()
    beta = s.beta('b')
    i = T.fresh_ix(s.n)
    ps = s.params()
    for m in ps:
        c.eq('D = Ds J', s.D(i, m), s.psum(lambda a: s.Ds(i, a) * s.Jac(a, m)))
    from .gradients import pairs
    for k, m in pairs(s):
        c.eq('I = J\' Is J', s.info(k, m, beta),
             s.psum(lambda a: s.psum(lambda b: s.Jac(a, k) * (s.info_data_std(a, b, beta) + s.pen_curv(a, b)) * s.Jac(b, m))))


@unit('C17', 'Cook distances', contracts=DISPLEV)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::cooks', f))
    h = s.lev
    c.arr('cooks', r, (s.n,), lambda i: pear(s, i) * pear(s, i) * h(i) / (s.k * s.phi() * (1 - h(i)) * (1 - h(i))))


@unit('C17', 'one-step influence', contracts=LEV)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::infl_coef', f))
    I = s.inv(lambda k, m: s.info(k, m, s.b))
    h = s.lev
    i = T.fresh_ix(s.n)
    c.arr('infl_coef', r, (s.n, s.k),
          lambda i, k: s.psum(lambda m: s.D(i, m) * I(m, k)) * s.w(i) * s.dnat(i) * resp(s, i) / (1 - h(i)), [(i, k) for k in s.params()])


def loo_terms(s, i):
    """deviance terms and dispersion with row i left out (one-step)"""
    h = s.lev(i)
    q = h / (1 - h)
    r2 = pear(s, i) * pear(s, i)
    dev = s.dev_i(i) + q * (q + 2) * r2
    w1 = s.sum_w() - s.w(i)
    w2 = s.nsum(lambda t: s.fr(t) * s.wt(t) * s.wt(t)) - s.fr(i) * s.wt(i) * s.wt(i)
    total = s.deviance() - s.fr(i) * (s.dev_i(i) + q * r2)
    if s._has(s.l_wt):
        scale = w1 - w2 / w1 * s.k
    else:
        scale = s.n_obs() - s.fr(i) - s.k
    return dev, total / scale


def phi_loo(s, i):
    try:
        return s.phi_loo(i)
    except Unsupported as e:
        if 'lost anchor' not in str(e):
            raise
        return loo_terms(s, i)[1]      # no longer a function of its own


@unit('C17', 'studentized residuals', contracts=dict(LEV, **DISPLOO))
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::resid_student', f))

    def want(i):
        dev = max0(loo_terms(s, i)[0])
        return signum(resp(s, i)) * T.sqrt(dev / phi_loo(s, i) if s.free() else dev)
    c.arr('studentized', r, (s.n,), want)


# C18 -----------------------------------------------------------------------------------------------------------
@unit('C18', 'deviance')
def _(c):
    s = c.S()
    f = s.fit()
    c.eq('deviance', s.call('fit::Fit::deviance', f), s.nsum(lambda i: s.w(i) * 2 * (T.fn('lsat', s.y(i)) - s.ll_i(i))))


@unit('C18', 'dispersion')
def _(c):
    s = c.S()
    f = s.fit()
    c.eq('dispersion', s.call('fit::Fit::dispersion', f), s.dispersion() if s.free() else ONE)


@unit('C18', 'degrees of freedom')
def _(c):
    s = c.S()
    f = s.fit()
    c.eq('ndf', s.call('fit::Fit::ndf', f), s.n_obs() - s.k)


@unit('C18', 'AIC and BIC')
def _(c):
    s = c.S()
    f = s.fit()
    lw = s.nsum(lambda i: s.fr(i) * T.ln(s.wt(i)))
    c.eq('aic', s.call('fit::Fit::aic', f), s.deviance() + 2 * s.k - 2 * lw)
    c.eq('bic', s.call('fit::Fit::bic', f), T.ln(s.n_obs()) * s.k - 2 * T.var('like') - 2 * lw)


@unit('C18', 'RSS and R squared', contracts=NULLFIT)
def _(c):
    s = c.S()
    f = s.fit()
    c.eq('rss', s.call('fit::Fit::rss', f), s.nsum(lambda i: s.w(i) * resp(s, i) * resp(s, i)))
    # normal responses with the identity link: l(y, eta) = y eta - eta^2/2, saturated at y^2/2
    res = lambda i: s.y(i) - s.omega(i)
    dev = s.nsum(lambda i: s.w(i) * res(i) * res(i))
    dev0 = s.nsum(lambda i: s.w(i) * s.y(i) * s.y(i)) - 2 * s.l0()
    c.eq('r_sq', s.call('fit::Fit::r_sq', f), 1 - dev / dev0)


@unit('C18', 'studentized residuals are scaled by the leave-one-out dispersion', contracts=LEV)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::resid_student', f))

    def want(i):
        dev, phi = loo_terms(s, i)
        return signum(resp(s, i)) * T.sqrt(max0(dev) / phi if s.free() else max0(dev))
    c.arr('studentized', r, (s.n,), want)


@unit('C18', 'leave-one-out dispersion', contracts=LEV, private=True)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::dispersion_loo', f))
    c.arr('dispersion_loo', r, (s.n,), lambda i: loo_terms(s, i)[1] if s.free() else ONE)


# C15 -----------------------------------------------------------------------------------------------------------
@unit('C15', 'likelihood ratio', contracts=NULLFIT)
def _(c):
    s = c.S()
    f = s.fit()
    c.eq('lr_test', s.call('fit::Fit::lr_test', f), 2 * (T.var('like') - s.l0()))
    c.eq('null_like', s.call('fit::Fit::null_like', f), s.l0())
    c.eq('test_ndf', s.call('fit::Fit::test_ndf', f), s.p)


@unit('C15', 'likelihood ratio against an alternative')
def _(c):
    s = c.S()
    f = s.fit()
    a = s.beta('a')
    c.eq('lr_test_against', s.call('fit::Fit::lr_test_against', f, Ref(Cell(s.arr(a)))), 2 * (T.var('like') - s.loglik(a) - s.pen(a)))


def null_beta(s):
    return lambda k: T.iv_eq(k) * T.var('b0') if s.ic else ZERO


def quad(s, d, M):
    return s.psum(lambda k: s.psum(lambda m: d(k) * M(k, m) * d(m)))


@unit('C15', 'Wald')
def _(c):
    s = c.S()
    f = s.fit()
    a = s.beta('a')
    r = s.call('fit::Fit::wald_test_against', f, Ref(Cell(s.arr(a))))
    c.eq('wald_test_against', r, quad(s, lambda k: s.b(k) - a(k), lambda k, m: s.info(k, m, a)))


@unit('C15', 'Wald against the null model', contracts=NULLFIT)
def _(c):
    s = c.S()
    f = s.fit()
    a = null_beta(s)
    r = s.call('fit::Fit::wald_test', f)
    c.eq('wald_test', r, quad(s, lambda k: s.b(k) - a(k), lambda k, m: s.info(k, m, a)))


def score_k(s, k, beta):
    """user-scale score (C03)"""
    l1, l2 = s.L1(), s.L2()
    bs = s.to_std(beta)
    data = s.nsum(lambda i: s.w(i) * s.D(i, k) * s.dnat(i, beta) * (s.y(i) - s.mean(i, beta)))

    def pj(j):
        b = bs(j + 1 if s.ic else j)
        return -(l1 * T.sign(b) + l2 * b) * s.sigma(j)
    return data + s.pcase(k, lambda: ZERO, pj)


@unit('C15', 'score test')
def _(c):
    s = c.S()
    f = s.fit()
    a = s.beta('a')
    r = c.ok(s.call('fit::Fit::score_test_against', f, s.arr(a)))
    I = s.inv(lambda k, m: s.info(k, m, a))
    c.eq('score_test_against', r, quad(s, lambda k: score_k(s, k, a), I))


@unit('C15', 'score test against the null model', contracts=NULLFIT)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::score_test', f))
    r2 = c.ok(s.call('fit::Fit::score_test_against', f, s.arr(null_beta(s))))
    c.eq('score_test = score_test_against(null)', r, r2)


@unit('C15', 'Wald z')
def _(c):
    s = c.S()
    f = s.fit()
    cov = c.ok(s.call('fit::Fit::covariance', f))
    z = c.ok(s.call('fit::Fit::wald_z', f))
    cov = c.run.deref_all(cov)
    c.arr('wald_z', z, (s.k,), lambda k: s.b(k) / T.sqrt(cov.at(k, k)), s.params())
