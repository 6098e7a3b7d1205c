"""C22 p-values and quantile residuals."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, Opaque, Unsupported, NAN
from glmvc.inputs import get, DISP
from glmvc import inputs, models
from glmvc.models import Ok, Err
from glmvc.spec import unit


def c_lr(run, args):
    """contract of Fit::lr_test (C15)"""
    return T.var('lr')


def c_wald_z(run, args):
    """contract of Fit::wald_z (C15): a linear-algebra error or the vector z"""
    if run.decide(T.boolvar('z_fails')):
        return inputs.lin_err(run)
    return Ok(Arr((get(run, args[0], 'n_par'),), lambda k: T.var('z', P(k))))


def c_dev(run, args):
    """contract of Fit::deviance (C18)"""
    return T.var('dev')


def c_drop(run, args):
    """contract of Fit::dev_without_covariate (C20): the refit's error or the deviance without parameter i"""
    if run.decide(T.boolvar('drop_fails')):
        return Err(Opaque('refit_error'))
    return Ok(T.var('devwo', run.num(args[1])))


@unit('C22', 'likelihood-ratio p-value', contracts={'fit::Fit::lr_test': c_lr})
def _(c):
    s = c.S()
    f = s.fit()
    r = s.call('fit::Fit::pvalue_lr_test', f)
    # without covariates the statistic is zero and the probability one
    if c.run.decide(T.iv_pos(s.p)):
        c.eq('upper tail of chi-squared', r, T.fn('sf_ChiSquared', s.p, T.var('lr')))
    else:
        c.eq('nothing tested', r, ONE)


@unit('C22', 'Wald p-values', contracts={'fit::Fit::wald_z': c_wald_z})
def _(c):
    s = c.S()
    f = s.fit()
    r = c.run.deref_all(s.call('fit::Fit::pvalue_wald', f))
    if r.variant == 1:
        c.static('an error is that of the statistic', any(v for q, v in c.run.dec.conds if q is T.boolvar('z_fails')))
        return
    z = lambda k: T.absval(T.var('z', P(k)))
    if s.free():
        df = s.n_obs() - s.k
        if c.run.decide(T.iv_pos(df)):
            c.arr('two-sided t', r.fields[0], (s.k,), lambda k: 2 * T.fn('sf_StudentsT', ZERO, ONE, df, z(k)), s.params())
    else:
        c.arr('two-sided normal', r.fields[0], (s.k,), lambda k: 2 * T.fn('sf_Normal', ZERO, ONE, z(k)), s.params())


@unit('C22', 'drop-one p-values', contracts=dict(DISP, **{'fit::Fit::deviance': c_dev, 'fit::Fit::dev_without_covariate': c_drop}))
def _(c):
    s = c.S()
    f = s.fit()
    c.run.decide(T.iv_pos(s.n_obs() - s.k))
    r = c.run.deref_all(s.call('fit::Fit::pvalue_exact', f))
    if r.variant == 1:
        return
    dd = lambda k: T.var('devwo', P(k)) - T.var('dev')
    if s.free():
        df = s.n_obs() - s.k
        if c.run.decide(T.iv_pos(df)):
            c.arr('F(1, df)', r.fields[0], (s.k,), lambda k: T.fn('sf_FisherSnedecor', ONE, df, dd(k) / T.var('phi')), s.params())
    else:
        c.arr('chi-squared(1)', r.fields[0], (s.k,), lambda k: T.fn('sf_ChiSquared', ONE, dd(k)), s.params())


@unit('C22', 'quantile residuals', contracts=DISP)
def _(c):
    s = c.S()
    f = s.fit()
    r = s.call('fit::Fit::resid_quantile', f)
    phi = s.phi() if s.free() else ONE
    c.arr('normal quantile of the response law', r, (s.n,), lambda i: T.fn(
        'quant_Normal', ZERO, ONE, 1 - T.fn('sf_resp', s.mean(i), phi / s.wt(i), s.y(i))))
