"""C23 options, C20 leave-one-out and drop-one refits, C15 the null model."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, NONE, Some, EPS, Opaque, Unsupported
from glmvc.inputs import get, put, mk, LL, REFIT, LEV
from glmvc import inputs, models
from glmvc.models import Ok, Err
from glmvc.spec import unit

OPTS = ('max_iter', 'tol', 'l2', 'l1', 'init_guess')


# C23 -----------------------------------------------------------------------------------------------------------
def config(c, s, model=None):
    model = model or s.model()
    return mk(c.run, 'fit::options::FitConfig', model=model, options=s.options()), model


@unit('C23', 'setters', cfgs=[dict(set=x) for x in ('max_iter', 'tol', 'l2_reg', 'l1_reg')])
def _(c):
    s = c.S()
    run = c.run
    name = c.cfg['set']
    cf, model = config(c, s)
    old = get(run, cf, 'options')
    old = {k: run.deref_all(get(run, old, k)) for k in OPTS}
    r = run.deref_all(s.call('fit::options::FitConfig::' + name, cf, T.var('newval')))
    new = get(run, r, 'options')
    f = {'l2_reg': 'l2', 'l1_reg': 'l1'}.get(name, name)
    for k in OPTS:
        if k == f:
            c.eq('sets ' + k, get(run, new, k), T.var('newval'))
        else:
            c.same('keeps ' + k, run.deref_all(get(run, new, k)), old[k])
    c.static('keeps the model', get(run, r, 'model') is model or run.deref_all(get(run, r, 'model')) is run.deref_all(model))


def captured(c, s, path, *args):
    """run a function with Glm::regression replaced by a recorder"""
    run = c.run
    log = []

    def h(run, a):
        log.append((a[0], run.deref_all(a[1])))
        return Err(Opaque('recorded'))
    p = c.prog.find('glm::Glm::regression')
    old = run.contracts
    run.contracts = dict(old, **{p: h})
    try:
        r = s.call(path, *args)
    finally:
        run.contracts = old
    if len(log) != 1:
        raise Unsupported('%s runs %d regressions' % (path, len(log)))
    return r, log[0]


def defaults(c, name, o):
    g = lambda k: c.run.deref_all(get(c.run, o, k))
    c.eq(name + ': at most 128 iterations', g('max_iter'), P(128))
    c.eq(name + ': tolerance is machine epsilon', g('tol'), EPS)
    c.eq(name + ': no L2', g('l2'), ZERO)
    c.eq(name + ': no L1', g('l1'), ZERO)
    c.static(name + ': no initial guess', g('init_guess').variant == 0)


@unit('C23', 'defaults', cfgs=[dict()])
def _(c):
    s = c.S()
    run = c.run
    model = s.model()
    cf = run.deref_all(s.call('model::Model::fit_options', model))
    defaults(c, 'fit_options', get(run, cf, 'options'))
    c.static('for this model', run.deref_all(get(run, cf, 'model')) is run.deref_all(model))
    r, (m, o) = captured(c, s, 'model::Model::fit', model)
    defaults(c, 'fit', o)
    c.static('fits this model', run.deref_all(m) is run.deref_all(model))
    d = [p for p in c.prog.items if 'FitOptions' in p and p.endswith('::default')]
    if len(d) == 1:
        defaults(c, 'FitOptions::default', s.call(d[0]))


@unit('C23', 'options are handed on', cfgs=[dict()])
def _(c):
    s = c.S()
    run = c.run
    model = s.model()
    opts = s.options()
    cf = run.deref_all(s.call('model::Model::with_options', model, opts))
    c.same('with_options', get(run, cf, 'options'), opts)
    c.static('with_options keeps the model', run.deref_all(get(run, cf, 'model')) is run.deref_all(model))
    r, (m, o) = captured(c, s, 'fit::options::FitConfig::fit', cf)
    c.same('fit', o, opts)
    c.static('fits this model', run.deref_all(m) is run.deref_all(model))


@unit('C23', 'start of the iteration')
def _(c):
    from .irls import regress
    s = c.S()
    run = c.run
    r, o = regress(c, s)
    st = o['start']
    c.same('options of the iteration', st['options'], o['opts'])
    g = run.deref_all(st['guess'])
    init = run.deref_all(get(run, o['opts'], 'init_guess'))
    if init.variant == 1:
        b = run.deref_all(init.fields[0])
        c.arr('starts at the given coefficients', g, (s.k,), s.to_std(lambda k: b.at(k)), s.params())
    elif any(q.single_atom() is not None and q.single_atom().kind == 'B' and q.single_atom().args[0] == 'singular' and v for q, v in run.dec.conds):
        c.arr('starts at zero when the system is singular', g, (s.k,), lambda k: ZERO, s.params())
    else:
        ybar = s.nsum(lambda i: s.y(i)) / s.n if run.decide(T.iv_pos(s.n)) else ZERO
        z = lambda i: T.fn('g', (s.y(i) + ybar) / 2) - s.off(i)
        I = s.inv(lambda k, m: s.nsum(lambda i: s.w(i) * s.Ds(i, k) * s.Ds(i, m)))
        c.arr('starts at the least-squares fit', g, (s.k,), lambda k: s.psum(lambda m: I(k, m) * s.nsum(lambda i: s.w(i) * s.Ds(i, m) * z(i))), s.params())
    if r.variant == 0:
        f = Ref(Cell(run.deref_all(r.fields[0]), 'fit'))
        c.same('options of the fit', get(run, f, 'options'), o['opts'])


# C20 -----------------------------------------------------------------------------------------------------------
def same_opt(c, name, q, f, has, val, n):
    h, v = q.opt(f)
    if bool(h) != bool(has):
        c.static('%s: %s' % (name, 'present' if has else 'absent'), False)
    elif has:
        c.arr(name, v, (n,), val)
    else:
        c.static(name, True)


def refit_options(c, q, s, fields, name='options'):
    for f in fields:
        o = c.run.deref_all(get(c.run, q.options, f))
        c.eq('%s: %s' % (name, f), o, T.var(f))


def row_of(q, n):
    """the observation left out: the only symbolic index besides the argument in the frequency weights"""
    t = T.fresh_ix(n, 't')
    e = q.data['freqs'].fields[0].at(t)
    ats = [a for a in (T.atoms_of(e) or {}).values() if a.kind == 'ix' and a is not t.single_atom()]
    if len(ats) != 1:
        raise Unsupported('leave-one-out frequency weights depend on %d indices' % len(ats))
    return T.ap(ats[0])


@unit('C20', 'leave one out', contracts=dict(REFIT, **LEV))
def _(c):
    s = c.S()
    run = c.run
    f = s.fit()

    def coef(q):
        if q.data['freqs'].variant != 1:
            raise Unsupported('leave-one-out without frequency weights')
        q.row = row_of(q, s.n)
        return lambda k: T.var('rf', q.row, P(k))
    run.coef = coef
    r = c.ok(s.call('fit::Fit::loo_exact', f))
    qs = [q for q in getattr(run, 'refits', []) if not getattr(q, 'failed', False)]
    if not qs:
        raise Unsupported('no refit')
    for q in qs[-1:]:
        i = q.row
        d = q.data
        c.arr('responses', d['y'], (s.n,), s.y)
        same_opt(c, 'offset', q, 'linear_offset', s._has(s.l_off), s.raw_off, s.n)
        same_opt(c, 'weights', q, 'weights', s._has(s.l_wt), s.raw_wt, s.n)
        same_opt(c, 'only this row is left out', q, 'freqs', True, lambda t: s.fr(t) * (1 - T.iv_eq(t - i)), s.n)
        c.static('intercept as in the model', q.ic == s.ic)
        c.static('standardization as in the model', q.std == s.std)
        t = T.fresh_ix(s.n)
        c.dim('rows', q.x.shape[0], s.n)
        c.dim('columns', q.x.shape[1], s.k)
        for k in s.params():
            c.eq('covariates', q.external(t, k), s.D(t, k))
        refit_options(c, q, s, ('max_iter', 'tol', 'l1', 'l2'))
    i = T.fresh_ix(s.n, 'i')
    c.dim('one row per observation', r.shape[0], s.n)
    c.dim('one column per parameter', r.shape[1], s.k)
    for k in s.params():
        c.eq('row i holds the coefficients of refit i', r.at(i, k), T.var('rf', i, P(k)))


@unit('C20', 'drop one', contracts=REFIT)
def _(c):
    # the index of the parameter is arbitrary; with an intercept, index 0 and a generic covariate are separate cases
    s = c.S()
    run = c.run
    f = s.fit()
    which = 0 if s.ic and run.decide(T.boolvar('drop_intercept')) else 1
    if which:
        s.assume(T.iv_pos(s.p))
    j0 = T.fresh_ix(s.p, 'd')          # covariate dropped
    i = ZERO if which == 0 else (j0 + 1 if s.ic else j0)
    run.coef = lambda q: (lambda k: T.var('rf', P(k)))
    r = run.deref_all(s.call('fit::Fit::dev_without_covariate', f, i))
    qs = getattr(run, 'refits', [])
    if r.variant == 1:
        c.static('an error is the refit\'s', bool(qs) and getattr(qs[-1], 'failed', False))
        return
    if len(qs) != 1:
        raise Unsupported('%d refits' % len(qs))
    q = qs[0]
    c.static('only if the refit succeeds', not getattr(q, 'failed', False))
    d = q.data
    t = T.fresh_ix(s.n)
    c.arr('responses', d['y'], (s.n,), s.y)
    same_opt(c, 'offset', q, 'linear_offset', s._has(s.l_off), s.raw_off, s.n)
    same_opt(c, 'weights', q, 'weights', s._has(s.l_wt), s.raw_wt, s.n)
    same_opt(c, 'frequencies', q, 'freqs', s._has(s.l_fr), s.raw_fr, s.n)
    c.static('intercept exempt only if still there', q.ic == (s.ic and which != 0))
    c.static('no further standardization', not q.std)
    c.dim('rows', q.x.shape[0], s.n)
    c.dim('one column less', q.x.shape[1], s.k - 1)
    if which == 0:
        m = T.fresh_ix(s.p, 'm')
        c.eq('the covariates', q.x.at(t, m), s.X(t, m))
        D = lambda i, m: s.X(i, P(m))
    else:
        if s.ic:
            c.eq('intercept column', q.x.at(t, ZERO), ONE)
        o = 1 if s.ic else 0
        # columns before and after the dropped one
        m = T.fresh_ix(j0, 'm')
        c.eq('columns before', q.x.at(t, m + o), s.Ds(t, m + o))
        m = j0 + T.fresh_ix(s.p - 1 - j0, 'm')
        c.eq('columns after', q.x.at(t, m + o), s.Ds(t, m + o + 1))
    refit_options(c, q, s, ('max_iter', 'tol', 'l1', 'l2'))
    # deviance of the refit
    lin = models.dot(run, q.x, Arr((q.x.shape[1],), lambda k: T.var('rf', P(k))))
    eta = lambda i: T.fn('nat', lin.at(i) + s.off(i))
    dev = s.nsum(lambda i: 2 * s.w(i) * (T.fn('lsat', s.y(i)) - s.y(i) * eta(i) + T.fn('A', eta(i))))
    c.eq('deviance of the reduced fit', r.fields[0], dev)


# C15: the null model -------------------------------------------------------------------------------------------
def null_model(c, s, f, l0, par):
    """l0 and par (k -> value, or None) are the maximum likelihood and coefficients of the intercept-only model"""
    run = c.run
    W = s.sum_w()
    ybar = s.nsum(lambda i: s.w(i) * s.y(i)) / W
    qs = getattr(run, 'refits', [])
    if not s._has(s.l_off):
        # one parameter for all observations: its maximum is at mean = weighted average response
        b0 = T.fn('g', ybar) if s.ic else ZERO
        eta = T.fn('nat', b0)
        like = s.nsum(lambda i: s.w(i) * (s.y(i) * eta - T.fn('A', eta)))
        c.static('no refit needed', not qs)
    elif not s.ic:
        b0 = ZERO
        eta = lambda i: T.fn('nat', s.raw_off(i))
        like = s.nsum(lambda i: s.w(i) * (s.y(i) * eta(i) - T.fn('A', eta(i))))
        c.static('no refit needed', not qs)
    else:
        if len(qs) != 1:
            raise Unsupported('%d refits of the null model' % len(qs))
        q = qs[0]
        d = q.data
        c.arr('responses', d['y'], (s.n,), s.y)
        same_opt(c, 'offset', q, 'linear_offset', True, s.raw_off, s.n)
        same_opt(c, 'weights', q, 'weights', s._has(s.l_wt), s.raw_wt, s.n)
        same_opt(c, 'frequencies', q, 'freqs', s._has(s.l_fr), s.raw_fr, s.n)
        c.static('with an intercept', q.ic)
        c.dim('one parameter', q.x.shape[1], ONE)
        c.dim('all observations', q.x.shape[0], s.n)
        c.eq('constant covariate', q.x.at(T.fresh_ix(s.n), ZERO), ONE)
        c.static('not standardized', not q.std)
        for k in ('l1', 'l2'):
            c.eq('no penalty: ' + k, get(run, q.options, k), ZERO)
        # the maximum may be limited by the number of iterations of the fit itself
        c.eq('iterations', get(run, q.options, 'max_iter'), T.var('max_iter'))
        b0 = T.var('rf', ZERO)
        like = T.var('refit_like')
    if l0 is not None:
        c.eq('null likelihood', l0, like)
    if par is not None:
        c.arr('null coefficients', par, (s.k,), lambda k: s.pcase(k, lambda: b0, lambda j: ZERO), s.params())


@unit('C15', 'null model', contracts=REFIT, private=True)
def _(c):
    s = c.S()
    f = s.fit()
    v = c.run.deref_all(s.call('fit::Fit::null_model_fit', f))
    null_model(c, s, f, v.fields[0], v.fields[1])


@unit('C15', 'null likelihood', contracts=REFIT)
def _(c):
    s = c.S()
    f = s.fit()
    null_model(c, s, f, s.call('fit::Fit::null_like', f), None)
