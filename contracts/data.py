"""C01 coordinates, C02 standardization, C07 frequencies, C19 builder."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, Lazy, NONE, Some, Unsupported, PathDrop
from glmvc.inputs import get, mk, PHANTOM
from glmvc.spec import unit


# C01 -----------------------------------------------------------------------------------------------------------
@unit('C01', 'coefficient maps are mutually inverse', private=True)
def _(c):
    s = c.S()
    d = Ref(Cell(s.dataset()))
    b = s.beta('c')
    t = s.call('data::Dataset::transform_beta', d, s.arr(b))
    bs = s.to_std(b)
    c.arr('to internal coordinates', t, (s.k,), lambda k: bs(k), s.params())
    c.arr('back again', s.call('data::Dataset::inverse_transform_beta', d, t), (s.k,), lambda k: b(k), s.params())
    t = s.call('data::Dataset::inverse_transform_beta', d, s.arr(b))
    c.arr('and the other way round', s.call('data::Dataset::transform_beta', d, t), (s.k,), lambda k: b(k), s.params())


@unit('C01', 'linear predictor is the same in both coordinates', private=True)
def _(c):
    s = c.S()
    d = Ref(Cell(s.dataset()))
    b = s.beta('c')
    t = s.call('data::Dataset::transform_beta', d, s.arr(b))
    c.arr('linear predictor', s.call('data::Dataset::linear_predictor_std', d, Ref(Cell(t))), (s.n,), lambda i: s.omega(i, b))


@unit('C01', 'original design matrix is recovered', private=True)
def _(c):
    s = c.S()
    d = Ref(Cell(s.dataset()))
    c.arr('x_orig', s.call('data::Dataset::x_orig', d), (s.n, s.p), lambda i, j: s.X(i, j))
    i = T.fresh_ix(s.n)
    c.arr('x_ext', s.call('data::Dataset::x_ext', d), (s.n, s.k), lambda i, k: s.D(i, k), [(i, k) for k in s.params()])
    c.arr('x_conj_ext', s.call('data::Dataset::x_conj_ext', d), (s.k, s.n), lambda k, i: s.w(i) * s.D(i, k), [(k, i) for k in s.params()])
    c.arr('x_conj', s.call('data::Dataset::x_conj', d), (s.k, s.n), lambda k, i: s.w(i) * s.Ds(i, k), [(k, i) for k in s.params()])


@unit('C01', 'fit in user coordinates')
def _(c):
    # for every internal optimum g: the fit's user-scale coefficients on the user's covariates give its fitted values
    s = c.S()
    run = c.run
    model = s.model()
    data = s.data_of(model)
    g = s.beta('g')
    opt = mk(run, 'irls::IrlsStep', guess=s.arr(g), like=T.var('like'))
    ir = s.irls(model)
    f = Ref(Cell(s.call('fit::Fit::new', data, opt, run.deref_all(ir)), 'fit'))
    r = get(run, f, 'result')
    b = lambda k: r.at(k)
    c.arr('number of coefficients', r, (s.k,), lambda k: r.at(k), s.params())
    c.arr('fitted linear predictor', get(run, f, 'x_lin_pred'), (s.n,), lambda i: s.omega(i, b))
    c.arr('fitted values', get(run, f, 'y_hat'), (s.n,), lambda i: T.fn('mean', s.omega(i, b)))
    Z = Arr((s.n, s.p), lambda i, j: s.X(i, j))
    arg = Some(Ref(Cell(Arr((s.n,), s.off)))) if s._has(s.l_off) else NONE
    c.arr('prediction on the original covariates', s.call('fit::Fit::predict', f, Ref(Cell(Z)), arg), (s.n,), lambda i: T.fn('mean', s.omega(i, b)))
    bs = s.to_std(b)
    for k in s.params():
        c.eq('internal coefficients from the reported ones', bs(k), g(k))


def built(c, s, sizes=None, **kw):
    m = c.ok(s.call('model::ModelBuilderData::build', s.builder(sizes or (s.n,) * 5, **kw)))
    return get(c.run, m, 'data')


@unit('C01', 'built design matrix')
def _(c):
    s = c.S()
    run = c.run
    d = built(c, s)
    st = get(run, d, 'standardizer')
    if s.std:
        st = run.deref_all(st.fields[0])
        sh, sc = get(run, st, 'shifts'), get(run, st, 'scales')
        c.dim('shifts (length)', sh.shape[0], s.p)
        c.dim('scales (length)', sc.shape[0], s.p)
        mu, sg = sh.at, sc.at
        j = T.fresh_ix(s.p)
        if not s.ic:
            c.eq('no shift without intercept', mu(j), ZERO)
    else:
        c.static('no standardizer', st.variant == 0)
        mu, sg = (lambda j: ZERO), (lambda j: ONE)
    x = get(run, d, 'x')
    c.dim('columns', x.shape[1], s.k)
    i, j = T.fresh_ix(s.n), T.fresh_ix(s.p)
    if s.ic:
        c.eq('intercept column', x.at(i, ZERO), ONE)
    c.eq('original covariate recovered', x.at(i, j + 1 if s.ic else j) * sg(j) + mu(j), s.X(i, j))


# C02 -----------------------------------------------------------------------------------------------------------
@unit('C02', 'standardizer of a built model')
def _(c):
    s = c.S(std=True)
    run = c.run
    d = built(c, s)
    st = run.deref_all(get(run, d, 'standardizer').fields[0])
    W = s.sum_w()
    ne = s.n_eff()

    def mean(j):
        return ZERO if run.decide(T.iv_eq(s.n)) else s.nsum(lambda i: s.w(i) * s.X(i, j)) / W
    c.arr('shift = weighted mean with an intercept, else none', get(run, st, 'shifts'), (s.p,), lambda j: mean(j) if s.ic else ZERO)

    def scale(j):
        if run.decide(T.iv_ge(1 - s.n)) or not run.decide(T.iv_pos(ne - 1)):
            return ONE
        m = mean(j)
        v = s.nsum(lambda i: s.w(i) * (s.X(i, j) - m) * (s.X(i, j) - m)) / W * (ne / (ne - 1))
        return T.sqrt(T.ite(T.iv_pos(v), v, ONE))
    c.arr('scale = root of the bias-corrected weighted variance', get(run, st, 'scales'), (s.p,), scale)


# C07 -----------------------------------------------------------------------------------------------------------
# Any integer frequency vector is reached from explicit repetition by: making the frequencies explicit ones, moving the
# frequency of a copy onto its original, and dropping rows of frequency zero.  Each step changes no statistic.
from glmvc.inputs import Moved, More, Ones, S as Inp, DISP, LEV  # noqa: E402
WHOLE = ['n_obs', 'n_eff', 'deviance', 'dispersion', 'ndf', 'aic', 'bic', 'null_like', 'lr_test']
ROWS = ['resid_resp', 'resid_pear', 'resid_dev', 'resid_work']


def cfgkw(c):
    return {k: v for k, v in c.cfg.items() if k in ('intercept', 'std')}


def pair_copy(c):
    """frequency c of a copy of row a moved onto row a"""
    n = T.sz('n')
    a = T.fresh_ix(n, 'a')
    if c.cfg.get('rows') == 'one':
        n, a = ONE, ZERO
    cnt = T.var('fr', n + 7)
    v = {'y': lambda: T.var('y', a), 'X': lambda j: T.var('X', a, j), 'off': lambda: T.var('off', a), 'wt': lambda: T.var('wt', a)}
    s1 = More(c.run, a, cnt, freqs=True, n=n, **cfgkw(c))
    s2 = Moved(c.run, lambda nm, *x: v[nm](*x), fr_first=cnt, freqs=True, n=n, **cfgkw(c))
    return s1, s2, a


def pair_zero(c):
    """a row of frequency zero dropped"""
    v = {'y': lambda: T.var('y0'), 'X': lambda j: T.var('X0', j), 'off': lambda: T.var('off0'), 'wt': lambda: T.var('wt0')}
    n = ONE if c.cfg.get('rows') == 'one' else T.sz('n')
    s1 = Inp(c.run, freqs=True, n=n, **cfgkw(c))
    s2 = Moved(c.run, lambda nm, *x: v[nm](*x), fr_first=ZERO, freqs=True, n=n, **cfgkw(c))
    return s1, s2, None


def pair_ones(c):
    """explicit frequencies of one"""
    return Inp(c.run, freqs=False, **cfgkw(c)), Ones(c.run, freqs=True, **cfgkw(c)), None


PAIRS = {'copy moved onto its original': pair_copy, 'zero frequency': pair_zero, 'frequencies of one': pair_ones}


def row_of(s2, i):
    return P(i) + 1 if isinstance(s2, Moved) else i


def dataset_stat(s, name):
    m = s.call('data::Dataset::' + name, Ref(Cell(s.dataset())))
    return s.run.deref_all(m)


for _n, _mk in PAIRS.items():
    def _reg(_n, _mk):
        @unit('C07', 'counts: ' + _n)
        def _(c):
            s1, s2, a = _mk(c)
            for q in ('n_obs', 'n_eff'):
                c.eq(q, dataset_stat(s2, q), dataset_stat(s1, q))

        @unit('C07', 'standardization: ' + _n, cfgs=[dict(intercept=i, std=True, rows=r) for i in (True, False) for r in ('one', 'many')])
        def _(c):
            s1, s2, a = _mk(c)
            if c.cfg['rows'] == 'many' and c.run.decide(T.iv_ge(1 - s1.n)):
                raise PathDrop('fewer than two rows')
            st = []
            for s in (s1, s2):
                d = built(c, s, error=NONE, linear_offset=NONE, freq_weights=s.l_fr, var_weights=s.l_wt)
                z = c.run.deref_all(get(c.run, d, 'standardizer').fields[0])
                st.append((get(c.run, z, 'shifts'), get(c.run, z, 'scales')))
            j = T.fresh_ix(s1.p)
            c.eq('shift', st[1][0].at(j), st[0][0].at(j))
            c.eq('scale', st[1][1].at(j), st[0][1].at(j))

        @unit('C07', 'whole-fit statistics: ' + _n)
        def _(c):
            s1, s2, a = _mk(c)
            f1, f2 = s1.fit(), s2.fit()
            for q in ('deviance', 'ndf', 'aic', 'bic', 'dispersion'):
                c.eq(q, s2.call('fit::Fit::' + q, f2), s1.call('fit::Fit::' + q, f1))

        @unit('C07', 'log-likelihood, score and information: ' + _n)
        def _(c):
            s1, s2, a = _mk(c)
            f1, f2 = s1.fit(), s2.fit()
            b = s1.beta('c')
            q = [s.call('fit::Fit::score', f, s.arr(b)) for s, f in ((s1, f1), (s2, f2))]
            c.arr('score', q[1], (s1.k,), lambda k: q[0].at(k), s1.params())
            q = [s.call('fit::Fit::fisher', f, Ref(Cell(s.arr(b)))) for s, f in ((s1, f1), (s2, f2))]
            from .gradients import pairs
            c.arr('fisher', q[1], (s1.k, s1.k), lambda k, m: q[0].at(k, m), pairs(s1))
            q = [s.call('fit::Fit::lr_test_against', f, Ref(Cell(s.arr(b)))) for s, f in ((s1, f1), (s2, f2))]
            c.eq('log-likelihood', q[1], q[0])

        @unit('C07', 'residuals and leverage: ' + _n)
        def _(c):
            s1, s2, a = _mk(c)
            f1, f2 = s1.fit(), s2.fit()
            i = T.fresh_ix(s1.n)
            for q in ROWS:
                r1, r2 = [s.unwrap(s.call('fit::Fit::' + q, f)) for s, f in ((s1, f1), (s2, f2))]
                c.eq(q, r2.at(row_of(s2, i)), r1.at(i))
                if a is not None:
                    c.eq(q + ' of the copy', r2.at(ZERO), r1.at(a))
            # the leverage of a row is the sum of its copies' leverages
            r1, r2 = [s.unwrap(s.call('fit::Fit::leverage', f)) for s, f in ((s1, f1), (s2, f2))]
            c.eq('leverage', r2.at(row_of(s2, i)) + (T.iv_eq(i - a) * r2.at(ZERO) if a is not None else ZERO), r1.at(i))
    _reg(_n, _mk)


# C19 -----------------------------------------------------------------------------------------------------------
@unit('C19', 'build')
def _(c):
    s = c.S()
    run = c.run
    z = [T.sz(x) for x in ('ny', 'nx', 'no', 'nw', 'nf')]
    b = s.builder(z)
    has = {k: get(run, b, k) for k in ('error', 'linear_offset', 'var_weights', 'freq_weights')}
    r = run.deref_all(s.call('model::ModelBuilderData::build', b))
    if r.variant == 1:
        # some requirement is violated
        i = T.fresh_ix(z[0])
        fine = T.iv_eq(T.Sum(i, z[0], 1 - T.ap(T.atom('B', 'yvalid', s.y(i))))) * T.iv_eq(z[0] - z[1])
        for k, q in (('linear_offset', z[2]), ('var_weights', z[3]), ('freq_weights', z[4])):
            o = run.deref_all(has[k])
            if o.variant == 1:
                fine = fine * T.iv_eq(z[0] - q)
        if run.deref_all(has['error']).variant == 1:
            fine = ZERO
        c.true('an error only for inconsistent input', 1 - fine)
        return
    c.static('no earlier error is dropped', run.deref_all(has['error']).variant == 0)
    d = get(run, r.fields[0], 'data')
    y = get(run, d, 'y')
    c.arr('responses', y, (z[0],), lambda i: T.fn('yfloat', s.y(i)))
    i = T.fresh_ix(z[0])
    x = get(run, d, 'x')
    c.dim('rows', x.shape[0], z[0])
    c.dim('columns', x.shape[1], s.k)
    for k, dk, q, nm in (('linear_offset', 'linear_offset', z[2], 'off'), ('var_weights', 'weights', z[3], 'wt'), ('freq_weights', 'freqs', z[4], 'fr')):
        o, dv = run.deref_all(has[k]), run.deref_all(get(run, d, dk))
        if o.variant == 1:
            c.static(k + ' kept', dv.variant == 1)
            if dv.variant == 1:
                c.arr(k, dv.fields[0], (z[0],), lambda t: T.var(nm, t))
        else:
            c.static(k + ' absent', dv.variant == 0)
    c.eq('intercept flag', get(run, d, 'has_intercept'), P(1 if s.ic else 0))
    c.static('standardizer present as requested', (run.deref_all(get(run, d, 'standardizer')).variant == 1) == s.std)


@unit('C19', 'initial state of the builder', cfgs=[dict()])
def _(c):
    s = c.S()
    run = c.run
    n, m = T.sz('ny'), T.sz('nx')
    b = s.call('model::ModelBuilder::data', Ref(Cell(Arr((n,), s.y))), Ref(Cell(Arr((m, s.p), s.X))))
    c.arr('y', get(run, b, 'data_y'), (n,), s.y)
    c.arr('x', get(run, b, 'data_x'), (m, s.p), s.X)
    for k in ('linear_offset', 'var_weights', 'freq_weights', 'error'):
        c.static('no ' + k, run.deref_all(get(run, b, k)).variant == 0)
    c.eq('intercept by default', get(run, b, 'use_intercept_term'), ONE)
    c.eq('standardized by default', get(run, b, 'standardize'), ONE)


def setter(name, field, arg, after):
    @unit('C19', 'setter ' + name, cfgs=[dict()])
    def _(c):
        s = c.S()
        run = c.run
        z = [T.sz(x) for x in ('ny', 'nx', 'no', 'nw', 'nf')]
        b0 = s.builder(z, use_intercept_term=T.boolvar('use_ic'), standardize=T.boolvar('use_std'))
        old = {f: get(run, b0, f) for f in run.prog.fields(b0.path)}
        b = s.call('model::ModelBuilderData::' + name, b0, *([arg()] if arg else []))
        for f in run.prog.fields(b0.path):
            new = get(run, b, f)
            if f == field:
                after(c, s, new, old[f])
            elif f == 'error':
                twice = field in ('linear_offset', 'var_weights', 'freq_weights') and run.deref_all(old[field]).variant == 1
                if twice:
                    c.static('given twice is an error', run.deref_all(new).variant == 1)
                else:
                    c.static('error state unchanged', run.deref_all(new).variant == run.deref_all(old[f]).variant)
            else:
                c.same('%s unchanged' % f, new, old[f])


def _given(c, s, new, old, nm='given'):
    v = c.run.deref_all(new)
    c.static('stored', v.variant == 1)
    if v.variant == 1:
        c.arr('value', v.fields[0], (T.sz('m'),), lambda i: T.var(nm, i))


def _setfalse(c, s, new, old):
    c.eq('switched off', new, ZERO)


setter('linear_offset', 'linear_offset', lambda: Arr((T.sz('m'),), lambda i: T.var('given', i)), _given)
setter('var_weights', 'var_weights', lambda: Arr((T.sz('m'),), lambda i: T.var('given', i)), _given)
setter('freq_weights', 'freq_weights', lambda: Arr((T.sz('m'),), lambda i: T.var('fr', i)), lambda c, s, n, o: _given(c, s, n, o, 'fr'))
setter('no_constant', 'use_intercept_term', None, _setfalse)
setter('no_standardize', 'standardize', None, _setfalse)
