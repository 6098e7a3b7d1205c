"""C09 scoring equations, C10 improvement, C11 the reported fit, C12 limits and failures, C23 options, C20 refits."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Iter, Ref, Cell, NONE, Some, EPS, Opaque, Unsupported, PathDrop, RESULT
from glmvc.inputs import get, put, mk, lin_err, LL
from glmvc.models import Ok, Err
from glmvc import models as Mo
from glmvc.spec import unit

PENS = [dict(intercept=i, pen=q) for i in (True, False) for q in ('none', 'L1', 'L2', 'L1+L2')]
ANY = [dict(intercept=True), dict(intercept=False)]


def c_next_guess(run, args):
    """contract of IrlsReg::next_guess (proved in C09): a linear-algebra error, or the solution of the penalized equations"""
    r = args[0]
    o = run.deref_all(r)
    run.asked = tuple(run.deref_all(x) for x in args[1:])
    new = {'dual': ('dual2', 1), 'cum_res': ('cum2', 1), 'rho': ('rho2', 0), 'r_sq': ('r2_sq', 0), 's_sq': ('s2_sq', 0)}
    n = run.asked[0].shape[0]
    for f in run.prog.fields(o.path):
        if f in new:
            nm, ar = new[f]
            put(run, run.mut_target(r), f, Arr((n,), lambda k, nm=nm: T.var(nm, P(k))) if ar else T.var(nm))
    if run.decide(T.ap(T.atom('B', 'solve_fails'))):
        run.failed_solve = True
        return lin_err(run)
    return Ok(Arr((n,), lambda k: T.var('ng', P(k))))


T.POSITIVE.add('rho2')
T.NONNEG.update(('r2_sq', 's2_sq'))
NG = {'regularization::IrlsReg::next_guess': c_next_guess}


class Step:
    """one call of Irls::next from an arbitrary state satisfying the invariant last_like_data = log-likelihood(guess)"""

    def __init__(self, c, done=ZERO):
        s = self.s = c.S(std=False)
        run = c.run
        model = s.model()
        self.g = s.beta('g')
        self.l1 = s.L1()
        st = {} if done is None else dict(done=done)
        self.ir = s.irls(model, guess=s.arr(self.g), last_like_data=s.loglik(self.g), **st)
        self.old = {k: get(run, self.ir, k) for k in ('n_iter', 'history', 'done', 'guess', 'last_like_data')}
        self.H = self.old['history'].shape[0]
        run.solves[:] = []
        r = run.deref_all(s.call(NEXT(run), self.ir))
        self.kind, self.err, self.step = 'none', None, None
        if r.variant == 1:
            q = run.deref_all(r.fields[0])
            if q.variant == 0:
                self.kind, self.step = 'ok', run.deref_all(q.fields[0])
            else:
                self.kind, self.err = 'err', run.deref_all(q.fields[0])
        self.cut = any(e[0] == 'cut' for e in run.events)

    def new(self, c, k):
        return get(c.run, self.ir, k)

    def reg_state(self, c):
        """state of the regularizer used in this iteration"""
        r = get(c.run, self.ir, 'reg')
        o = c.run.deref_all(r)
        names = c.run.prog.fields(o.path)
        if self.l1 is ZERO:
            return None
        if not all(x in names for x in ('dual', 'cum_res', 'rho')):
            raise Unsupported('lost anchor: ADMM state of %s' % o.path)
        return {x: get(c.run, r, x) for x in ('dual', 'cum_res', 'rho', 'r_sq', 's_sq')}


def NEXT(run):
    c = [p for p in run.prog.items if p.endswith('::next') and 'Irls' in p]
    if len(c) != 1:
        raise Unsupported('lost anchor: Irls::next')
    return c[0]


def entry(c, st):
    """last entry of the history"""
    h = c.run.deref_all(st.new(c, 'history'))
    return c.run.deref_all(h.at(h.shape[0] - 1))


def is_variant(c, e, name):
    return e.path == 'error::RegressionError' and e.variant == c.run.prog.variant('error::RegressionError', name)


# C09 -----------------------------------------------------------------------------------------------------------
def scoring(s, g, adm, pen=True):
    """matrix and right-hand side of the equations, internal coordinates; without standardization they are the user's"""
    def lhs(k, m):
        r = s.nsum(lambda i: s.w(i) * s.D(i, k) * s.D(i, m) * (s.V(i, g) * s.dnat(i, g) * s.dnat(i, g) + EPS))
        r = r + (s.pen_curv(k, m) if pen else ZERO)
        return r + T.iv_eq(P(k) - P(m)) * adm['rho'] if adm else r

    def info(k, m):
        return s.nsum(lambda i: s.w(i) * s.D(i, k) * s.D(i, m) * (s.V(i, g) * s.dnat(i, g) * s.dnat(i, g) + EPS))

    def rhs(k):
        r = s.psum(lambda m: info(k, m) * g(m))
        r = r + s.nsum(lambda i: s.w(i) * s.D(i, k) * s.dnat(i, g) * (s.y(i) - s.mean(i, g)))
        if adm:
            r = r + adm['rho'] * (adm['dual'].at(k) - adm['cum_res'].at(k))
        return r
    return lhs, rhs


@unit('C09', 'one iteration', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    st = Step(c)
    s, run = st.s, c.run
    from .gradients import pairs
    if hasattr(run, 'asked'):
        lhs, rhs = scoring(s, st.g, None, pen=False)
        g, vec, mat = run.asked
        c.arr('started at the current coefficients', g, (s.k,), st.g, s.params())
        c.arr('information', mat, (s.k, s.k), lhs, pairs(s))
        c.arr('information * current + score', vec, (s.k,), rhs, s.params())
        full = lambda k: T.var('ng', P(k))
    else:
        lhs, rhs = scoring(s, st.g, st.reg_state(c))
        I = s.inv(lhs)
        full = lambda k: s.psum(lambda m: I(k, m) * rhs(m))
    step = st.step
    if st.kind == 'err' and is_variant(c, st.err, 'MaxIter'):
        step = entry(c, st)
    if step is None:
        return
    b = get(run, step, 'guess')
    if not st.cut:
        c.arr('the step solves the scoring equations', b, (s.k,), full, s.params())
        return
    # line search: on the line through the current and the full step
    for k, m in pairs(s):
        c.eq('on the line of the search', (b.at(k) - st.g(k)) * (full(m) - st.g(m)), (b.at(m) - st.g(m)) * (full(k) - st.g(k)))


@unit('C09', 'penalized equations', cfgs=ANY)
def _(c):
    s = c.S(std=False)
    run = c.run
    l1 = s.L1()
    r = s.reg()
    g = s.beta('g')
    mat = Arr((s.k, s.k), lambda k, m: T.var('mat', P(k), P(m)))
    x = run.deref_all(s.dyn(r, 'next_guess', Ref(Cell(s.arr(g))), s.arr(s.beta('vec')), mat))
    if x.variant == 1:
        c.static('a failed solve is reported', is_variant(c, run.deref_all(x.fields[0]), 'LinalgError'))
        return
    from .gradients import pairs
    adm = None
    if l1 is not ZERO:
        adm = {q: get(run, r, q) for q in ('dual', 'cum_res', 'rho')}
    lhs = lambda k, m: T.var('mat', P(k), P(m)) + s.pen_curv(k, m) + (T.iv_eq(P(k) - P(m)) * adm['rho'] if adm else ZERO)
    rhs = lambda k: T.var('vec', P(k)) + (adm['rho'] * (adm['dual'].at(k) - adm['cum_res'].at(k)) if adm else ZERO)
    I = s.inv(lhs)
    c.arr('solution', x.fields[0], (s.k,), lambda k: s.psum(lambda m: I(k, m) * rhs(m)), s.params())


@unit('C09', 'fixed points', cfgs=ANY)
def _(c):
    # lemma over the equations: a solution equal to the current coefficients leaves the penalized score zero, and conversely
    s = c.S(std=False)
    if s.L1() is not ZERO:
        c.static('without L1', True)
        return
    g = s.beta('g')
    lhs, rhs = scoring(s, g, None)
    for k in s.params():
        res = s.psum(lambda m: lhs(k, m) * g(m)) - rhs(k)
        sc = s.nsum(lambda i: s.w(i) * s.D(i, k) * s.dnat(i, g) * (s.y(i) - s.mean(i, g)))
        sc = sc - s.pcase(k, lambda: ZERO, lambda j: s.L2() * g(k))
        c.eq('residual at the current point = -penalized score', res, -sc)


@unit('C09', 'matrix and vector in a standardized model')
def _(c):
    s = c.S()
    model = s.model()
    b = s.beta('b')
    ir = s.irls(model, guess=s.arr(s.to_std(b)))
    t = c.run.deref_all(s.call('irls::Irls::irls_mat_vec', ir))
    info = lambda k, m: s.nsum(lambda i: s.w(i) * s.Ds(i, k) * s.Ds(i, m) * (s.V(i, b) * s.dnat(i, b) * s.dnat(i, b) + EPS))
    bs = s.to_std(b)
    from .gradients import pairs
    c.arr('matrix', t.fields[0], (s.k, s.k), info, pairs(s))
    c.arr('vector', t.fields[1], (s.k,), lambda k: s.psum(lambda m: info(k, m) * bs(m)) +
          s.nsum(lambda i: s.w(i) * s.Ds(i, k) * s.dnat(i, b) * (s.y(i) - s.mean(i, b))), s.params())


# C10 -----------------------------------------------------------------------------------------------------------
def PL(s, b):
    return s.loglik(b) + s.pen(b)


@unit('C10', 'accepted steps improve', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    st = Step(c)
    s = st.s
    if st.l1 is not ZERO:
        c.static('without L1', True)
        return
    step = st.step
    if st.kind == 'err' and is_variant(c, st.err, 'MaxIter'):
        step = entry(c, st)
    if step is None:
        c.static('no step', True)
        return
    b = get(c.run, step, 'guess')
    c.true('strictly better', T.iv_pos(PL(s, lambda k: b.at(k)) - PL(s, st.g)))


@unit('C10', 'line search', cfgs=[dict()], private=True)
def _(c):
    from glmvc.engine import PyFn
    s = c.S()
    f = PyFn(lambda run, *a: T.var('obj', run.num(a[0])))
    x = c.run.num(s.call('irls::step_scale', Ref(Cell(f)), T.var('tol')))
    if x is ZERO:
        c.static('no improvement found', True)
    else:
        c.true('strictly better than at zero', T.iv_pos(T.var('obj', x) - T.var('obj', ZERO)))


@unit('C10', 'line search under L1 uses the penalized likelihood', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    st = Step(c)
    s = st.s
    if st.l1 is ZERO or not st.cut or st.step is None:
        c.static('not a line search', True)
        return
    b = get(c.run, st.step, 'guess')
    c.true('strictly better penalized likelihood', T.iv_pos(PL(s, lambda k: b.at(k)) - PL(s, st.g)))


# C11 -----------------------------------------------------------------------------------------------------------
@unit('C11', 'iteration bookkeeping', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    st = Step(c, done=None)
    s, run = st.s, c.run
    h = run.deref_all(st.new(c, 'history'))
    guess = run.deref_all(st.new(c, 'guess'))
    t = T.fresh_ix(st.H)
    if st.kind == 'none' or (st.kind == 'err' and not is_variant(c, st.err, 'MaxIter')):
        c.dim('history unchanged', h.shape[0], st.H)
        c.same('earlier entries unchanged', h.at(t), st.old['history'].at(t))
        c.eq('iterations unchanged', st.new(c, 'n_iter'), st.old['n_iter'])
        c.arr('guess unchanged', guess, (s.k,), st.g, s.params())
        c.eq('likelihood unchanged', st.new(c, 'last_like_data'), st.old['last_like_data'])
        return
    c.dim('one more history entry', h.shape[0], st.H + 1)
    c.same('earlier entries unchanged', h.at(t), st.old['history'].at(t))
    e = entry(c, st)
    b = get(run, e, 'guess')
    bf = lambda k: b.at(k)
    c.eq('one more iteration', st.new(c, 'n_iter'), st.old['n_iter'] + 1)
    c.eq('likelihood belongs to the step', get(run, e, 'like'), PL(s, bf))
    c.arr('the guess is the step', guess, (s.k,), bf, s.params())
    c.eq('its likelihood is kept', st.new(c, 'last_like_data'), s.loglik(bf))
    if st.kind == 'ok':
        c.same('the step returned is the one recorded', st.step, e)
    else:
        hh = run.deref_all(run.deref_all(st.err.fields[c.run.prog.fidx(st.err.path, 'history', st.err.variant)]))
        c.dim('history in the error', hh.shape[0], st.H + 1)
        c.same('all earlier entries in the error', hh.at(t), st.old['history'].at(t))
        c.same('the last entry in the error', hh.at(st.H), e)


def regress(c, s, iterated=True):
    """Glm::regression with the iteration replaced by the contract of Irls::next (C11, C12): N steps, each recorded."""
    run = c.run
    model = s.model()
    opts = s.options()
    out = {}
    N = T.sz('N')

    def hook(run, a):
        ref = run.mut_target(a[0]) if isinstance(a[0], Ref) else a[0]
        ir = run.deref_all(ref)
        if not (isinstance(ir, Adt) and ir.path == 'irls::Irls'):
            raise Unsupported('process_results over %r' % (ir,))
        out['start'] = {f: get(run, ir, f) for f in ('guess', 'options', 'reg', 'n_iter', 'history', 'last_like_data', 'done')}
        out['options'] = get(run, ir, 'options')
        if run.decide(T.boolvar('iteration_fails')):
            out['failed'] = Opaque('iteration_error')
            return Err(Opaque('iteration_error'))
        step = lambda t: mk(run, 'irls::IrlsStep', guess=s.arr(lambda k: T.var('hg', t, k)), like=T.var('hl', t))
        if run.decide(T.iv_pos(N)):
            for f, v in (('guess', s.arr(lambda k: T.var('hg', N - 1, k))), ('n_iter', N), ('history', Arr((N,), step, 'adt')),
                         ('last_like_data', s.loglik(s.to_user(lambda k: T.var('hg', N - 1, k))))):
                put(run, ref, f, v)
            n = N
        else:
            n = ZERO
        out['n'] = n
        s.havoc_reg(get(run, ref, 'reg'))
        return Ok(run.deref_all(run.call(None, a[1], [Iter(n, lambda t: step(t), ZERO)])))
    run.hooks['process_results'] = hook
    r = run.deref_all(s.call('glm::Glm::regression', model, opts))
    if 'start' not in out:
        raise Unsupported('the iteration is not run through process_results')
    out['opts'] = opts
    return r, out


@unit('C11', 'the reported fit')
def _(c):
    s = c.S()
    run = c.run
    r, o = regress(c, s)
    if r.variant == 1:
        c.static('an error is the iteration\'s', 'failed' in o)
        return
    c.static('a fit only without iteration errors', 'failed' not in o)
    f = Ref(Cell(run.deref_all(r.fields[0]), 'fit'))
    st = o['start']
    c.eq('no iteration before the start', st['n_iter'], ZERO)
    c.dim('empty history at the start', run.deref_all(st['history']).shape[0], ZERO)
    c.eq('not done at the start', st['done'], ZERO)
    g0 = run.deref_all(st['guess'])
    b0 = s.to_user(lambda k: g0.at(k))
    c.eq('likelihood of the start', st['last_like_data'], s.loglik(b0))
    res = run.deref_all(get(run, f, 'result'))
    bf = lambda k: res.at(k)
    if o['n'] is ZERO:
        c.arr('without iterations the starting point', res, (s.k,), b0, s.params())
        c.eq('its penalized likelihood', get(run, f, 'model_like'), PL(s, b0))
    else:
        if getattr(run, 'maxby', None) is None:
            raise Unsupported('the best step is not chosen by max_by')
        n, m, q, d = run.maxby
        c.eq('maximizes the penalized likelihood over all steps', d, T.var('hl', m) - T.var('hl', q))
        c.dim('over all steps', n, o['n'])
        c.arr('coefficients of the best step', res, (s.k,), s.to_user(lambda k: T.var('hg', m, k)), s.params())
        c.eq('likelihood of the best step', get(run, f, 'model_like'), T.var('hl', m))
    c.arr('linear predictor', get(run, f, 'x_lin_pred'), (s.n,), lambda i: s.omega(i, bf))
    c.arr('fitted values', get(run, f, 'y_hat'), (s.n,), lambda i: T.fn('mean', s.omega(i, bf)))
    c.eq('iteration count', get(run, f, 'n_iter'), o['n'])
    h = run.deref_all(get(run, f, 'history'))
    c.dim('one history entry per iteration', h.shape[0], o['n'])
    if o['n'] is not ZERO:
        t = T.fresh_ix(o['n'])
        e = run.deref_all(h.at(t))
        c.arr('history in user scale', get(run, e, 'guess'), (s.k,), s.to_user(lambda k: T.var('hg', t, k)), s.params())
        c.eq('history likelihoods', get(run, e, 'like'), T.var('hl', t))


# C12 -----------------------------------------------------------------------------------------------------------
@unit('C12', 'iteration limit and failures', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    st = Step(c, done=None)
    s, run = st.s, c.run
    n0, mx = st.old['n_iter'], T.var('max_iter')
    if run.decide(st.old['done']):
        c.static('stopped after convergence', st.kind == 'none')
        return
    sing = [v for q, v in run.dec.conds if q.single_atom() is not None and q.single_atom().kind == 'B' and q.single_atom().args[0] == 'singular']
    if any(sing) or getattr(run, 'failed_solve', False):
        c.static('a failed solve is reported', st.kind == 'err' and is_variant(c, st.err, 'LinalgError'))
        return
    if st.kind == 'ok':
        c.true('within the limit', T.iv_ge(mx - n0 - 1))
        b = get(run, st.step, 'guess')
    elif st.kind == 'err':
        c.static('maximum iterations', is_variant(c, st.err, 'MaxIter'))
        if is_variant(c, st.err, 'MaxIter'):
            c.true('limit exceeded', T.iv_pos(n0 + 1 - mx))
            c.eq('carries the limit', st.err.fields[c.run.prog.fidx(st.err.path, 'n_iter', st.err.variant)], mx)
            hh = run.deref_all(st.err.fields[c.run.prog.fidx(st.err.path, 'history', st.err.variant)])
            c.dim('carries the full history', hh.shape[0], st.H + 1)


@unit('C12', 'convergence ends the iteration', cfgs=PENS, base=NG, contracts=LL)
def _(c):
    # small change of objective and coefficients: the accepted step is the last one
    st = Step(c)
    s, run = st.s, c.run
    if st.kind == 'none':
        c.static('ended', True)
        return
    if st.kind != 'ok' or st.l1 is not ZERO or st.cut:
        c.static('other paths', True)
        return
    b = get(run, st.step, 'guess')
    d = PL(s, lambda k: b.at(k)) - PL(s, st.g)
    tol = T.var('tol')
    near = T.iv_ge(tol * s.n - T.absval(d))
    dd = s.psum(lambda k: (b.at(k) - st.g(k)) * (b.at(k) - st.g(k)))
    bb = s.psum(lambda k: b.at(k) * b.at(k))
    near2 = T.iv_ge((s.k + bb) * tol * tol - dd)
    c.eq('done exactly when both changes are within tolerance', st.new(c, 'done'), near * near2)


@unit('C12', 'errors reach the caller')
def _(c):
    s = c.S()
    r, o = regress(c, s)
    c.static('an iteration error makes the fit fail', (r.variant == 1) == ('failed' in o))
    if r.variant == 1:
        e = c.run.deref_all(r.fields[0])
        c.static('with that error', isinstance(e, Opaque) and e.tag == 'iteration_error')
