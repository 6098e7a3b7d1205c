"""Arbitrary (symbolic) inputs satisfying the type invariants that the constructors of /repo establish, and the
vocabulary in which contracts are written.  Everything is expressed in the user's coordinates: X is the matrix the user
passed, beta the user-scale coefficients; mu and sigma are the stored shifts and scales of the standardizer."""
from . import terms as T
from .terms import P, ZERO, ONE
from .engine import (Arr, Adt, UNIT, Some, NONE, Cell, Ref, BoxV, Lazy, Opaque, Unsupported, PathDrop, EPS, INF)
from . import models
from .models import F64

for _n in ('sigma', 'wt', 'rho', 'tol', 'r_sq', 's_sq'):
    (T.NONNEG if _n in ('r_sq', 's_sq') else T.POSITIVE).add(_n)
for _n in ('fr', 'max_iter', 'n_iter'):
    T.NONNEG.add(_n)
    T.INTVARS.add(_n)
T.NONNEG.add('V')         # variance function, proved positive on the domain for every family (C05)

PHANTOM = Adt('std::marker::PhantomData', 0, ())


def empty_cell():
    return Adt('OnceCell', 0, (NONE,))


def mk(run, adt, **kw):
    """A struct value with the given fields; markers and caches are filled in."""
    prog = run.prog
    a = prog.adts.get(adt)
    if a is None:
        raise Unsupported('lost anchor: type ' + adt)
    out = []
    for f in a['variants'][0]['fields']:
        t = f['ty']
        if f['name'] in kw:
            out.append(kw.pop(f['name']))
        elif t.get('d') == 'std::marker::PhantomData':
            out.append(PHANTOM)
        elif t.get('d', '').endswith('::OnceCell'):
            out.append(empty_cell())
        else:
            raise Unsupported('lost anchor: new field %s of %s' % (f['name'], adt))
    if kw:
        raise Unsupported('lost anchor: fields %s of %s' % (sorted(kw), adt))
    return Adt(adt, 0, out)


def get(run, v, name):
    v = run.deref_all(v)
    return run.force(v.fields[run.prog.fidx(v.path, name, v.variant)])


def put(run, ref, name, x):
    """Overwrite a field of the struct behind ref."""
    v = run.deref_all(ref)
    fs = list(v.fields)
    fs[run.prog.fidx(v.path, name, v.variant)] = x
    run.write_ref(run.mut_target(ref), Adt(v.path, v.variant, fs, v.args))


class S:
    """One symbolic configuration.  intercept and std are fixed per configuration; the optional inputs are decided when
    first looked at, by the code or by the contract."""

    def __init__(self, run, intercept=True, std=True, n=None, p=None, weights=None, freqs=None, offset=None, tag=''):
        self.run, self.prog = run, run.prog
        self.ic, self.std = intercept, std
        self.n = T.sz('n') if n is None else n
        self.p = T.sz('p') if p is None else p
        self.k = self.p + (1 if intercept else 0)
        self.tag = tag

        def opt(name, f, force):
            def make(r):
                if force is False:
                    return NONE
                if force or r.decide(T.boolvar('has_' + name)):
                    return Some(Arr((self.n,), f))
                return NONE
            return Lazy(name, make)
        self.l_off = opt('offset', self.raw_off, offset)
        self.l_wt = opt('weights', self.raw_wt, weights)
        self.l_fr = opt('freqs', self.raw_fr, freqs)
        self._beta = None

    # vocabulary -----------------------------------------------------------------------------------------------
    def _has(self, lz):
        return self.run.force(lz).variant == 1

    def y(self, i):
        return T.var('y' + self.tag, i)

    def X(self, i, j):
        return T.var('X' + self.tag, i, j)

    def raw_off(self, i):
        return T.var('off' + self.tag, i)

    def raw_wt(self, i):
        return T.var('wt' + self.tag, i)

    def raw_fr(self, i):
        return T.var('fr' + self.tag, i)

    def off(self, i):
        return self.raw_off(i) if self._has(self.l_off) else ZERO

    def wt(self, i):
        return self.raw_wt(i) if self._has(self.l_wt) else ONE

    def fr(self, i):
        return self.raw_fr(i) if self._has(self.l_fr) else ONE

    def w(self, i):
        return self.wt(i) * self.fr(i)

    def mu(self, j):
        return T.var('mu' + self.tag, j) if self.std and self.ic else ZERO

    def sigma(self, j):
        return T.var('sigma' + self.tag, j) if self.std else ONE

    def xs(self, i, j):
        """standardized covariate (no intercept column)"""
        return (self.X(i, j) - self.mu(j)) / self.sigma(j)

    # vectors over parameters are split into the intercept (index 0) and the covariates
    def pcase(self, k, f0, fj):
        """value at parameter index k: f0() for the intercept, fj(j) for covariate j"""
        k = P(k)
        if not self.ic:
            return fj(k)
        if k.isconst:
            return f0() if k.cval == 0 else fj(k - 1)
        if T.int_nonneg(k - 1):
            return fj(k - 1)
        return T.ite(T.iv_eq(k), f0(), fj(k - 1))

    def psum(self, f):
        """sum over parameters of f(k)"""
        j = T.fresh_ix(self.p)
        if self.ic:
            return f(ZERO) + T.Sum(j, self.p, f(j + 1))
        return T.Sum(j, self.p, f(j))

    def nsum(self, f):
        i = T.fresh_ix(self.n)
        return T.Sum(i, self.n, f(i))

    def params(self):
        """generic parameter indices: 0 (intercept) and a generic covariate"""
        j = T.fresh_ix(self.p, 'j')
        return [ZERO, j + 1] if self.ic else [j]

    def D(self, i, k):
        """user-scale design matrix with the column of ones"""
        return self.pcase(k, lambda: ONE, lambda j: self.X(i, j))

    def Ds(self, i, k):
        return self.pcase(k, lambda: ONE, lambda j: self.xs(i, j))

    def lin(self, i, beta):
        """linear predictor in user coordinates, without the offset; beta: k -> value"""
        return self.psum(lambda k: self.D(i, k) * beta(k))

    def to_std(self, beta):
        """internal coefficients of user-scale ones"""
        j = T.fresh_ix(self.p)
        if not self.ic:
            return lambda k: beta(k) * self.sigma(P(k))

        def f(k):
            def f0():
                j = T.fresh_ix(self.p)
                return beta(ZERO) + T.Sum(j, self.p, self.mu(j) * beta(j + 1))
            return self.pcase(k, f0, lambda j: beta(j + 1) * self.sigma(j))
        return f

    def to_user(self, beta):
        """user-scale coefficients of internal ones"""
        if not self.ic:
            return lambda k: beta(P(k)) / self.sigma(P(k))

        def f(k):
            def f0():
                j = T.fresh_ix(self.p)
                return beta(ZERO) - T.Sum(j, self.p, self.mu(j) * beta(j + 1) / self.sigma(j))
            return self.pcase(k, f0, lambda j: beta(j + 1) / self.sigma(j))
        return f

    def Jac(self, k, m):
        """d(internal coefficient k)/d(user coefficient m)"""
        if not self.ic:
            return T.iv_eq(P(k) - P(m)) * self.sigma(P(m))

        def row0():
            return self.pcase(m, lambda: ONE, lambda j: self.mu(j))

        def rowj(a):
            return self.pcase(m, lambda: ZERO, lambda j: T.iv_eq(a - j) * self.sigma(j))
        return self.pcase(k, row0, rowj)

    # objects --------------------------------------------------------------------------------------------------
    def x_mat(self):
        if self.ic:
            return Arr((self.n, self.k), lambda i, k: self.Ds(i, k))
        return Arr((self.n, self.k), lambda i, k: self.xs(i, k))

    def standardizer(self):
        return mk(self.run, 'data::Standardizer',
                  shifts=Arr((self.p,), lambda j: self.mu(j)), scales=Arr((self.p,), lambda j: self.sigma(j)))

    def y_arr(self):
        return Arr((self.n,), lambda i: self.y(i))

    def dataset(self):
        return mk(self.run, 'data::Dataset', y=self.y_arr(), x=self.x_mat(), linear_offset=self.l_off,
                  weights=self.l_wt, freqs=self.l_fr, has_intercept=P(1 if self.ic else 0),
                  standardizer=Some(self.standardizer()) if self.std else NONE)

    def raw_dataset(self):
        """before finalize_design_matrix"""
        return mk(self.run, 'data::Dataset', y=self.y_arr(), x=Arr((self.n, self.p), lambda i, j: self.X(i, j)),
                  linear_offset=self.l_off, weights=self.l_wt, freqs=self.l_fr, has_intercept=ZERO, standardizer=NONE)

    def model(self):
        m = Ref(Cell(mk(self.run, 'model::Model', data=self.dataset()), 'model'))
        return m

    def data_of(self, model):
        return Ref(model.cell, model.path + (('f', self.prog.fidx('model::Model', 'data')),))

    def arr(self, f):
        """parameter-indexed array"""
        return Arr((self.k,), f)

    def beta(self, name='b'):
        return lambda k: T.var(name, P(k))

    def options(self, **kw):
        def ig(r):
            if r.decide(T.boolvar('has_init_guess')):
                return Some(Arr((self.k,), lambda k: T.var('init', k)))
            return NONE
        d = dict(max_iter=T.var('max_iter'), tol=T.var('tol'), l2=T.var('l2'), l1=T.var('l1'), init_guess=Lazy('init_guess', ig))
        d.update(kw)
        return mk(self.run, 'fit::options::FitOptions', **d)

    # penalty --------------------------------------------------------------------------------------------------
    def L1(self):
        return T.var('l1') if self.run.decide(T.iv_pos(T.var('l1'))) else ZERO

    def L2(self):
        return T.var('l2') if self.run.decide(T.iv_pos(T.var('l2'))) else ZERO

    def pen(self, beta):
        """documented penalty at user-scale coefficients"""
        bs = self.to_std(beta)
        l1, l2 = self.L1(), self.L2()
        j = T.fresh_ix(self.p)
        b = bs(j + 1) if self.ic else bs(j)
        return -l1 * T.Sum(j, self.p, T.absval(b)) - l2 / 2 * T.Sum(j, self.p, b * b)

    def pen_curv(self, k, m):
        """curvature of the smooth penalty in internal coordinates"""
        l2 = self.L2()
        return self.pcase(k, lambda: ZERO, lambda j: T.iv_eq(P(k) - P(m)) * l2)

    def reg(self, havoc=True):
        """The regularizer that get_reg builds for the options, in an arbitrary state."""
        run = self.run
        opts = Ref(Cell(self.options(), 'options'))
        r = self.call('irls::get_reg', opts, self.k, P(1 if self.ic else 0))
        if havoc:
            self.havoc_reg(r)
        return r

    def havoc_reg(self, r):
        run = self.run
        obj = run.deref_all(r)
        if not isinstance(obj, Adt):
            raise Unsupported('regularizer value')
        tgt = run.mut_target(r)
        known = {'dual': lambda: self.arr(lambda k: T.var('dual', k)), 'cum_res': lambda: self.arr(lambda k: T.var('cum', k)),
                 'rho': lambda: T.var('rho'), 'r_sq': lambda: T.var('r_sq'), 's_sq': lambda: T.var('s_sq')}
        for f in run.prog.fields(obj.path):
            if f in known:
                put(run, tgt, f, known[f]())

    def assume(self, cond):
        """a precondition"""
        if not self.run.dec.facts.assume(cond, True):
            raise PathDrop()
        self.run.dec.conds.append((P(cond), True))

    # execution ------------------------------------------------------------------------------------------------
    def call(self, path, *args, **env):
        p = self.prog.find(path)
        it = self.prog.items[p]
        e = {'F': F64}
        e.update(env)
        h = self.run.contracts.get(p)
        if h is not None:
            r = h(self.run, list(args))
            if r is not NotImplemented:
                return r
        return self.run.exec_body(p, it['body'], list(args), e)

    def dyn(self, r, name, *args):
        """trait method of a regularizer value"""
        d = 'regularization::IrlsReg::' + name
        if d not in self.prog.items:
            raise Unsupported('lost anchor: ' + d)
        c = {'d': d, 'name': name, 'trait': 'regularization::IrlsReg', 'crate': 'ndarray_glm',
             'a': [{'k': 'dyn', 'd': 'regularization::IrlsReg', 'a': [F64]}, F64]}
        return models.call_fn(self.run, c, {'F': F64}, [r] + list(args))

    def builder(self, sizes, **kw):
        """A builder in an arbitrary state; sizes: lengths of y, rows of x, offset, weights, frequencies."""
        run = self.run
        ny, nx, no, nw, nf = sizes

        def opt(name, size, f):
            return Lazy(name, lambda r: Some(Arr((size,), f)) if r.decide(T.boolvar('has_' + name)) else NONE)

        def err(r):
            if r.decide(T.boolvar('has_error')):
                adt = 'error::RegressionError'
                return Some(Adt(adt, self.prog.variant(adt, 'BuildError'), (Opaque('builderr'),)))
            return NONE
        d = dict(data_y=Arr((ny,), lambda i: self.y(i)), data_x=Arr((nx, self.p), lambda i, j: self.X(i, j)),
                 linear_offset=opt('offset', no, lambda i: T.var('off', i)), var_weights=opt('weights', nw, lambda i: T.var('wt', i)),
                 freq_weights=opt('freqs', nf, lambda i: T.var('fr', i)), use_intercept_term=P(1 if self.ic else 0),
                 standardize=P(1 if self.std else 0), error=Lazy('error', err))
        d.update(kw)
        return mk(run, 'model::ModelBuilderData', **d)

    def irls(self, model, **st):
        """An Irls object in an arbitrary reachable state."""
        run = self.run
        init = self.arr(lambda k: T.var('guess0', k))
        st.setdefault('guess', self.arr(lambda k: T.var('guess', k)))
        opts = st.pop('options', None) or self.options()
        ir = self.call('irls::Irls::new', model, init, opts)
        cell = Ref(Cell(ir, 'irls'))
        reg = get(run, cell, 'reg')
        if st.pop('havoc_reg', True):
            self.havoc_reg(reg)
        hist = self.history()
        st.setdefault('n_iter', T.var('n_iter'))
        st.setdefault('last_like_data', T.var('last_like'))
        st.setdefault('done', T.boolvar('done'))
        st.setdefault('history', hist)
        for k, v in st.items():
            put(run, cell, k, v)
        return cell

    def history(self):
        H = T.sz('H')

        def step(t):
            return mk(self.run, 'irls::IrlsStep', guess=self.arr(lambda k: T.var('hg', t, k)), like=T.var('hl', t))
        return Arr((H,), step, 'adt')

    def fit(self, **kw):
        """A Fit value as built by Fit::new from an arbitrary optimum and iteration state.  The optimum is written in
        user-scale coefficients b."""
        run = self.run
        model = self.model()
        data = self.data_of(model)
        self.b = self.beta('b')
        bs = self.to_std(self.b)
        opt = mk(run, 'irls::IrlsStep', guess=self.arr(bs), like=T.var('like'))
        ir = self.irls(model)
        f = self.call('fit::Fit::new', data, opt, run.deref_all(ir))
        self.fitcell = Ref(Cell(f, 'fit'))
        return self.fitcell

    # family vocabulary -----------------------------------------------------------------------------------------
    def omega(self, i, beta=None):
        return self.lin(i, beta or self.b) + self.off(i)

    def mean(self, i, beta=None):
        return T.fn('mean', self.omega(i, beta))

    def nat(self, i, beta=None):
        return T.fn('nat', self.omega(i, beta))

    def dnat(self, i, beta=None):
        return T.fn('dnat', self.omega(i, beta))

    def V(self, i, beta=None):
        return T.fn('V', self.mean(i, beta))

    def ll_i(self, i, beta=None):
        eta = self.nat(i, beta)
        return self.y(i) * eta - T.fn('A', eta)

    def loglik(self, beta=None):
        if 'glm::Glm::log_like' in self.run.contracts:
            return self.nsum(lambda i: T.fn('LLT', self.lin(i, beta or self.b)))
        return self.nsum(lambda i: self.w(i) * self.ll_i(i, beta))

    def score(self, k, beta):
        """gradient of the weighted log-likelihood plus penalty, user coordinates (see lemma score_is_gradient)"""
        raise NotImplementedError

    def n_obs(self):
        return self.nsum(lambda i: self.fr(i))

    def sum_w(self):
        return self.nsum(lambda i: self.w(i))

    def n_eff(self):
        if not self._has(self.l_wt):
            return self.n_obs()
        s = self.sum_w()
        return s * s / self.nsum(lambda i: self.fr(i) * self.wt(i) * self.wt(i))

    def free(self):
        """whether the family has a free dispersion"""
        return self.run.decide(T.boolvar('DISPERSED'))

    # derived statistics (definitions) --------------------------------------------------------------------------
    def info_data(self, k, m, beta):
        return self.nsum(lambda i: self.w(i) * self.D(i, k) * self.D(i, m) * self.V(i, beta) * self.dnat(i, beta) * self.dnat(i, beta))

    def info_data_std(self, k, m, beta):
        return self.nsum(lambda i: self.w(i) * self.Ds(i, k) * self.Ds(i, m) * self.V(i, beta) * self.dnat(i, beta) * self.dnat(i, beta))

    def pen_curv_user(self, k, m):
        """J' diag(l2) J"""
        l2 = self.L2()
        return self.pcase(k, lambda: ZERO, lambda j: T.iv_eq(P(k) - P(m)) * l2 * self.sigma(j) * self.sigma(j))

    def info(self, k, m, beta):
        return self.info_data(k, m, beta) + self.pen_curv_user(k, m)

    def inv(self, f):
        """inverse of the parameter-indexed matrix f(k,m)"""
        bl = T.matrix_blocks(self.k, f)
        return lambda i, j: T.inv_atom(self.k, bl, P(i), P(j))

    def dev_i(self, i):
        return 2 * self.wt(i) * (T.fn('lsat', self.y(i)) - self.ll_i(i))

    def deviance(self):
        return self.nsum(lambda i: self.fr(i) * self.dev_i(i))


    # other queries, as the code computes them or as their contracts say; used where one query is specified by another
    def unwrap(self, r):
        r = self.run.deref_all(r)
        if isinstance(r, Adt) and r.path == models.RESULT:
            if r.variant == 1:
                raise PathDrop('the other query fails')
            r = self.run.deref_all(r.fields[0])
        return r

    def phi(self):
        return self.run.deref_all(self.call('fit::Fit::dispersion', self.fitcell))

    def lev(self, i):
        return self.unwrap(self.call('fit::Fit::leverage', self.fitcell)).at(i)

    def phi_loo(self, i):
        return self.unwrap(self.call('fit::Fit::dispersion_loo', self.fitcell)).at(i)

    def l0(self):
        return self.run.deref_all(self.call('fit::Fit::null_like', self.fitcell))

    def dispersion(self):
        """deviance/((1-K/n_eff) sum w) for a free dispersion"""
        K = self.k
        ne = self.n_eff()
        if self.run.decide(T.iv_ge(K - ne)):
            return self.deviance() * T.power(ZERO, -1)
        return self.deviance() / ((1 - K / ne) * self.sum_w())


class Moved(S):
    """The data of s (n rows) with one more row in front of it: row(name, i, base) gives its contents."""

    def __init__(self, run, first, fr_rest=None, fr_first=None, **kw):
        self.first, self.fr_first, self.fr_rest = first, fr_first, fr_rest
        super().__init__(run, n=kw.pop('n', T.sz('n')) + 1, **kw)

    def split(self, i, f0, fi):
        i = P(i)
        if i.isconst:
            return f0() if i.cval == 0 else fi(i - 1)
        if T.int_nonneg(i - 1):
            return fi(i - 1)
        return T.ite(T.iv_eq(i), f0(), fi(i - 1))

    def y(self, i):
        return self.split(i, lambda: self.first('y'), lambda t: T.var('y', t))

    def X(self, i, j):
        return self.split(i, lambda: self.first('X', j), lambda t: T.var('X', t, j))

    def raw_off(self, i):
        return self.split(i, lambda: self.first('off'), lambda t: T.var('off', t))

    def raw_wt(self, i):
        return self.split(i, lambda: self.first('wt'), lambda t: T.var('wt', t))

    def raw_fr(self, i):
        return self.split(i, lambda: self.fr_first, lambda t: T.var('fr', t))


class More(S):
    """The data of s with the frequency of row a increased by c."""

    def __init__(self, run, a, c, **kw):
        self.a, self.c = a, c
        super().__init__(run, **kw)

    def raw_fr(self, i):
        return T.var('fr', i) + self.c * T.iv_eq(P(i) - P(self.a))


class Ones(S):
    """The data of s with explicit frequencies equal to one."""

    def raw_fr(self, i):
        return ONE


def laws(p):
    """rewrite with the family laws proved in C05: A'(nat(w)) = mean(w), A''(nat(w)) = V(mean(w))"""
    def rw(a, na):
        if a.kind == 'fn' and na[0] in ('A1', 'A2') and isinstance(na[1], T.Poly):
            s = na[1].single_atom()
            if s is not None and s.kind == 'fn' and s.args[0] == 'nat':
                m = T.fn('mean', s.args[1])
                return m if na[0] == 'A1' else T.fn('V', m)
        return None
    return T.Subst({}, rw).poly(p)


DTABLE = {
    'A': lambda x: [T.fn('A1', x)], 'A1': lambda x: [T.fn('A2', x)],
    'nat': lambda x: [T.fn('dnat', x)],
    'dnat': lambda x: [T.fn('ddnat', x)],
    'mean': lambda x: [T.fn('V', T.fn('mean', x)) * T.fn('dnat', x)],
}


def c_dispersion(run, args):
    """contract of Fit::dispersion (proved in C18): one for families without a free dispersion, else a number phi"""
    return T.var('phi') if run.decide(T.boolvar('DISPERSED')) else ONE


DISP = {'fit::Fit::dispersion': c_dispersion}


def c_log_like(run, args):
    """contract of Glm::log_like: a function of the linear predictor (which function is proved in C03 and C15)"""
    x, b = get(run, args[0], 'x'), run.deref_all(args[1])
    n, k = x.shape
    run.same_dim(k, b.shape[0], 'log_like')
    i, m = T.fresh_ix(n), T.fresh_ix(k)
    dot = models.dot(run, x, b)
    return T.Sum(i, n, T.fn('LLT', dot.at(i)))


LL = {'glm::Glm::log_like': c_log_like}


def data_n(run, fit):
    return get(run, get(run, fit, 'data'), 'y').shape[0]


def lin_err(run):
    adt = 'error::RegressionError'
    return models.Err(Adt(adt, run.prog.variant(adt, 'LinalgError'), (models.LINERR,)))


def c_leverage(run, args):
    """contract of Fit::leverage (proved in C17): a linear-algebra error or the vector lev"""
    if run.decide(T.boolvar('lev_fails')):
        return lin_err(run)
    return models.Ok(Arr((data_n(run, args[0]),), lambda i: T.var('lev', i)))


def c_null_fit(run, args):
    """contract of Fit::null_model_fit (proved in C15): likelihood l0 and the coefficients (b0 or nothing, 0, .., 0)"""
    f = args[0]
    ic = get(run, get(run, f, 'data'), 'has_intercept')
    k = get(run, f, 'n_par')
    v = Adt('tuple', 0, (T.var('l0'), Arr((k,), lambda i: T.iv_eq(i) * T.var('b0') if ic is ONE else ZERO)))
    return Ref(Cell(v, 'null'))


def c_dispersion_loo(run, args):
    """contract of Fit::dispersion_loo (proved in C18)"""
    if not run.decide(T.boolvar('DISPERSED')):
        return models.Ok(Arr((data_n(run, args[0]),), lambda i: ONE))
    if run.decide(T.boolvar('lev_fails')):
        return lin_err(run)
    return models.Ok(Arr((data_n(run, args[0]),), lambda i: T.var('philoo', i)))


DISPLOO = {'fit::Fit::dispersion_loo': c_dispersion_loo}
LEV = {'fit::Fit::leverage': c_leverage}
NULLFIT = {'fit::Fit::null_model_fit': c_null_fit}
DISPLEV = dict(DISP, **LEV)


# refits --------------------------------------------------------------------------------------------------------
T.POSITIVE.add('sigR')


def c_from_dataset(run, args):
    """contract of Standardizer::from_dataset (proved in C02): shifts only with an intercept, positive scales"""
    d = args[0]
    p = get(run, d, 'x').shape[1]
    ic = get(run, d, 'has_intercept')
    if ic is not ZERO and ic is not ONE:
        raise Unsupported('standardizer of a data set with undetermined intercept')
    return mk(run, 'data::Standardizer', shifts=Arr((p,), lambda j: T.var('muR', P(j)) if ic is ONE else ZERO),
              scales=Arr((p,), lambda j: T.var('sigR', P(j))))


class Refit:
    """what a call of Glm::regression was given; views are taken when it happens"""

    def __init__(self, run, args):
        self.conds, self.facts = list(run.dec.conds), run.dec.facts.copy()
        self.model = args[0]
        d = get(run, args[0], 'data')
        self.data = {f: run.deref_all(get(run, d, f)) for f in ('y', 'x', 'linear_offset', 'weights', 'freqs', 'has_intercept', 'standardizer')}
        self.options = run.deref_all(args[1])
        self.ic = self.data['has_intercept']
        if self.ic is not ZERO and self.ic is not ONE:
            raise Unsupported('refit with undetermined intercept')
        self.ic = self.ic is ONE
        st = self.data['standardizer']
        if not isinstance(st, Adt):
            raise Unsupported('refit standardizer')
        self.std = st.variant == 1
        self.x = self.data['x']
        if self.std:
            z = run.deref_all(st.fields[0])
            self.mu, self.sigma = run.deref_all(get(run, z, 'shifts')), run.deref_all(get(run, z, 'scales'))

    def opt(self, f):
        o = self.data[f]
        return o.variant == 1, (o.fields[0] if o.variant == 1 else None)

    def external(self, i, k):
        """design matrix in the scale of the data (with the intercept column)"""
        v = self.x.at(i, k)
        if not self.std:
            return v
        if not self.ic:
            return v * self.sigma.at(k) + self.mu.at(k)
        if P(k) is ZERO:
            return v
        return v * self.sigma.at(k - 1) + self.mu.at(k - 1)

    def guess(self, b):
        """internal coefficients of b (given in the scale of the data)"""
        k = self.x.shape[1]
        if not self.std:
            return Arr((k,), lambda m: b(P(m)))
        if not self.ic:
            return Arr((k,), lambda m: b(P(m)) * self.sigma.at(m))
        j = T.fresh_ix(k - 1)

        def f(m):
            t = T.iv_eq(m)
            if t is ONE:
                return b(ZERO) + T.Sum(j, k - 1, self.mu.at(j) * b(j + 1))
            if t is ZERO:
                return b(P(m)) * self.sigma.at(m - 1)
            if T.int_nonneg(P(m) - 1):
                return b(P(m)) * self.sigma.at(P(m) - 1)
            return T.ite(t, b(ZERO) + T.Sum(j, k - 1, self.mu.at(j) * b(j + 1)), b(P(m)) * self.sigma.at(P(m) - 1))
        return Arr((k,), f)


def c_regression(run, args):
    """contract of Glm::regression (C11, C12, C23): an error, or a fit of the model handed in with the given options.
    run.coef(refit): k -> user-scale coefficient of the result"""
    q = Refit(run, args)
    run.refits = getattr(run, 'refits', []) + [q]
    if run.decide(T.boolvar('refit_fails')):
        q.failed = True
        return models.Err(Opaque('refit_error'))
    b = run.coef(q) if hasattr(run, 'coef') else (lambda k: T.var('rf', P(k)))
    if not isinstance(args[0], Ref):
        raise Unsupported('refit of a moved model')
    ir = run.exec_body(*body(run, 'irls::Irls::new'), [args[0], q.guess(b), args[1]], {'F': F64})
    step = mk(run, 'irls::IrlsStep', guess=q.guess(b), like=T.var('refit_like'))
    data = Ref(args[0].cell, args[0].path + (('f', run.prog.fidx('model::Model', 'data')),))
    return models.Ok(run.exec_body(*body(run, 'fit::Fit::new'), [data, step, run.deref_all(ir)], {'F': F64}))


REFIT = {'glm::Glm::regression': c_regression, 'data::Standardizer::from_dataset': c_from_dataset}


def body(run, path):
    p = run.prog.find(path)
    return p, run.prog.items[p]['body']
