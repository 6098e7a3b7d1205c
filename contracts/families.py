"""C05 laws of the families and links, C06 the domain of the responses, C22 reference laws of the families.

Every domain point is written with a free positive (for the linear family: real) number t, so that the functions'
defining identities become identities between normal forms; the parametrisations are onto the domains."""
import sys
from fractions import Fraction
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, Opaque, Unsupported, NAN, INF, Tuple, PathDrop
from glmvc import models, inputs
from glmvc.models import F64
from glmvc.spec import unit

T.POSITIVE.add('famt')
T.POSITIVE.add('famphi')
T.POSITIVE.add('const N')
N = T.sz('const N')
F32 = {'k': 'prim', 'n': 'f32'}


def adt(d, *a):
    return {'k': 'adt', 'd': d, 'a': list(a)}


def logit_mu(t):
    return t / (1 + t)


# name: module, type, mean(t), natural parameter(t)
FAM = {
    'Linear': ('linear', lambda t: t, lambda t: t),
    'Logistic': ('logistic', lambda t: t / (1 + t), T.ln),
    'Poisson': ('poisson', lambda t: t, T.ln),
    'Binomial': ('binomial', lambda t: N * t / (1 + t), T.ln),
    'Exponential': ('exponential', lambda t: t, lambda t: -1 / t),
    'Gamma': ('gamma', lambda t: t, lambda t: -1 / t),
    'InvGaussian': ('inverse_gaussian', lambda t: t, lambda t: -1 / (2 * t * t)),
}
FREE = {'Linear', 'Gamma', 'InvGaussian'}
CANON = {'Linear': 'Id', 'Logistic': 'Logit', 'Poisson': 'Log', 'Binomial': 'Logit', 'Exponential': 'NegRec', 'Gamma': 'NegRec',
         'InvGaussian': 'NegRecSq'}
LINK = {'Id': lambda m, n: m, 'Log': lambda m, n: T.ln(m), 'NegRec': lambda m, n: -1 / m, 'NegRecSq': lambda m, n: -1 / (2 * m * m),
        'Logit': lambda m, n: T.ln(m / (n - m)), 'Cloglog': lambda m, n: T.ln(-T.ln(1 - m))}
COMBOS = [(f, l) for f, ls in (('Linear', ('Id',)), ('Logistic', ('Logit', 'Cloglog')), ('Poisson', ('Log',)), ('Binomial', ('Logit',)),
                               ('Exponential', ('NegRec', 'Log')), ('Gamma', ('NegRec', 'Log')), ('InvGaussian', ('NegRecSq', 'Log'))) for l in ls]
CFGS = [dict(family=f, link=l) for f, l in COMBOS]
FCFGS = [dict(family=f, link=CANON[f]) for f in FAM]


class Fam:
    def __init__(self, c):
        self.c, self.run = c, c.run
        self.name, self.lname = c.cfg['family'], c.cfg['link']
        self.mod, self.mu, self.eta = FAM[self.name]
        base = 'response::%s::' % self.mod
        prog = c.run.prog
        self.canon = adt(base + 'link::' + CANON[self.name])
        self.link = adt(base + 'link::' + self.lname)
        d = base + self.name
        if d not in prog.adts:
            # moved or re-exported elsewhere
            ds = [x for x in prog.adts if x.split('::')[-1] == self.name]
            if len(ds) != 1:
                raise Unsupported('lost anchor: family ' + self.name)
            d = ds[0]
        for t in (self.canon, self.link):
            if t['d'] not in prog.adts:
                raise Unsupported('lost anchor: link ' + t['d'])
        if self.name == 'Binomial':
            self.ty = self.cty = adt(d, {'k': 'cparam', 'name': 'N'})
        else:
            self.ty = adt(d, self.link)
            self.cty = adt(d, self.canon)
        self.size = N if self.name == 'Binomial' else ONE

    def w(self, t):
        """the linear predictor of the mean, by the documented link"""
        return LINK[self.lname](self.mu(t), self.size)

    def fn(self, trait, name, selfty, targs, *args):
        return self.run.deref_all(models.call_fn(self.run, dict(d=trait + '::' + name, trait=trait, name=name, a=[selfty] + targs, crate='ndarray_glm'),
                                                 {}, list(args)))

    def glm(self, name, *args):
        return self.fn('glm::Glm', name, self.ty, [F64], *args)

    def tr(self, name, *args):
        return self.fn('link::Transform', name, self.link, [F64], *args)

    def g(self, x):
        return self.fn('link::Link', 'func', self.link, [self.ty, F64], x)

    def ginv(self, x):
        return self.fn('link::Link', 'func_inv', self.link, [self.ty, F64], x)

    def g0(self, x):
        return self.fn('link::Link', 'func', self.canon, [self.cty, F64], x)


def D(p, x):
    """derivative of a term with respect to the variable x; truth values are locally constant"""
    a = x.single_atom()
    memo = {}

    def at(y):
        if y.id == a.id:
            return ONE
        z = memo.get(y.id)
        if z is None:
            z = memo[y.id] = at1(y)
        return z

    def at1(y):
        if a.id not in {v for v in T.vars_of_atom(y)} and a.id not in ids(y):
            return ZERO
        k = y.kind
        if k in ('iv', 'eq', 'B'):
            return ZERO
        if k == 'exp':
            return T.ap(y) * d(y.args[0])
        if k == 'ln':
            return d(y.args[0]) / y.args[0]
        if k == 'R':
            return d(y.args[0])
        raise Unsupported('derivative of ' + k)

    def ids(y):
        r = set()
        for z in y.args:
            if isinstance(z, T.Poly):
                r |= {q.id for q in T.atoms_of(z, None, True)} if not isinstance(T.atoms_of(z, None, True), dict) else set(T.atoms_of(z, None, True))
        return r

    def base(y):
        return y.args[0] if y.kind == 'R' else T.ap(y)

    def d(q):
        out = ZERO
        for m, c in q.t.items():
            for i, (b, e) in enumerate(m):
                y = T._atom_list[b]
                dy = at(y)
                if dy is ZERO:
                    continue
                rest = T._mk({tuple(z for j, z in enumerate(m) if j != i): c})
                out = out + rest * P(T._num(Fraction(e))) * T.power(base(y), Fraction(e) - 1) * dy
        return out
    return d(P(p))


def one(run, t):
    return Arr((ONE,), lambda i: t)


def point(c, f, name='famt'):
    return T.var('famr' if f.name == 'Linear' else name)


@unit('C05', 'link and inverse link are mutual inverses', cfgs=CFGS)
def _(c):
    f = Fam(c)
    t = point(c, f)
    c.eq('inverse link of the linear predictor is the mean', f.ginv(f.w(t)), f.mu(t))
    c.eq('link of the mean is the linear predictor', f.g(f.mu(t)), f.w(t))
    c.eq('canonical link of the mean is the natural parameter', f.g0(f.mu(t)), f.eta(t))


@unit('C05', 'link functions over arrays', cfgs=CFGS)
def _(c):
    f = Fam(c)
    n = T.sz('n')
    t = lambda i: T.var('famr' if f.name == 'Linear' else 'famt', P(i))
    mu, w = Arr((n,), lambda i: f.mu(t(i))), Arr((n,), lambda i: f.w(t(i)))
    ref = lambda x: Ref(Cell(x), ())
    c.arr('link', f.glm('link', mu), (n,), lambda i: f.w(t(i)))
    c.arr('mean', f.glm('mean', ref(w)), (n,), lambda i: f.mu(t(i)))


def dn(f, t):
    return D(f.eta(t), t) / D(f.w(t), t)


@unit('C05', 'natural parameter and its derivative', cfgs=CFGS)
def _(c):
    f = Fam(c)
    n = T.sz('n')
    t = lambda i: T.var('famr' if f.name == 'Linear' else 'famt', P(i))
    w = Arr((n,), lambda i: f.w(t(i)))
    ref = lambda x: Ref(Cell(x), ())
    c.arr('natural parameter', f.tr('nat_param', w), (n,), lambda i: f.eta(t(i)))
    c.arr('its derivative', f.tr('d_nat_param', ref(w)), (n,), lambda i: dn(f, t(i)))


@unit('C05', 'error and variance adjustments', cfgs=CFGS)
def _(c):
    f = Fam(c)
    n = T.sz('n')
    t = lambda i: T.var('famr' if f.name == 'Linear' else 'famt', P(i))
    w = Arr((n,), lambda i: f.w(t(i)))
    e = Arr((n,), lambda i: T.var('fame', P(i)))
    v = Arr((n,), lambda i: T.var('famv', P(i)))
    ref = lambda x: Ref(Cell(x), ())
    c.arr('errors', f.tr('adjust_errors', e, ref(w)), (n,), lambda i: e.at(i) * dn(f, t(i)))
    c.arr('variances', f.tr('adjust_variance', v, ref(w)), (n,), lambda i: v.at(i) * dn(f, t(i)) ** 2)
    r = f.tr('adjust_errors_variance', e, v, ref(w))
    c.arr('errors of both', r.fields[0], (n,), lambda i: e.at(i) * dn(f, t(i)))
    c.arr('variances of both', r.fields[1], (n,), lambda i: v.at(i) * dn(f, t(i)) ** 2)
    c.arr('adjusted variance', f.glm('adjusted_variance_diag', ref(w)), (n,), lambda i: D(f.mu(t(i)), t(i)) / D(f.eta(t(i)), t(i)) * dn(f, t(i)) ** 2)


@unit('C05', 'mean and variance are derivatives of the log-partition', cfgs=FCFGS)
def _(c):
    f = Fam(c)
    t = point(c, f)
    A = f.glm('log_partition', f.eta(t))
    de = D(f.eta(t), t)
    c.eq('first derivative is the mean', D(A, t) / de, f.mu(t))
    V = f.glm('variance', f.mu(t))
    c.eq('second derivative is the variance', D(f.mu(t), t) / de, V)
    c.true('the variance is positive (the log-partition is convex)', T.iv_pos(V))


@unit('C05', 'likelihood of an observation', cfgs=FCFGS)
def _(c):
    f = Fam(c)
    t = point(c, f)
    y = T.var('famy')
    A = f.glm('log_partition', f.eta(t))
    c.eq('y eta - A(eta)', f.glm('log_like_natural', y, f.eta(t)), y * f.eta(t) - A)


@unit('C05', 'saturated likelihood', cfgs=FCFGS)
def _(c):
    f = Fam(c)
    t = point(c, f)
    A = f.glm('log_partition', f.eta(t))
    # by convexity the maximum over eta of y eta - A(eta) is where the mean is y
    c.eq('attained at mean = y', f.glm('log_like_sat', f.mu(t)), f.mu(t) * f.eta(t) - A)


@unit('C05', 'saturated likelihood at the boundary of the domain', cfgs=[dict(family=x, link=CANON[x]) for x in ('Logistic', 'Poisson', 'Binomial')])
def _(c):
    f = Fam(c)
    c.eq('limit at zero', f.glm('log_like_sat', ZERO), ZERO)
    if f.name != 'Poisson':
        c.eq('limit at the upper end', f.glm('log_like_sat', f.size), ZERO)


@unit('C05', 'dispersion of the family', cfgs=CFGS)
def _(c):
    f = Fam(c)
    k = c.run.prog.assoc('glm::Glm', 'DISPERSED', f.ty)
    if k is None:
        raise Unsupported('lost anchor: DISPERSED')
    d = c.run.assoc_const(None, dict(trait='glm::Glm', name='DISPERSED', a=[f.ty]))
    c.static('free exactly for linear, gamma and inverse Gaussian', c.run.prog.adts['glm::DispersionType']['variants'][d.variant]['name'] == (
        'FreeDispersion' if f.name in FREE else 'NoDispersion'))


# C06 ------------------------------------------------------------------------------------------------------------
# which numbers a family accepts
UNIT01 = lambda y: T.iv_ge(y) * T.iv_ge(1 - y)
ACCEPT = {'Linear': lambda y: ONE, 'Logistic': UNIT01, 'Exponential': T.iv_pos, 'Gamma': T.iv_pos, 'InvGaussian': T.iv_pos, 'Poisson': lambda y: ONE}
INCFG = [dict(family=f, link=CANON[f], input=i) for f, ts in (
    ('Linear', ('f32', 'f64')), ('Logistic', ('f32', 'f64', 'bool')), ('Poisson', ('u8', 'u16', 'u32', 'u64', 'usize')), ('Binomial', ('u16',)),
    ('Exponential', ('f32', 'f64')), ('Gamma', ('f32', 'f64')), ('InvGaussian', ('f32', 'f64'))) for i in ts]


def invalid_y(c, r, name):
    e = c.run.deref_all(r.fields[0])
    c.static(name, isinstance(e, Adt) and c.run.prog.adts[e.path]['variants'][e.variant]['name'] == 'InvalidY')


def into(c, f, x):
    t = {'k': 'prim', 'n': c.cfg['input']}
    return f.fn('response::Yval', 'into_float', t, [f.ty, F64], x)


def arrives(c, f, x, name):
    r = into(c, f, x)
    c.static(name + ' is accepted', r.variant == 0)
    if r.variant == 0:
        c.eq(name + ' is unchanged', r.fields[0], x)


@unit('C06', 'a response is accepted exactly in the domain and unchanged', cfgs=INCFG)
def _(c):
    f = Fam(c)
    ty = c.cfg['input']
    if ty == 'bool':
        y = T.boolvar('response')
        dom = ONE
    elif ty[0] == 'f':
        y = T.var('response')
        dom = ACCEPT[f.name](y)
    else:
        y = T.sz('response')
        dom = T.iv_ge(N - y) if f.name == 'Binomial' else ONE
    r = into(c, f, y)
    if r.variant == 0:
        c.true('accepted only inside the domain', dom)
        c.eq('unchanged', r.fields[0], y)
    else:
        c.true('rejected only outside the domain', ONE - dom)
        invalid_y(c, r, 'reported as an invalid response')


@unit('C06', 'special values', cfgs=[k for k in INCFG if k['input'][0] == 'f'])
def _(c):
    f = Fam(c)
    for x, name in ((NAN, 'NaN'), (INF, 'infinity'), (-INF, 'negative infinity')):
        r = into(c, f, x)
        if f.name == 'Linear' or (x is INF and f.name != 'Logistic'):
            c.static(name + ' is accepted', r.variant == 0)
            if r.variant == 0:
                c.static(name + ' is unchanged', c.run.num(r.fields[0]) is x)
        else:
            c.static(name + ' is rejected', r.variant == 1)
            if r.variant == 1:
                invalid_y(c, r, name + ' is reported as an invalid response')
    for x, name in ((ZERO, 'zero'), (ONE, 'one')):
        r = into(c, f, x)
        ok = x is ONE or f.name in ('Linear', 'Logistic')
        c.static('%s is %s' % (name, 'accepted' if ok else 'rejected'), r.variant == (0 if ok else 1))


@unit('C06', 'the builder admits a model only when every response is in the domain, and keeps them')
def _(c):
    s = c.S()
    run = c.run
    z = [T.sz(x) for x in ('ny', 'nx', 'no', 'nw', 'nf')]
    r = run.deref_all(s.call('model::ModelBuilderData::build', s.builder(z)))
    if r.variant == 1:
        return
    i = T.fresh_ix(z[0])
    c.true('all responses valid', T.iv_eq(T.Sum(i, z[0], 1 - T.ap(T.atom('B', 'yvalid', s.y(i))))))
    c.arr('responses', inputs.get(run, inputs.get(run, r.fields[0], 'data'), 'y'), (z[0],), lambda k: T.fn('yfloat', s.y(k)))


# C22 ------------------------------------------------------------------------------------------------------------
# mean and variance of the distributions of statrs, by their constructors' parameters
MOMENTS = {
    'Normal': lambda m, s: (m, s * s),
    'Bernoulli': lambda p: (p, p * (1 - p)),
    'Binomial': lambda p, n: (n * p, n * p * (1 - p)),
    'Poisson': lambda l: (l, l),
    'Exp': lambda r: (1 / r, 1 / r ** 2),
    'Gamma': lambda a, b: (a / b, a / b ** 2),
}


@unit('C22', 'the reference law of the family has the mean and the variance of the model', cfgs=[k for k in FCFGS if k['family'] != 'InvGaussian'])
def _(c):
    f = Fam(c)
    # the implementation keeps its parameters away from zero and infinity: means above 1e-100, dispersions above 1e-15
    t = point(c, f) if f.name in ('Linear', 'Logistic', 'Binomial') else Fraction(1, 10 ** 100) + point(c, f)
    phi = Fraction(1, 10 ** 15) + T.var('famphi')
    if f.name == 'Gamma' and c.run.decide(T.iv_pos(Fraction(sys.float_info.min) - 1 / (phi * t))):
        raise PathDrop('rate below the smallest normal number')
    d = f.fn('response::Response', 'get_distribution', f.ty, [], f.mu(t), phi)
    want = {'Linear': 'Normal', 'Logistic': 'Bernoulli', 'Poisson': 'Poisson', 'Binomial': 'Binomial', 'Exponential': 'Exp', 'Gamma': 'Gamma'}[f.name]
    c.static('law of the family', d.args[0] == want, 'got ' + str(d.args[0]))
    if d.args[0] in MOMENTS:
        m, v = MOMENTS[d.args[0]](*d.args[1:])
        c.eq('mean', m, f.mu(t))
        c.eq('variance', v, (phi if f.name in FREE else ONE) * f.glm('variance', f.mu(t)))
