"""C03 score, C04 information and covariance."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Ref, Cell
from glmvc.inputs import DTABLE, laws, DISP
from glmvc.spec import unit


@unit('C03', 'score')
def _(c):
    s = c.S()
    f = s.fit()
    beta = s.beta('c')
    r = s.call('fit::Fit::score', f, s.arr(beta))
    obj = s.loglik(beta) + s.pen(beta)
    c.arr('score = gradient of penalized log-likelihood', r, (s.k,), lambda k: T.Diff('c', [k], DTABLE).poly(obj), s.params())


def pairs(s):
    ps = s.params()
    if len(ps) == 1:
        return [(ps[0], T.fresh_ix(s.p, 'm'))]
    j, m = T.fresh_ix(s.p, 'j'), T.fresh_ix(s.p, 'm')
    return [(ZERO, ZERO), (ZERO, m + 1), (j + 1, ZERO), (j + 1, m + 1)]


@unit('C04', 'fisher')
def _(c):
    s = c.S()
    f = s.fit()
    beta = s.beta('c')
    r = s.call('fit::Fit::fisher', f, Ref(Cell(s.arr(beta))))
    c.arr('fisher = information + L2 curvature', r, (s.k, s.k), lambda k, m: s.info(k, m, beta), pairs(s))


@unit('C04', 'information is the expected negative Hessian', cfgs=[dict(intercept=True, std=False)])
def _(c):
    # lemma over the contracts: derivative of the score with y replaced by its mean
    s = c.S()
    beta = s.beta('c')
    i = T.fresh_ix(s.n)
    ll = s.ll_i(i, beta)
    for k, m in pairs(s):
        d1 = laws(T.Diff('c', [k], DTABLE).poly(ll))
        d2 = laws(T.Diff('c', [m], DTABLE).poly(d1))
        e = T.subst(d2, {s.y(i): s.mean(i, beta)})
        c.eq('-E[d2 l] = V eta\'^2 x x', -e, s.D(i, k) * s.D(i, m) * s.V(i, beta) * s.dnat(i, beta) * s.dnat(i, beta))


@unit('C04', 'covariance', contracts=DISP)
def _(c):
    s = c.S()
    f = s.fit()
    r = c.ok(s.call('fit::Fit::covariance', f))
    Ii = s.inv(lambda k, m: s.info(k, m, s.b))
    phi = s.phi()
    def cov(a, b):
        return phi * s.psum(lambda k: s.psum(lambda m: Ii(a, k) * s.info_data(k, m, s.b) * Ii(m, b)))
    c.arr('covariance = phi inv(I) I_data inv(I)', r, (s.k, s.k), cov, pairs(s))
