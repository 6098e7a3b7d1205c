"""Bounded cross-check of the compiled crate: random cases through the public interface, compared with formulas computed
here in floating point.  It never proves anything; it replays refuted obligations on the real code and stands in, labelled
bounded, for what the verifier cannot reach."""
import itertools
import json
import math
import os
import subprocess
import numpy as np
from scipy import stats, special, optimize

HARNESS = '/verif/.build/harness/debug/glmharness'


# families --------------------------------------------------------------------------------------------------------
def _xlogy(x, y):
    return special.xlogy(x, y)


class Fam:
    def __init__(self, mean, nat, dnat, A, V, lsat, free, gen, link, dist=None):
        self.mean, self.nat, self.dnat, self.A, self.V, self.lsat, self.free, self.gen, self.link, self.dist = \
            mean, nat, dnat, A, V, lsat, free, gen, link, dist


def one(w):
    return np.ones_like(w)


def ident(w):
    return w


def _bin(N):
    return Fam(lambda w: N * special.expit(w), ident, one, lambda e: N * np.logaddexp(0, e), lambda m: m * (1 - m / N),
               lambda y: _xlogy(y, y / N) + _xlogy(N - y, 1 - y / N), False, lambda r, n: r.integers(0, N + 1, n).astype(float),
               lambda y: np.log(y / (N - y)), lambda m, phi: stats.binom(N, m / N))


def _expfam(gen):
    return dict(A=lambda e: -np.log(-e), V=lambda m: m * m, lsat=lambda y: -1 - np.log(y), free=False, gen=gen)


POS = lambda r, n: r.gamma(4.0, 0.4, n) + 0.05
_bern = dict(A=lambda e: np.logaddexp(0, e), V=lambda m: m * (1 - m), lsat=lambda y: _xlogy(y, y) + _xlogy(1 - y, 1 - y), free=False)
_expo = dict(A=lambda e: -np.log(-e), V=lambda m: m * m, lsat=lambda y: -1 - np.log(y), gen=POS)
_ig = dict(A=lambda e: -np.sqrt(-2 * e), V=lambda m: m ** 3, lsat=lambda y: -0.5 / y, free=True, gen=POS)
_negrec = dict(mean=lambda w: -1 / w, nat=ident, dnat=one, link=lambda y: -1 / y)
_log_e = dict(mean=np.exp, nat=lambda w: -np.exp(-w), dnat=lambda w: np.exp(-w), link=np.log)
FAMS = {
    'linear': Fam(ident, ident, one, lambda e: e * e / 2, one, lambda y: y * y / 2, True, lambda r, n: r.normal(0.3, 1.2, n), ident,
                  lambda m, phi: stats.norm(m, math.sqrt(phi))),
    'logistic': Fam(mean=special.expit, nat=ident, dnat=one, link=special.logit, gen=lambda r, n: (r.random(n) < 0.5).astype(float),
                    dist=lambda m, phi: stats.bernoulli(m), **_bern),
    'logistic_cloglog': Fam(mean=lambda w: -np.expm1(-np.exp(w)), nat=lambda w: np.log(np.expm1(np.exp(w))),
                            dnat=lambda w: np.exp(w) / -np.expm1(-np.exp(w)), link=lambda y: np.log(-np.log1p(-y)),
                            gen=lambda r, n: (r.random(n) < 0.5).astype(float), dist=lambda m, phi: stats.bernoulli(m), **_bern),
    'poisson': Fam(np.exp, ident, one, np.exp, ident, lambda y: _xlogy(y, y) - y, False,
                   lambda r, n: r.poisson(2.0, n).astype(float), np.log, lambda m, phi: stats.poisson(m)),
    'binomial7': _bin(7),
    'binomial1': _bin(1),
    'exponential': Fam(free=False, dist=lambda m, phi: stats.expon(scale=m), **_negrec, **_expo),
    'exponential_log': Fam(free=False, dist=lambda m, phi: stats.expon(scale=m), **_log_e, **_expo),
    'gamma': Fam(free=True, dist=lambda m, phi: stats.gamma(1 / phi, scale=phi * m), **_negrec, **_expo),
    'gamma_log': Fam(free=True, dist=lambda m, phi: stats.gamma(1 / phi, scale=phi * m), **_log_e, **_expo),
    'inv_gauss': Fam(mean=lambda w: 1 / np.sqrt(-2 * w), nat=ident, dnat=one, link=lambda y: -0.5 / (y * y), **_ig),
    'inv_gauss_log': Fam(mean=np.exp, nat=lambda w: -0.5 * np.exp(-2 * w), dnat=lambda w: np.exp(-2 * w), link=np.log, **_ig),
}
# the saturated log-likelihood of the inverse Gaussian: y*(-1/(2y^2)) + 1/y = 1/(2y)
for _f in ('inv_gauss', 'inv_gauss_log'):
    FAMS[_f].lsat = lambda y: 0.5 / y
STABLE = ['linear', 'logistic', 'poisson', 'binomial7', 'exponential_log', 'gamma_log', 'logistic_cloglog', 'inv_gauss_log']
ALL = list(FAMS)


# cases -----------------------------------------------------------------------------------------------------------
def gen_case(rng, k, family=None, n=None, p=None, **force):
    fam = family or (STABLE + ALL)[k % (len(STABLE) + len(ALL))]
    n = n or int(rng.integers(7, 14))
    p = int(rng.integers(0 if k % 9 == 8 else 1, 4)) if p is None else p
    c = dict(id='c%d' % k, family=fam)
    scale = 1.0 if fam in ('linear', 'poisson', 'logistic', 'binomial7') else 0.6
    c['x'] = rng.normal(0.4, 1.0, (n, p)) * scale * rng.choice([0.5, 1.0, 2.0], p) if p else np.zeros((n, 0))
    c['y'] = FAMS[fam].gen(rng, n)
    if fam in ('exponential', 'gamma', 'inv_gauss'):
        c['x'] = c['x'] * 0.1
    b = lambda q: bool(rng.random() < q)
    if force.get('off', b(0.4)):
        c['off'] = rng.normal(0, 0.3, n) * (0.1 if fam in ('exponential', 'gamma', 'inv_gauss') else 1)
    if force.get('wt', b(0.45)):
        c['wt'] = rng.uniform(0.4, 2.5, n)
    if force.get('fr', b(0.45)):
        c['fr'] = rng.integers(0 if b(0.3) else 1, 4, n)
    if p and force.get('noconst', b(0.3)) and fam not in ('exponential', 'gamma', 'inv_gauss'):
        c['noconst'] = True
    if force.get('nostd', b(0.35)):
        c['nostd'] = True
    pen = force.get('pen', rng.choice(['', '', 'l2', 'l1', 'l1l2']))
    if 'l1' in pen:
        c['l1'] = float(rng.uniform(0.02, 0.8))
    if 'l2' in pen:
        c['l2'] = float(rng.uniform(0.02, 1.5))
    K = p + (0 if c.get('noconst') else 1)
    if fam in ('exponential', 'gamma', 'inv_gauss'):
        alt = rng.normal(0, 0.05, K)
        if K:
            alt[0] = -1.3
        c['alt'] = alt
    else:
        c['alt'] = rng.normal(0, 0.4, K)
    m = int(rng.integers(1, 4))
    c['pred'] = rng.normal(0, 0.2, (m, p))
    if b(0.5):
        c['poff'] = rng.normal(0, 0.1, m)
    return odd_case(rng, c) if ODD[0] else c


ODD = [False]        # the extended search for a failing input also tries unusual inputs


def odd_case(rng, c):
    """unusual inputs in a case that is valid already"""
    n, p = c['x'].shape
    plain = c['family'] not in ('exponential', 'gamma', 'inv_gauss')
    b = lambda q: bool(rng.random() < q)
    if b(0.3):
        c['pred'] = c['x'].copy() if b(0.5) else rng.normal(0, 0.2, (n, p))
        c.pop('poff', None)
    if c.get('wt') is not None and b(0.5):
        c['wt'] = c['wt'] * float(rng.choice([2.0 ** -7, 2.0 ** -3, 8.0, 128.0])) if b(0.8) else np.ones(n)
    if c.get('fr') is not None and b(0.2):
        c['fr'] = np.ones(n, int) if b(0.5) else c['fr'] * 3
    if c.get('off') is not None and b(0.3):
        c['off'] = np.zeros(n) if b(0.3) else np.where(rng.random(n) < 0.5, 0.0, c['off'])
    if p and plain and b(0.4):
        # columns of small integers, some with unit sample variance exactly
        h = n // 2
        base = np.concatenate([-np.ones(h), np.ones(h), np.zeros(n - 2 * h)])
        for j in range(p):
            if b(0.6):
                c['x'][:, j] = rng.permutation(base) + float(rng.integers(0, 3))
    if len(c['alt']) and plain and b(0.5):
        c['alt'] = np.where(rng.random(len(c['alt'])) < 0.4, 0.0, c['alt'])
    for l in ('l1', 'l2'):
        if l in c and b(0.2):
            c[l] = float(rng.choice([1e-3, 20.0]))
    return c


def encode(c):
    f = lambda v: ' '.join(repr(float(t)) for t in np.asarray(v).ravel())
    L = ['case %s' % c['id'], 'family ' + c['family'], 'y ' + f(c['y']),
         'x %d %d %s' % (c['x'].shape[0], c['x'].shape[1], f(c['x']))]
    for k in ('off', 'wt', 'init', 'alt', 'poff'):
        if c.get(k) is not None:
            L.append('%s %s' % (k, f(c[k])))
    if c.get('fr') is not None:
        L.append('fr ' + ' '.join(str(int(t)) for t in c['fr']))
    for k in ('noconst', 'nostd', 'rev'):
        if c.get(k):
            L.append(k)
    for k in ('l1', 'l2', 'tol'):
        if k in c:
            L.append('%s %r' % (k, float(c[k])))
    if 'maxiter' in c:
        L.append('maxiter %d' % c['maxiter'])
    if 'twice' in c:
        L.append('twice ' + c['twice'])
    if c.get('pred') is not None:
        L.append('pred %d %d %s' % (c['pred'].shape[0], c['pred'].shape[1], f(c['pred'])))
    if c.get('order'):
        L.append('order ' + ' '.join(c['order']))
    L.append('end')
    return '\n'.join(L)


def run_cases(cases, timeout=240):
    """Outputs in order; a case whose process died or hung gives {'crash': ..}."""
    outs = []
    i = 0
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1')
    while i < len(cases):
        txt = '\n'.join(encode(c) for c in cases[i:])
        try:
            r = subprocess.run([HARNESS], input=txt, capture_output=True, text=True, timeout=timeout, env=env)
            out, why = r.stdout, 'exit %s' % r.returncode
        except subprocess.TimeoutExpired as e:
            out, why = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        got = []
        for l in out.splitlines():
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        outs += got[:len(cases) - i]
        i += len(got)
        if i < len(cases):
            outs.append({'id': cases[i]['id'], 'crash': why})
            i += 1
    for o in outs:
        o['Q'] = {}
        for k, v in o.get('q', []):
            o['Q'].setdefault(k, v)
    return outs


# oracle ----------------------------------------------------------------------------------------------------------
class Or:
    def __init__(self, c, o):
        self.c, self.o = c, o
        self.f = FAMS[c['family']]
        self.y = np.asarray(c['y'], float)
        self.X = np.asarray(c['x'], float)
        self.n, self.p = self.X.shape
        self.ic = not c.get('noconst')
        self.std = not c.get('nostd')
        one_ = np.ones(self.n)
        self.off = np.asarray(c['off']) if c.get('off') is not None else 0 * one_
        self.wt = np.asarray(c['wt']) if c.get('wt') is not None else one_
        self.fr = np.asarray(c['fr'], float) if c.get('fr') is not None else one_
        self.w = self.wt * self.fr
        self.D = np.column_stack([one_, self.X]) if self.ic else self.X
        self.K = self.D.shape[1]
        self.nobs = self.fr.sum()
        self.neff = self.nobs if c.get('wt') is None else self.w.sum() ** 2 / (self.fr * self.wt ** 2).sum()
        if self.std:
            m = (self.w[:, None] * self.X).sum(0) / self.w.sum()
            v = (self.w[:, None] * (self.X - m) ** 2).sum(0) / self.w.sum() * self.neff / (self.neff - 1) if self.neff > 1 and self.n > 1 else np.ones(self.p)
            self.sig = np.sqrt(np.where(v > 0, v, 1))
            self.mu = m if self.ic else 0 * m
        else:
            self.sig, self.mu = np.ones(self.p), np.zeros(self.p)
        self.l1, self.l2 = max(c.get('l1', 0), 0), max(c.get('l2', 0), 0)
        if o.get('fit') == 'ok':
            self.b = np.asarray(o['result'], float)
            self.st = self.at(self.b)

    def cov_slice(self, b):
        return b[1:] if self.ic else b

    def lp(self, b):
        return self.D @ b + self.off

    def at(self, b):
        class S:
            pass
        s = S()
        f = self.f
        with np.errstate(all='ignore'):
            s.om = self.lp(b)
            s.mu, s.nat, s.dnat = f.mean(s.om), f.nat(s.om), f.dnat(s.om)
            s.V = f.V(s.mu)
            s.ll = self.y * s.nat - f.A(s.nat)
            s.loglik = (self.w * s.ll).sum()
        return s

    def pen(self, b):
        t = self.cov_slice(b) * self.sig
        return -self.l1 * np.abs(t).sum() - self.l2 / 2 * (t * t).sum()

    def obj(self, b):
        return self.at(b).loglik + self.pen(b)

    def score(self, b):
        s = self.at(b)
        g = self.D.T @ (self.w * s.dnat * (self.y - s.mu))
        t = self.cov_slice(b) * self.sig
        gp = -(self.l1 * np.sign(t) + self.l2 * t) * self.sig
        return g + (np.concatenate([[0], gp]) if self.ic else gp)

    def info_data(self, b):
        s = self.at(b)
        return self.D.T @ ((self.w * s.V * s.dnat ** 2)[:, None] * self.D)

    def info(self, b):
        c = self.l2 * self.sig ** 2
        return self.info_data(b) + np.diag(np.concatenate([[0], c]) if self.ic else c)

    def dev_i(self):
        return 2 * self.wt * (self.f.lsat(self.y) - self.st.ll)

    def dev(self):
        return (self.fr * self.dev_i()).sum()

    def phi(self):
        return self.dev() / ((1 - self.K / self.neff) * self.w.sum()) if self.f.free else 1.0

    def hat(self):
        s = self.st
        return (s.V * s.dnat)[:, None] * (self.D @ np.linalg.solve(self.info(self.b), self.D.T)) * (self.w * s.dnat)[None, :]

    def ok(self):
        """well-conditioned enough for floating-point comparison"""
        if self.o.get('fit') != 'ok' or self.K == 0:
            return False
        s = self.st
        if not (np.isfinite(s.om).all() and np.isfinite(s.loglik) and (s.V > 1e-5).all() and (s.V < 1e9).all() and np.abs(s.mu).max() < 1e4
                and np.abs(s.om).max() < 12):
            return False
        try:
            return np.linalg.cond(self.info(self.b)) < 1e6
        except np.linalg.LinAlgError:
            return False

    def null(self):
        """maximum likelihood over intercept-only coefficient vectors"""
        if not self.ic:
            b = np.zeros(self.K)
            return self.at(b).loglik, b
        def f(t):
            b = np.zeros(self.K)
            b[0] = t
            with np.errstate(all='ignore'):
                v = -self.at(b).loglik
            return v if np.isfinite(v) else 1e300
        ybar = (self.w * self.y).sum() / self.w.sum()
        with np.errstate(all='ignore'):
            t0 = float(self.f.link(ybar)) - float((self.w * self.off).sum() / self.w.sum())
        if not np.isfinite(t0):
            return None
        # Fisher scoring
        t = t0
        for _ in range(200):
            b = np.zeros(self.K)
            b[0] = t
            s = self.at(b)
            g, h = (self.w * s.dnat * (self.y - s.mu)).sum(), (self.w * s.V * s.dnat ** 2).sum()
            if not (np.isfinite(g) and h > 0):
                return None
            step = g / h
            while f(t + step) > f(t) and abs(step) > 1e-14 * (1 + abs(t)):
                step /= 2
            t += step
            if abs(step) < 1e-13 * (1 + abs(t)):
                break
        b = np.zeros(self.K)
        b[0] = t
        return -f(t), b


class Bad(Exception):
    pass


class Cmp:
    """collects mismatches for one case"""

    def __init__(self, c, o, tol=1e-6):
        self.c, self.o, self.tol, self.bad, self.n = c, o, tol, [], 0

    def eq(self, name, got, want, tol=None, scale=None):
        tol = tol or self.tol
        if isinstance(got, dict) or got is None:
            return
        try:
            g, w = np.asarray(got, float), np.asarray(want, float)
        except (TypeError, ValueError):
            return
        if g.shape != w.shape and not (g.size == 0 and w.size == 0):
            self.bad.append('%s: shape %s, expected %s' % (name, g.shape, w.shape))
            return
        if g.size == 0:
            return
        if not np.isfinite(w).all():
            return
        self.n += 1
        if not np.isfinite(g).all():
            self.bad.append('%s: %s, expected %s' % (name, sh(g), sh(w)))
            return
        s = scale if scale is not None else 1 + np.abs(w).max()
        if np.abs(g - w).max() > tol * s:
            self.bad.append('%s: %s, expected %s' % (name, sh(g), sh(w)))

    def true(self, name, ok, note=''):
        self.n += 1
        if not ok:
            self.bad.append('%s %s' % (name, note))


def relative(m, name, got, want, scale):
    """comparison relative to the magnitude of the terms that were added up"""
    if isinstance(got, list) and np.isfinite(want).all() and np.isfinite(scale).all():
        g = np.asarray(got, float)
        m.true(name, g.shape == np.shape(want) and bool((np.abs(g - want) <= 1e-7 * scale).all()), '%s, expected %s' % (sh(g), sh(want)))


def odd_loglinear(rng, n):
    """the log-link families and the linear predictor far from zero"""
    cs = []
    for k in range(n // 3):
        fam = ['inv_gauss_log', 'poisson', 'gamma_log', 'exponential_log', 'inv_gauss', 'gamma', 'exponential'][k % 7]
        c = gen_case(rng, k, family=fam, noconst=False, pen='')
        e0 = float(rng.choice([-6, 8, 11, 13] if fam != 'poisson' else [6, 9, 11]))
        c['y'] = np.maximum(np.round(np.exp(e0 + rng.normal(0, 0.3, len(c['y'])))), 1) if fam == 'poisson' else np.exp(e0 + rng.normal(0, 0.3, len(c['y'])))
        c.pop('off', None)
        eta = float(FAMS[fam].link(math.exp(e0)))
        c['init'] = np.zeros(len(c['alt']))
        c['init'][0] = eta
        if fam in ('inv_gauss', 'gamma', 'exponential'):
            c['x'] = rng.uniform(-1, 1, c['x'].shape)
            c['alt'] = eta * rng.uniform(-0.2, 0.2, len(c['alt']))
        else:
            c['alt'] = c['alt'] * 0.2
        c['alt'][0] = eta
        cs.append(c)

    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') != 'ok':
                continue
            q = Or(c, o)
            a = np.asarray(c['alt'])
            s = q.at(a)
            t = q.w * s.dnat * (q.y - s.mu)
            relative(m, 'score(alternative)', o['Q'].get('score'), q.D.T @ t, np.abs(q.D).T @ (q.w * np.abs(s.dnat) * (q.y + s.mu)) + 1e-300)
            F = o['Q'].get('fisher')
            if isinstance(F, list):
                W = q.w * s.V * s.dnat ** 2
                relative(m, 'fisher(alternative)', F, q.D.T @ (W[:, None] * q.D), np.abs(q.D).T @ (W[:, None] * np.abs(q.D)) + 1e-300)
        return res
    return cs, check


def odd_scales(rng, n):
    """a change of units by powers of two, with standardization: same fit, coefficients in the new units"""
    cs = []
    for k in range(n // 2):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)], nostd=False, p=int(rng.integers(1, 4)))
        c.pop('nostd', None)
        u = 2.0 ** rng.integers(-62, 40, c['x'].shape[1])
        i = 0 if c.get('noconst') else 1
        full = np.concatenate([np.ones(i), u])
        d = dict(c, x=c['x'] * u, alt=c['alt'] / full, id=c['id'] + 'u', u=full)
        if c.get('pred') is not None:
            d['pred'] = c['pred'] * u
        cs += [c, d]

    def check(cases, outs):
        res = []
        for i in range(0, len(cases), 2):
            m = Cmp(cases[i + 1], outs[i + 1])
            res.append(m)
            o, o2 = outs[i], outs[i + 1]
            q = Or(cases[i], o)
            if o.get('fit') != 'ok' or not q.ok() or (q.w @ (q.X - q.w @ q.X / q.w.sum()) ** 2 < 1e-3 * q.w.sum()).any():
                continue
            m.true('fit in other units', o2.get('fit') == 'ok', str(o2.get('fit')))
            if o2.get('fit') != 'ok':
                continue
            u = cases[i + 1]['u']
            m.eq('likelihood in other units', o2['model_like'], o['model_like'], 1e-6)
            m.eq('coefficients in other units', np.asarray(o2['result'], float) * u, o['result'], 1e-5)
            for z in ('predict', 'predict_train', 'deviance', 'aic', 'lr_test_against', 'resid_part'):
                if o['Q'].get(z) is not None and not isinstance(o['Q'][z], dict):
                    m.eq(z + ' in other units', o2['Q'].get(z), o['Q'][z], 1e-4)
            g, g2 = o['Q'].get('score'), o2['Q'].get('score')
            if isinstance(g, list) and isinstance(g2, list) and not cases[i].get('l1'):
                m.eq('score in other units', np.asarray(g2, float) / u, g, 1e-5)
        return res
    return cs, check


def odd_predict(rng, n):
    """predictions with the linear predictor near the ends of the exponential's range"""
    cs = []
    for k in range(n // 3):
        c = gen_case(rng, k, family=['poisson', 'gamma_log', 'linear', 'logistic', 'exponential_log', 'inv_gauss_log'][k % 6])
        c['pred'] = rng.normal(0, 0.1, (6, c['x'].shape[1]))
        c['poff'] = rng.uniform(0.98, 1, 6) * np.array([707.0, -707.0, 350.0, -350.0, 36.0, -36.0])
        cs.append(c)

    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') == 'ok':
                q = Or(c, o)
                if q.ok():
                    with np.errstate(all='ignore'):
                        want = q.f.mean((q.b[0] if q.ic else 0) + c['pred'] @ q.cov_slice(q.b) + c['poff'])
                    relative(m, 'predict', o['Q'].get('predict'), want, 10 * np.abs(want) + 1e-300)
        return res
    return cs, check


def odd_stored(rng, n):
    """what the builder was given is what the model holds"""
    cs = []
    for k in range(n // 3):
        c = gen_case(rng, k, family=ALL[k % len(ALL)])
        c['order'] = ['deviance']
        for f, v in (('off', 0.4), ('wt', 0.4), ('fr', 3)):
            z = rng.random()
            if c.get(f) is not None and z < 0.6:
                c[f] = np.full(len(c['y']), 0 if f == 'off' and z < 0.2 else v if z < 0.4 else 1)
        cs.append(c)

    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('build') == 'ok':
                for f in ('off', 'wt', 'fr'):
                    want = None if c.get(f) is None else [float(t) for t in c[f]]
                    m.true('stored %s' % f, o['stored'][f] == want, '%s, expected %s' % (o['stored'][f], want))
        return res
    return cs, check


def odd_tol(rng, n):
    cs = []
    for k in range(n // 3):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)])
        c['order'] = ['deviance']
        c['tol'] = [3e-17, 1e-20, 1e-300, 0.5, 20.0][k % 5]
        if k % 2:
            c['maxiter'] = [1, 2, 300, 1000][k // 2 % 4]
        if k % 3 == 0:
            c['l1'], c['l2'] = [(0.0, 1e-18), (1e-18, 0.0), (50.0, 70.0)][k // 3 % 3]
        cs.append(c)
    _, check = c23(rng, 0)
    return cs, check


def odd_first_step(rng, n):
    """A constant offset c and a guess whose intercept is lower by c: the same iterates but for the intercept.  Fits without L1
    start with a scoring step from the guess."""
    cs = []
    for k in range(n // 2):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)], noconst=bool(k % 4 == 3), p=int(rng.integers(1, 4)), wt=bool(k % 2))
        c['init'] = np.asarray(c['alt']) * 0.5 + 0.03
        c.pop('off', None)
        if k % 3 == 0:
            u = 2.0 ** rng.integers(-14, 10)
            c['x'] = c['x'] * u
            c['init'][0 if c.get('noconst') else 1:] /= u
        d = dict(c, id=c['id'] + 'o')
        if not c.get('noconst'):
            sh_ = float(rng.choice([-0.5, 0.75]))
            d['off'] = np.full(len(c['y']), sh_)
            d['init'] = c['init'].copy()
            d['init'][0] -= sh_
        cs += [c, d]

    def check(cases, outs):
        res = []
        for i in range(0, len(cases), 2):
            m = Cmp(cases[i + 1], outs[i + 1])
            res.append(m)
            o, o2 = outs[i], outs[i + 1]
            if o2.get('fit') == 'ok' and o2['history']:
                q = Or(cases[i + 1], o2)
                a = np.asarray(cases[i + 1]['init'], float)
                if np.isfinite(q.at(a).loglik) and q.ok():
                    k09(m, q, o2['Q'], dict(o2, history=[[-math.inf, a]] + o2['history'][:1]), start=True)
            if o.get('fit') == 'ok' and o2.get('fit') == 'ok' and not cases[i].get('noconst') and Or(cases[i], o).ok() and o['history'] and o2['history']:
                g, g2 = np.asarray(o['history'][0][1], float), np.asarray(o2['history'][0][1], float)
                m.eq('first iterate under a constant offset', g2 + np.concatenate([[cases[i + 1]['off'][0]], np.zeros(len(g) - 1)]), g, 1e-6)
                m.eq('its likelihood', o2['history'][0][0], o['history'][0][0], 1e-6)
        return res
    return cs, check


def odd_lengths(rng, n):
    cs = []
    for k in range(max(2, n // 40)):
        c = gen_case(rng, k, family='linear', n=6, p=2, off=True, wt=True, fr=True)
        c['order'] = ['deviance']
        for keep in (('off',), ('wt',), ('fr',), ('off', 'wt'), ('off', 'fr'), ('wt', 'fr'), ('off', 'wt', 'fr')):
            b = {kk: v for kk, v in c.items() if kk in keep or kk not in ('off', 'wt', 'fr')}
            for f in keep:
                for w in (0, 1, 3, 5, 7, 8, 12, 18):
                    cs.append(dict(b, **{f: np.resize(c[f], w)}, expect='err'))
        for w in (0, 1, 5, 7, 12):
            cs.append(dict(c, y=np.resize(c['y'], w), expect='err'))
    _, check = c19(rng, 0)
    return cs, check


def sh(a):
    return np.array2string(np.asarray(a), precision=9, threshold=20, max_line_width=10 ** 6).replace('\n', '')


def std_cases(rng, n, **kw):
    return [gen_case(rng, k, **kw) for k in range(n)]


# one function per property: yields (cases, check(cases, outs) -> list of (label, Cmp)) -------------------------------
def per_case(f, need_ok=True, tol=1e-6):
    def check(cases, outs):
        r = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o, tol)
            if 'crash' in o:
                m.true('the fit terminates without a crash', o['crash'] == 'timeout')
            q = Or(c, o)
            if o.get('fit') != 'ok' or (need_ok and not q.ok()):
                r.append(m)
                continue
            with np.errstate(all='ignore'):
                try:
                    f(m, q, o['Q'], o)
                except np.linalg.LinAlgError:
                    pass
            r.append(m)
        return r
    return check


def mono(q):
    """not saturated: leverages away from one"""
    h = np.diag(q.hat())
    return (np.abs(1 - h) > 1e-4).all()


def k03(m, q, Q, o):
    a = np.asarray(q.c['alt'])
    if np.isfinite(q.at(a).loglik) and len(a) == q.K and (q.l1 == 0 or (np.abs(q.cov_slice(a)) > 1e-9).all()):
        m.eq('score(alternative)', Q.get('score'), q.score(a))


def k04(m, q, Q, o):
    a = np.asarray(q.c['alt'])
    if np.isfinite(q.at(a).V).all():
        m.eq('fisher(alternative)', Q.get('fisher'), q.info(a))
    if q.ok() and q.phi() > 0 and np.isfinite(q.phi()):
        I = np.linalg.inv(q.info(q.b))
        m.eq('covariance', Q.get('covariance'), q.phi() * I @ q.info_data(q.b) @ I, 1e-5)


def k08(m, q, Q, o):
    m.eq('predict on training data', Q.get('predict_train'), q.st.mu)
    m.eq('response residuals use predictions', Q.get('resid_resp'), q.y - q.st.mu)
    Z = q.c.get('pred')
    if Z is not None:
        om = (q.b[0] if q.ic else 0) + Z @ q.cov_slice(q.b) + (np.asarray(q.c['poff']) if q.c.get('poff') is not None else 0)
        m.eq('predict', Q.get('predict'), q.f.mean(om))


def k13(m, q, Q, o):
    a = np.asarray(q.c['alt'])
    if np.isfinite(q.at(a).loglik):
        m.eq('lr_test_against', Q.get('lr_test_against'), 2 * (o['model_like'] - q.obj(a)))
    m.eq('model_like', o['model_like'], q.obj(q.b))


def k15(m, q, Q, o):
    z = q.null()
    a = np.asarray(q.c['alt'])
    if z is not None and np.isfinite(z[0]):
        l0, b0 = z
        m.eq('null_like', Q.get('null_like'), l0)
        m.eq('lr_test', Q.get('lr_test'), 2 * (o['model_like'] - l0))
        I0 = q.info(b0)
        d = q.b - b0
        m.eq('wald_test', Q.get('wald_test'), d @ I0 @ d, 1e-4)
        if np.linalg.cond(I0) < 1e6 and q.l1 == 0:
            g = q.score(b0)
            m.eq('score_test', Q.get('score_test'), g @ np.linalg.solve(I0, g), 1e-4)
    m.eq('test_ndf', Q.get('test_ndf'), q.p)
    if np.isfinite(q.at(a).loglik):
        m.eq('lr_test_against', Q.get('lr_test_against'), 2 * (o['model_like'] - q.obj(a)))
        Ia = q.info(a)
        d = q.b - a
        m.eq('wald_test_against', Q.get('wald_test_against'), d @ Ia @ d, 1e-5)
        if np.linalg.cond(Ia) < 1e6:
            g = q.score(a)
            m.eq('score_test_against', Q.get('score_test_against'), g @ np.linalg.solve(Ia, g), 1e-5)
    if isinstance(Q.get('covariance'), list):
        C = np.asarray(Q['covariance'])
        if C.size and (np.diag(C) > 0).all():
            m.eq('wald_z', Q.get('wald_z'), q.b / np.sqrt(np.diag(C)))


def k16(m, q, Q, o):
    s = q.st
    r = q.y - s.mu
    pear = np.sqrt(q.wt) * r / np.sqrt(s.V)
    m.eq('resid_resp', Q.get('resid_resp'), r)
    m.eq('resid_pear', Q.get('resid_pear'), pear)
    m.eq('resid_work', Q.get('resid_work'), r / (s.dnat * s.V))
    d = q.dev_i()
    far = d > 1e-6
    dev = np.sign(r) * np.sqrt(np.maximum(d, 0))
    g = np.asarray(Q.get('resid_dev'), float)
    m.eq('resid_dev', g[far] if g.shape == far.shape else g, dev[far], 1e-5)
    wrk = r / (s.dnat * s.V)
    xbar = (q.w[:, None] * q.X).sum(0) / q.w.sum() if q.ic else np.zeros(q.p)
    m.eq('resid_part', Q.get('resid_part'), wrk[:, None] + (q.X - xbar) * q.cov_slice(q.b)[None, :])
    if mono(q):
        h = np.diag(q.hat())
        phi = q.phi()
        with np.errstate(all='ignore'):
            sc = np.sqrt(phi * (1 - h))
        if np.isfinite(sc).all() and (sc > 1e-4).all():
            m.eq('resid_pear_std', Q.get('resid_pear_std'), pear / sc, 1e-4)
            g = Q.get('resid_dev_std')
            if isinstance(g, list):
                m.eq('resid_dev_std', np.asarray(g, float)[far], (dev / sc)[far], 1e-4)


def k17(m, q, Q, o):
    s = q.st
    H = q.hat()
    h = np.diag(H)
    m.eq('hat', Q.get('hat'), H, 1e-5)
    m.eq('leverage', Q.get('leverage'), h, 1e-5)
    if not mono(q):
        return
    r = q.y - s.mu
    p2 = q.wt * r * r / s.V
    phi = q.phi()
    if np.isfinite(phi) and abs(phi) > 1e-5:
        m.eq('cooks', Q.get('cooks'), p2 * h / (q.K * phi * (1 - h) ** 2), 1e-4)
    m.eq('infl_coef', Q.get('infl_coef'), (q.D @ np.linalg.inv(q.info(q.b))) * (q.w * s.dnat * r / (1 - h))[:, None], 1e-4)
    student(m, q, Q)


def student(m, q, Q):
    s = q.st
    h = np.diag(q.hat())
    r = q.y - s.mu
    p2 = q.wt * r * r / s.V
    hr = h / (1 - h)
    dl = q.dev_i() + hr * (hr + 2) * p2
    tot = q.dev() - q.fr * (q.dev_i() + hr * p2)
    w1 = q.w.sum() - q.w
    w2 = (q.fr * q.wt ** 2).sum() - q.fr * q.wt ** 2
    sc = w1 - w2 / w1 * q.K if q.c.get('wt') is not None else q.nobs - q.fr - q.K
    phl = tot / sc if q.f.free else np.ones(q.n)
    with np.errstate(all='ignore'):
        st = np.sign(r) * np.sqrt(dl / phl)
    okk = np.isfinite(st) & (dl > 1e-6) & (np.abs(phl) > 1e-4) & (np.abs(sc) > 1e-3)
    g = Q.get('resid_student')
    if isinstance(g, list) and len(g) == q.n:
        m.eq('resid_student', np.asarray(g, float)[okk], st[okk], 1e-4)


def k18(m, q, Q, o):
    if mono(q):
        student(m, q, Q)
    m.eq('deviance', Q.get('deviance'), q.dev())
    if abs(1 - q.K / q.neff) > 1e-3:
        if q.K < q.neff:
            m.eq('dispersion', Q.get('dispersion'), q.phi())
    elif not q.f.free:
        m.eq('dispersion', Q.get('dispersion'), 1.0)
    m.eq('ndf', Q.get('ndf'), q.nobs - q.K)
    lw = (q.fr * np.log(q.wt)).sum()
    m.eq('aic', Q.get('aic'), q.dev() + 2 * q.K - 2 * lw)
    m.eq('bic', Q.get('bic'), q.K * np.log(q.nobs) - 2 * o['model_like'] - 2 * lw)
    m.eq('n_obs', o['n_obs'], q.nobs)
    m.eq('n_eff', o['n_eff'], q.neff)
    if q.c['family'] == 'linear':
        m.eq('rss', Q.get('rss'), (q.w * (q.y - q.st.mu) ** 2).sum())
        z = q.null()
        d0 = 2 * ((q.w * q.f.lsat(q.y)).sum() - z[0])
        if d0 > 1e-6:
            m.eq('r_sq', Q.get('r_sq'), 1 - q.dev() / d0, 1e-5)


def k05(m, q, Q, o):
    k08(m, q, Q, o)
    k13(m, q, Q, o)
    k03(m, q, Q, o)
    k04(m, q, Q, o)
    k18(m, q, Q, o)


def k02(m, q, Q, o):
    k03(m, q, Q, o)
    k04(m, q, Q, o)
    k13(m, q, Q, o)


def k22(m, q, Q, o):
    lr = Q.get('lr_test')
    if isinstance(lr, (int, float)) and q.p and lr > 1e-9:
        m.eq('pvalue_lr_test', Q.get('pvalue_lr_test'), stats.chi2.sf(lr, q.p), 1e-5)
    z = Q.get('wald_z')
    if isinstance(z, list) and np.isfinite(z).all():
        df = q.nobs - q.K
        if not q.f.free or df > 0:
            pv = 2 * (stats.t.sf(np.abs(z), df) if q.f.free else stats.norm.sf(np.abs(z)))
            m.eq('pvalue_wald', Q.get('pvalue_wald'), pv, 1e-5)
    g = Q.get('resid_quantile')
    phi = q.phi()
    if isinstance(g, list) and q.f.dist is not None and np.isfinite(phi) and phi > 1e-6:
        want = np.array([stats.norm.ppf(q.f.dist(mu, phi / w).cdf(y)) for y, mu, w in zip(q.y, q.st.mu, q.wt)])
        okk = np.isfinite(want) & (np.abs(want) < 5)
        m.eq('resid_quantile', np.asarray(g, float)[okk], want[okk], 1e-4)


def c22(rng, n):
    cs = std_cases(rng, n)
    def check(cases, outs):
        res = per_case(k22)(cases, outs)
        # drop-one p-values against separate fits of the reduced models
        sub, back = [], []
        for i, (c, o) in enumerate(zip(cases, outs)):
            q = Or(c, o)
            pv = o['Q'].get('pvalue_exact')
            if o.get('fit') != 'ok' or not q.ok() or not isinstance(pv, list) or c.get('l1') or c.get('l2') or c['family'] in ('exponential', 'gamma', 'inv_gauss', 'inv_gauss_log'):
                continue
            for j in range(q.p):
                d = dict(c, x=np.delete(c['x'], j, 1), id='%s_%d' % (c['id'], j), order=['deviance'], pred=None, alt=None)
                sub.append(d)
                back.append((i, j + (1 if q.ic else 0), q, pv))
        for (i, j, q, pv), d, o2 in zip(back, sub, run_cases(sub)):
            if o2.get('fit') != 'ok':
                continue
            q2 = Or(d, o2)
            if q2.K and not q2.ok():
                continue
            df = q.nobs - q.K
            dd = (q2.dev() if q2.K else (q2.fr * 2 * q2.wt * (q2.f.lsat(q2.y) - q2.at(np.zeros(0)).ll)).sum()) - q.dev()
            if q.f.free:
                if df <= 0 or not q.phi() > 1e-5:
                    continue
                want = stats.f.sf(dd / q.phi(), 1, df)
            else:
                want = stats.chi2.sf(dd, 1)
            if dd > 1e-6 and len(pv) == q.K:
                res[i].eq('pvalue_exact[%d]' % j, pv[j], want, 1e-4)
        return res
    return cs, check


def simple(f, tol=1e-6, need_ok=True, **kw):
    def make(rng, n):
        return std_cases(rng, n, **kw), per_case(f, need_ok, tol)
    return make


def c01(rng, n):
    base = [gen_case(rng, k, family=STABLE[k % len(STABLE)], nostd=False, pen='') for k in range(n // 2)]
    cs = []
    for c in base:
        cs += [c, dict(c, nostd=True, id=c['id'] + 'n')]
    def check(cases, outs):
        res = []
        for i in range(0, len(cases), 2):
            a, b = Or(cases[i], outs[i]), Or(cases[i + 1], outs[i + 1])
            m = Cmp(cases[i], outs[i])
            if outs[i].get('fit') == 'ok' and a.ok():
                k08(m, a, outs[i]['Q'], outs[i])
                if outs[i + 1].get('fit') == 'ok' and b.ok():
                    h = abs(outs[i]['model_like'] - outs[i + 1]['model_like'])
                    if h < 1e-9:
                        m.eq('coefficients with and without standardization', outs[i]['result'], b.b, 1e-3)
                    for k in ('score', 'fisher', 'wald_test_against'):
                        m.eq(k + ' with and without standardization', outs[i]['Q'].get(k), outs[i + 1]['Q'].get(k), 1e-3 if k[0] == 'w' else 1e-6)
            res.append(m)
        return res
    return cs, check


def c06(rng, n):
    vals = {'logistic': [0, 1, 0.5, -0.1, 1.1, math.nan, math.inf, -math.inf, 1e-300, -1e-300, 1 + 1e-15], 'linear': [0, -3.5, 0.1, 1e300, 1e-300],
            'exponential': [1, 0, -1, math.nan, 1e-300, 1e300, math.inf, -0.0], 'gamma': [1, 0, -1, math.nan, 1e-300, math.inf, -0.0],
            'inv_gauss': [1, 0, -1, math.nan, 1e-300, math.inf, -0.0], 'logistic_cloglog': [0, 1, 0.1, 0.25, -0.1, 2, math.nan],
            'exponential_log': [1, 0, -1, math.nan], 'gamma_log': [1, 0, -1, math.nan], 'inv_gauss_log': [1, 0, -1, math.nan],
            'poisson': [0, 1, 7, 100000, 16777217, 4000000001], 'binomial7': [0, 3, 7, 8, 65535], 'binomial1': [0, 1, 2]}
    okf = {'logistic': lambda v: 0 <= v <= 1, 'linear': lambda v: True, 'poisson': lambda v: True, 'binomial7': lambda v: v <= 7, 'binomial1': lambda v: v <= 1}
    cs = []
    for fam, vs in vals.items():
        for v in vs:
            for pos in (0, 3, 5):
                y = np.full(6, 1.0 if fam != 'logistic' else 0.5)
                if fam.startswith('binomial'):
                    y = np.array([0, 1, 1, 0, 1, 0.0])
                y[pos] = v
                cs.append(dict(id='r', family=fam, y=y, x=rng.normal(size=(6, 1)), pred=None, order=['deviance'], v=v, maxiter=2))
    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            fam = c['family'].split('_')[0] if not c['family'].startswith('inv') else 'inv'
            ok = okf.get(fam, lambda v: v > 0)(c['v'])
            m.true('%s accepts %r: %s' % (c['family'], c['v'], ok), (o.get('build') == 'ok') == ok, 'got %s' % o.get('build'))
            if not ok and isinstance(o.get('build'), dict):
                m.true('error kind', 'InvalidY' in o['build']['err'], o['build']['err'])
            if ok and o.get('build') == 'ok':
                m.true('%s keeps %r' % (c['family'], c['v']), o['y'] == [float(v) for v in c['y']], 'stored %s' % o['y'])
            res.append(m)
        return res
    return cs, check


def c07(rng, n):
    cs = []
    for k in range(n // 2):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)], fr=True)
        e = dict(c, id=c['id'] + 'e', fr=None)
        r = np.repeat(np.arange(len(c['y'])), c['fr'])
        for z in ('y', 'off', 'wt'):
            if c.get(z) is not None:
                e[z] = np.asarray(c[z])[r]
        e['x'] = c['x'][r]
        cs += [c, e]
    def check(cases, outs):
        res = []
        for i in range(0, len(cases), 2):
            c, o, o2 = cases[i], outs[i], outs[i + 1]
            m = Cmp(c, o)
            res.append(m)
            if o.get('build') == 'ok' and o2.get('build') == 'ok':
                m.eq('n_obs', o['n_obs'], o2['n_obs'])
                m.eq('n_eff', o['n_eff'], o2['n_eff'])
            q = Or(c, o)
            if o.get('fit') != 'ok' or o2.get('fit') != 'ok' or not q.ok() or not Or(cases[i + 1], o2).ok():
                continue
            A, B = o['Q'], o2['Q']
            for k in ('score', 'fisher'):
                m.eq(k, A.get(k), B.get(k), 1e-6)
            if abs(o['model_like'] - o2['model_like']) < 1e-7 and np.abs(q.b - np.asarray(o2['result'])).max() < 1e-5:
                for k in ('deviance', 'aic', 'bic', 'ndf', 'null_like', 'lr_test', 'wald_test_against', 'predict'):
                    m.eq(k, A.get(k), B.get(k), 1e-3)
                r = np.repeat(np.arange(len(c['y'])), c['fr'])
                for k in ('resid_resp', 'resid_pear', 'resid_work', 'resid_part'):
                    if isinstance(A.get(k), list):
                        m.eq(k, np.asarray(A[k], float)[r], B.get(k), 1e-3)
                for k in ('resid_dev',):
                    if isinstance(A.get(k), list):
                        m.eq(k, np.asarray(A[k], float)[r] ** 2, np.asarray(B[k], float) ** 2, 1e-3)
                if isinstance(A.get('leverage'), list) and isinstance(B.get('leverage'), list):
                    m.eq('leverage', (np.asarray(A['leverage']) / np.maximum(q.fr, 1))[r], B['leverage'], 1e-3)
            else:
                m.true('same optimum', abs(o['model_like'] - o2['model_like']) < 1e-3 * (1 + abs(o['model_like'])), 'likelihoods %r %r' % (o['model_like'], o2['model_like']))
        return res
    return cs, check


def istd(q, b):
    """internal coefficients"""
    t = q.cov_slice(b) * q.sig
    return np.concatenate([[b[0] + (q.mu * q.cov_slice(b)).sum()], t]) if q.ic else t


def k09(m, q, Q, o, start=False):
    if q.l1:
        return
    H = [(l, np.asarray(g)) for l, g in o['history']]
    prev = None
    for l, g in H:
        if prev is not None and np.isfinite(l):
            s = q.at(prev)
            Ds = np.column_stack([np.ones(q.n), (q.X - q.mu) / q.sig]) if q.ic else (q.X - q.mu) / q.sig
            W = q.w * s.V * s.dnat ** 2
            I = Ds.T @ (W[:, None] * Ds) + q.l2 * np.diag(np.concatenate([[0], np.ones(q.p)]) if q.ic else np.ones(q.p))
            pb = istd(q, prev)
            pv = pb.copy()
            if q.ic:
                pv[0] = 0
            gr = Ds.T @ (q.w * s.dnat * (q.y - s.mu)) - q.l2 * pv
            if np.linalg.cond(I) < 1e5 and s.V.min() > 1e-3:
                d = np.linalg.solve(I, gr)
                got = istd(q, g) - pb
                nd = np.linalg.norm(d)
                if nd > 1e-4 * (1 + np.linalg.norm(pb)):
                    t = (got @ d) / (d @ d)
                    m.true('step parallel to the Fisher-scoring step', np.linalg.norm(got - t * d) < 1e-4 * nd + 1e-8, 'got %s, scoring step %s' % (sh(got), sh(d)))
                    e = math.log2(t) if t > 0 else 0.5
                    m.true('step multiplier is a power of one half', t > 0 and abs(t - 1) < 1e-4 or t > 0 and t < 1.0001, 'multiplier %r' % t)
        prev = g


def k10(m, q, Q, o):
    H = o['history']
    for (l, g) in H:
        m.eq('history likelihood', l, q.obj(np.asarray(g)), 1e-7)
    if not q.l1:
        ls = [l for l, _ in H]
        m.true('strictly increasing', all(b > a for a, b in zip(ls, ls[1:])) , str(ls))


def k11(m, q, Q, o):
    H = o['history']
    m.eq('model_like', o['model_like'], q.obj(q.b), 1e-7)
    for (l, g) in H:
        m.eq('history likelihood', l, q.obj(np.asarray(g)), 1e-7)
    m.true('one history entry per iteration', len(H) == o['n_iter'], '%d %d' % (len(H), o['n_iter']))
    if H:
        i = max(range(len(H)), key=lambda i: H[i][0])
        best = [g for l, g in H if l == H[i][0]]
        m.true('reported likelihood is the maximum', o['model_like'] == H[i][0], '%r %r' % (o['model_like'], H[i][0]))
        m.true('reported coefficients are those of the best step', any(np.array_equal(g, o['result']) for g in best) or any(np.allclose(g, o['result'], rtol=1e-12, atol=1e-12) for g in best))


def c12(rng, n):
    base = [gen_case(rng, k, family=STABLE[k % len(STABLE)]) for k in range(n // 3)]
    cs = []
    for c in base:
        cs += [c, dict(c, maxiter=0, order=['deviance']), dict(c, maxiter=1, order=['deviance']), dict(c, maxiter=2, order=['deviance'])]
    def check(cases, outs):
        res = []
        for i in range(0, len(cases), 4):
            o = outs[i]
            m = Cmp(cases[i], o)
            res.append(m)
            if o.get('fit') != 'ok':
                continue
            for j in (1, 2, 3):
                o2, lim = outs[i + j], cases[i + j]['maxiter']
                if o2.get('fit') == 'ok':
                    m.true('no more than max_iter iterations', o2['n_iter'] <= lim, '%d > %d' % (o2['n_iter'], lim))
                    m.true('only fits that finish within the limit succeed', o['n_iter'] <= lim, 'needs %d, limit %d' % (o['n_iter'], lim))
                    m.true('same fit', o2['result'] == o['result'])
                elif isinstance(o2.get('fit'), dict):
                    e = o2['fit']['err']
                    m.true('max-iterations error', 'MaxIter' in e, e)
                    m.true('fits that finish within the limit succeed', o['n_iter'] > lim, 'needs %d, limit %d: %s' % (o['n_iter'], lim, e))
                    m.true('carries the limit', 'n_iter: %d' % lim in e or 'n_iter: %d' % (lim + 1) in e, e)
        return res
    return cs, check


def k14(m, q, Q, o):
    """L1 optimality at the reported optimum"""
    if not q.l1 or not q.p or o['n_iter'] < 3:
        return
    l1 = q.l1
    s = q.st
    g = (q.D.T @ (q.w * s.dnat * (q.y - s.mu)))
    gi = (g[1:] - (g[0] * q.mu)) / q.sig if q.ic else g / q.sig
    t = q.cov_slice(q.b) * q.sig
    gi = gi - q.l2 * t
    sc = 1 + np.abs(gi).max() + l1
    if q.ic:
        m.true('intercept stationary', abs(g[0]) < 2e-2 * sc, str(g[0]))
    m.true('sub-gradient within l1', (np.abs(gi) < l1 + 2e-2 * sc).all(), 'gradient %s, l1 %r' % (sh(gi), l1))
    nz = np.abs(t) > 1e-2
    m.true('active coefficients at the kink', (np.abs(gi[nz] - l1 * np.sign(t[nz])) < 2e-2 * sc).all(), 'gradient %s, l1 %r, coefficients %s' % (sh(gi), l1, sh(t)))


def c19(rng, n):
    cs = []
    for k in range(n // 4):
        c = gen_case(rng, k, family='linear', n=6, p=2, off=True, wt=True, fr=True)
        c['order'] = ['deviance']
        nn = len(c['y'])
        for f in ('off', 'wt', 'fr', 'y'):
            for d in (-1, 1):
                e = dict(c)
                e[f] = np.concatenate([c[f], c[f][:1]]) if d > 0 else c[f][:-1]
                e['expect'] = 'err'
                cs.append(e)
        for f in ('off', 'wt', 'fr'):
            cs.append(dict(c, twice=f, expect='err'))
            cs.append(dict({kk: v for kk, v in c.items() if kk != f}, expect='ok'))
        cs.append(dict(c, expect='ok'))
        cs.append(dict(c, expect='ok', rev=True))
        if k > 3:
            break
    cs += std_cases(rng, n // 2)
    for c in list(cs[-(n // 2):]):
        cs.append(dict(c, rev=True))
    def check(cases, outs):
        res = []
        prev = {}
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            if 'expect' in c:
                m.true('build %s' % c['expect'], o.get('build') == 'ok' if c['expect'] == 'ok' else isinstance(o.get('build'), dict) and 'err' in o['build'],
                       str(o.get('build') or o.get('panic')))
            elif o.get('fit') == 'ok':
                q = Or(c, o)
                if q.ok():
                    for k in (k03, k04, k13, k18):
                        k(m, q, o['Q'], o)
                key = c['id']
                if c.get('rev') and prev.get(key, {}).get('fit') == 'ok':
                    m.true('order of builder calls is immaterial', prev[key]['result'] == o['result'])
                prev[key] = o
            res.append(m)
        return res
    return cs, check


def c20(rng, n):
    base = [gen_case(rng, k, family=STABLE[k % len(STABLE)], n=8) for k in range(n // 3)]
    def check(cases, outs):
        res = [Cmp(c, o) for c, o in zip(cases, outs)]
        sub, back = [], []
        for i, (c, o) in enumerate(zip(cases, outs)):
            q = Or(c, o)
            L = o['Q'].get('loo_exact')
            if o.get('fit') != 'ok' or not q.ok() or not isinstance(L, list):
                continue
            for j in range(q.n):
                fr = np.array(c['fr'] if c.get('fr') is not None else np.ones(q.n, int))
                fr[j] = 0
                d = dict(c, fr=fr, id='%s_%d' % (c['id'], j), order=['deviance'], init=o['result'])
                sub.append(d)
                back.append((i, j, L))
        for (i, j, L), d, o2 in zip(back, sub, run_cases(sub)):
            if o2.get('fit') != 'ok':
                continue
            q2 = Or(d, o2)
            if not q2.ok():
                continue
            got = np.asarray(L[j], float)
            if not np.isfinite(got).all():
                continue
            a, b = q2.obj(got), q2.obj(q2.b)
            res[i].true('loo row %d optimal for the reduced data' % j, a >= b - 1e-4 * (1 + abs(b)), 'objective %r, best %r' % (a, b))
        return res
    def both(rng_, n_):
        return base, check
    return base, check


def near(a, b, tol=1e-8):
    """the same answer but for rounding"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or abs(a - b) <= tol * (1e-3 + max(abs(a), abs(b))) or (a != a and b != b)
    return a == b


def c21(rng, n):
    cs = []
    Qs = ['aic', 'bic', 'cooks', 'covariance', 'deviance', 'dispersion', 'fisher', 'hat', 'infl_coef', 'leverage', 'loo_exact', 'lr_test',
          'lr_test_against', 'ndf', 'null_like', 'predict', 'predict_train', 'resid_dev', 'resid_dev_std', 'resid_part', 'resid_pear',
          'resid_pear_std', 'resid_resp', 'resid_student', 'resid_work', 'score', 'score_test', 'score_test_against', 'test_ndf', 'wald_test',
          'wald_test_against', 'wald_z', 'pvalue_lr_test', 'pvalue_wald', 'pvalue_exact']
    for k in range(max(6, n // 6)):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)], n=9, wt=False, fr=False, nostd=False) if ODD[0] and k % 2 else gen_case(rng, k, family=STABLE[k % len(STABLE)], n=8)
        c['order'] = Qs + Qs
        cs.append(c)
        for _ in range(2):
            cs.append(dict(c, order=list(rng.permutation(Qs))))
        for qn in rng.permutation(Qs)[:6]:
            cs.append(dict(c, order=[str(qn)]))
    def check(cases, outs):
        res = []
        base = {}
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') != 'ok':
                continue
            ref = base.setdefault(c['id'], o['Q'])
            for k, v in o['q']:
                if k in ref:
                    m.true('%s does not depend on the order of queries' % k, near(v, ref[k]), '%s vs %s' % (json.dumps(v)[:80], json.dumps(ref[k])[:80]))
        return res
    return cs, check


def c23(rng, n):
    cs = []
    for k in range(n // 2):
        c = gen_case(rng, k, family=STABLE[k % len(STABLE)])
        c['order'] = ['deviance']
        if k % 2:
            c['maxiter'] = int(rng.integers(60, 200))
        if k % 3 == 0:
            c['tol'] = float(10.0 ** rng.uniform(-9, -4))
        if k % 4 == 0:
            c['init'] = np.asarray(c['alt'])
        cs.append(c)
        if 'init' in c:
            # zero iterations show the starting point only if nothing can be improved: start at the optimum
            pass
    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') != 'ok':
                continue
            p = o['options']
            m.true('l1', p['l1'] == c.get('l1', 0.0), str(p))
            m.true('l2', p['l2'] == c.get('l2', 0.0), str(p))
            m.true('max_iter', p['max_iter'] == c.get('maxiter', 128), str(p))
            m.true('tol', p['tol'] == c.get('tol', 2.220446049250313e-16), str(p))
            m.true('init', (p['init'] is None) == (c.get('init') is None) and (p['init'] is None or p['init'] == [float(t) for t in c['init']]), str(p))
        return res
    return cs, check


def c24(rng, n):
    cs = std_cases(rng, n)
    for k in range(n // 2):
        c = gen_case(rng, 10000 + k, family=ALL[k % len(ALL)], n=int(rng.integers(1, 4)) if k % 3 == 0 else None, p=int(rng.integers(0, 3)))
        if k % 2 and c['x'].shape[1] == 0:
            c['noconst'] = True
            c['alt'] = np.zeros(0)
        cs.append(c)
    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if 'panic' in o:
                m.true('no panic', 'null model' in o['panic'] or 'Could not fit' in o['panic'], o['panic'])
            for k, v in o.get('q', []):
                if isinstance(v, dict) and 'panic' in v and k not in ('resid_quantile', 'pvalue_wald', 'pvalue_lr_test', 'pvalue_exact', 'null_like', 'lr_test', 'score_test', 'wald_test', 'r_sq'):
                    m.true('%s does not panic' % k, False, 'n=%d p=%d' % c['x'].shape)
        return res
    return cs, check


TABLE = {
    'C01': c01, 'C02': simple(k02, nostd=False), 'C03': simple(k03, need_ok=False), 'C04': simple(k04), 'C05': simple(k05), 'C06': c06, 'C07': c07,
    'C08': simple(k08), 'C09': simple(k09), 'C10': simple(k10), 'C11': simple(k11), 'C12': c12, 'C13': simple(k13), 'C14': simple(k14, pen='l1'),
    'C15': simple(k15), 'C16': simple(k16), 'C17': simple(k17), 'C18': simple(k18), 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22,
    'C23': c23, 'C24': c24,
}


def k13z(m, q, Q, o):
    k13(m, q, Q, o)
    a = np.asarray(q.c['alt'])
    if np.isfinite(q.at(a).loglik) and len(a) == q.K and (q.l1 == 0 or ((np.abs(q.cov_slice(a)) > 1e-9) | (q.cov_slice(a) == 0)).all()):
        m.eq('score(alternative)', Q.get('score'), q.score(a))
    if np.isfinite(q.at(a).V).all() and len(a) == q.K:
        m.eq('fisher(alternative)', Q.get('fisher'), q.info(a))


def odd_large_penalty(rng, n):
    """responses and penalties in the thousands"""
    cs = []
    for k in range(n // 4):
        c = gen_case(rng, k, family='linear', pen=['l1', 'l1l2'][k % 2], nostd=bool(k % 3))
        u = float(10.0 ** rng.uniform(3, 6))
        c['y'] = np.asarray(c['y']) * u
        c['l1'] = u * float(rng.uniform(0.1, 3))
        c['maxiter'] = 4000
        c['order'] = ['deviance']
        cs.append(c)

    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') == 'ok':
                q = Or(c, o)
                if q.K and np.linalg.cond(q.info(q.b)) < 1e6:
                    k14(m, q, o['Q'], o)
        return res
    return cs, check


def odd_degenerate(rng, n):
    """Guesses from which the iteration overflows: an L1 fit that returns coefficients has converged, so that the intercept, which is
    not penalized, is stationary."""
    cs = []
    for k in range(n // 2):
        c = gen_case(rng, k, family=['poisson', 'exponential_log', 'gamma_log'][k % 3 if k % 2 else 0], pen='l1', noconst=False)
        c['init'] = np.zeros(len(c['alt']))
        c['init'][0] = -float(rng.uniform(0.3, 14))
        c['order'] = ['deviance']
        cs.append(c)

    def check(cases, outs):
        res = []
        for c, o in zip(cases, outs):
            m = Cmp(c, o)
            res.append(m)
            if o.get('fit') == 'ok' and o['n_iter'] >= 3:
                q = Or(c, o)
                g = (q.w * q.st.dnat * (q.y - q.st.mu)).sum()
                sc = (q.w * np.abs(q.st.dnat) * (q.y + q.st.mu)).sum()
                m.true('converged', not abs(g) > 0.05 * (1 + sc), 'gradient %r of the unpenalized intercept after %d iterations' % (g, o['n_iter']))
        return res
    return cs, check


# unusual inputs, tried only when an obligation failed or was not decided
ODDS = {
    'C01': [odd_scales], 'C02': [odd_scales], 'C05': [odd_loglinear], 'C03': [odd_loglinear], 'C04': [odd_loglinear], 'C08': [odd_scales, odd_predict],
    'C09': [odd_first_step], 'C12': [odd_degenerate], 'C14': [odd_large_penalty, odd_degenerate], 'C13': [simple(k13z, pen='l1l2'), simple(k13z, pen='l1')], 'C19': [odd_lengths, odd_stored], 'C23': [odd_first_step, odd_tol],
}


def run(prop, seed=1, n=150, odd=False):
    """-> dict(cases, compared, bad=[(case, [messages])])"""
    rng = np.random.default_rng([seed, int(prop[1:])])
    makers = [TABLE[prop]] + (ODDS.get(prop, []) if odd else [])
    ODD[0] = odd
    try:
        r = [_run(mk, rng, n) for mk in makers]
    finally:
        ODD[0] = False
    return dict(cases=sum(x['cases'] for x in r), compared=sum(x['compared'] for x in r), fits=sum(x['fits'] for x in r), bad=[b for x in r for b in x['bad']])


def _run(maker, rng, n):
    cases, check = maker(rng, n)
    outs = run_cases(cases)
    res = check(cases, outs)
    bad = [(m.c, m.bad) for m in res if m.bad]
    return dict(cases=len(cases), compared=sum(m.n for m in res), fits=sum(1 for o in outs if o.get('fit') == 'ok'), bad=bad)
