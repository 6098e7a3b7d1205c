"""C21 queries of a fit are pure.

State invariant of a fit: every lazily computed field is empty or holds the value its own definition gives.  Fit::new
establishes it (all empty).  Each unit shows for one query, started in any state satisfying the invariant, that the
answer is the one given by a fit nobody has queried yet and that the invariant holds afterwards; by induction this covers
every history of queries.  Nothing else reachable from a fit can change behind a shared reference (frame obligation)."""
from glmvc import terms as T
from glmvc.terms import P, ZERO, ONE
from glmvc.engine import Arr, Adt, Ref, Cell, NONE, Some, Lazy, Opaque, Unsupported, Poly, Closure, RESULT
from glmvc.inputs import get, lin_err
from glmvc import inputs, models
from glmvc.spec import unit

# a definition of each lazily computed field
DEFS = {'phi': 'dispersion', 'dev_terms': 'deviance_terms', 'resid_pear': 'resid_pear', 'covariance': 'covariance', 'fisher_inv': 'fisher_inv',
        'fisher_std_inv': 'fisher_std_inv', 'hat': 'hat', 'null_model': 'null_model_fit'}
QUERIES = ('aic bic cooks covariance deviance dispersion fisher hat infl_coef leverage loo_exact lr_test lr_test_against ndf null_like predict '
           'resid_dev resid_dev_std resid_part resid_pear resid_pear_std resid_resp resid_student resid_work score score_test score_test_against '
           'test_ndf wald_test wald_test_against wald_z r_sq rss pvalue_lr_test pvalue_wald pvalue_exact resid_quantile').split()
REFITTING = ('loo_exact', 'pvalue_exact')
SHARED = ('OnceCell', 'Cell', 'RefCell', 'UnsafeCell', 'Mutex', 'RwLock', 'LazyCell', 'OnceLock', 'LazyLock')


def finger(run, v, sub=None, depth=0):
    """a key that determines the content of a value; a generic index it depends on is replaced by a standard name (sub)"""
    v = run.deref_all(v)
    if isinstance(v, Poly):
        if sub is not None:
            for z in sorted(v.fv):
                if z not in sub and '%' in str(T._atom_list[z].args[0]):
                    sub[z] = T.ix('free%d' % len(sub))
            v = T.subst(v, sub)
        return ('p', v.id)
    if isinstance(v, Arr):
        ix = [T.ix('fp%d_%d' % (depth, k), s) for k, s in enumerate(v.shape)]
        return ('a', tuple(finger(run, P(s), sub, depth) for s in v.shape), finger(run, v.at(*ix), sub, depth + 1))
    if isinstance(v, Adt):
        return ('d', v.path, v.variant, tuple(finger(run, x, sub, depth) for x in v.fields))
    if isinstance(v, Opaque):
        return ('o', v.tag, tuple(finger(run, x, sub, depth) if isinstance(x, (Poly, Arr, Adt, Opaque)) else repr(x) for x in v.args))
    if isinstance(v, Closure):
        return ('c', getattr(v, 'path', repr(v)), tuple(finger(run, x, sub, depth) for x in getattr(v, 'caps', ())))
    return ('r', repr(v))


def keyed(run, args):
    """fingerprint of the arguments and the generic index they depend on (none or one)"""
    sub = {}
    fp = tuple(finger(run, a, sub) for a in args)
    if len(sub) > 1:
        raise Unsupported('arguments that depend on %d generic indices' % len(sub))
    return fp, [T.ap(T._atom_list[z]) for z in sub]


def c_regression(run, args):
    """contract of Glm::regression: its result is determined by the model and the options it is given"""
    memo = run.__dict__.setdefault('regr', {})
    k, ix = keyed(run, args)
    z = memo.setdefault(k, len(memo))
    run.coef = lambda q: (lambda m: T.var('rf%d' % z, P(m), *ix))
    if run.decide(T.boolvar('refit_fails%d' % z)):
        return models.Err(Opaque('refit_error'))
    q = inputs.Refit(run, args)
    ir = run.exec_body(*inputs.body(run, 'irls::Irls::new'), [args[0], q.guess(run.coef(q)), args[1]], {'F': models.F64})
    step = inputs.mk(run, 'irls::IrlsStep', guess=q.guess(run.coef(q)), like=T.var('refit_like%d' % z, *ix))
    data = Ref(args[0].cell, args[0].path + (('f', run.prog.fidx('model::Model', 'data')),))
    return models.Ok(run.exec_body(*inputs.body(run, 'fit::Fit::new'), [data, step, run.deref_all(ir)], {'F': models.F64}))


def c_from_dataset(run, args):
    """contract of Standardizer::from_dataset: determined by the data set"""
    memo = run.__dict__.setdefault('stdz', {})
    k, ix = keyed(run, args)
    z = memo.setdefault(k, len(memo))
    d = args[0]
    p = get(run, d, 'x').shape[1]
    ic = get(run, d, 'has_intercept')
    T.POSITIVE.add('sigR%d' % z)
    return inputs.mk(run, 'data::Standardizer', shifts=Arr((p,), lambda j: T.var('muR%d' % z, P(j), *ix) if ic is ONE else ZERO),
                     scales=Arr((p,), lambda j: T.var('sigR%d' % z, P(j), *ix)))


REG = {'glm::Glm::regression': c_regression, 'data::Standardizer::from_dataset': c_from_dataset}

# shape of the answer of each function of a fit that another unit may call: n observations, k parameters, '' a number
SHAPES = dict(aic='', bic='', cooks='n', covariance='kk', deviance='', deviance_terms='n', deviance_terms_loo='n', dispersion='', dispersion_loo='n',
              fisher='kk', fisher_inv='kk', fisher_data_std='kk', fisher_std='kk', fisher_std_inv='kk', hat='nn', infl_coef='nk', leverage='n',
              loo_exact='nk', lr_test='', lr_test_against='', ndf='', null_like='', null_model_fit=None, rank='', resid_dev='n', resid_dev_std='n',
              resid_part='nk', resid_pear='n', resid_pear_std='n', resid_resp='n', resid_student='n', resid_work='n', score='k', score_test='',
              score_test_against='', wald_test='', wald_test_against='', wald_z='k', r_sq='', rss='', dev_without_covariate='',
              pvalue_lr_test='', pvalue_wald='k', pvalue_exact='k', resid_quantile='n')
FIT = 'fit::Fit::'


def pure(name):
    """contract of a function of a fit (shown by its own unit): the answer depends on the fit and the arguments alone,
    and lazily computed fields that were empty may now hold what their definitions give"""
    def h(run, args):
        h0 = run.__dict__.get('hist')
        if h0 is None or not isinstance(args[0], Ref):
            return NotImplemented
        if isinstance(args[0].cell.v, Adt) and args[0].cell.v.path == 'fit::Fit' and not args[0].path:
            fit = args[0]
        else:
            fit = None
        if fit is None or run.deref_all(fit).fields[h0.run.prog.fidx('fit::Fit', 'data')] is not h0.f.fields[h0.run.prog.fidx('fit::Fit', 'data')]:
            return NotImplemented           # another fit
        sh = SHAPES[name]
        if name == 'resid_part':
            dims = [h0.s.n, h0.s.p]
        elif sh:
            dims = [h0.s.n if z == 'n' else h0.s.k for z in sh]
        else:
            dims = []
        key = [P(run.deref_all(a)) for a in args[1:] if isinstance(run.deref_all(a), Poly)]
        fp, ix = keyed(run, [a for a in args[1:] if not isinstance(run.deref_all(a), Poly)])
        key += ix
        memo = run.__dict__.setdefault('asked', {})
        z = memo.setdefault((name, fp), len(memo)) if fp else 0
        sym = 'c_%s%d' % (name, z)
        ret = run.prog.items[run.prog.find(FIT + name)]['body']['locals'][0]
        fallible = ret.get('d', '').endswith('Result')
        h0.may_fill(fit)
        # a generic argument: whether any fails
        anyk = [T.ix('any') if x.single_atom() is None or x.single_atom().kind in ('ix', 'sz') else x for x in key]
        if fallible and run.decide(T.boolvar('%s_fails' % sym, *anyk)):
            return lin_err(run)
        if name == 'null_model_fit':
            v = Adt('tuple', 0, (T.var('c_null_like'), Arr((h0.s.k,), lambda k: T.var('c_null_par', P(k)))))
        elif not dims:
            v = T.var(sym, *key)
        else:
            v = Arr(tuple(P(d) for d in dims), lambda *ix: T.var(sym, *(key + [P(x) for x in ix])))
        t = ret['a'][0] if fallible else ret
        if t['k'] == 'ref':
            v = Ref(Cell(v, 'answer'))
        return models.Ok(v) if fallible else v
    return h


def others(name):
    return {FIT + q: pure(q) for q in SHAPES if q != name}


def caches(prog):
    a = prog.adts.get('fit::Fit')
    if a is None:
        raise Unsupported('lost anchor: type fit::Fit')
    return [f['name'] for f in a['variants'][0]['fields'] if f['ty'].get('d', '').split('::')[-1] in SHARED]


def args_of(s, name, tag):
    """arbitrary arguments of a query, by the types of its parameters"""
    prog = s.run.prog
    it = prog.items[prog.find('fit::Fit::' + name)]
    out = []
    for t in it['body']['locals'][2:1 + it['body']['argc']]:
        byref = t['k'] == 'ref'
        u = t['t'] if byref else t
        if u.get('d', '').endswith('ArrayBase') or u.get('d', '').endswith('ArrayRef'):
            nd = [x for x in u['a'] if x.get('d', '').endswith('Dim')]
            two = '2' in repr(nd)
            if two:
                v = Arr((T.sz('rows_' + tag), s.p), lambda i, j: T.var('Z' + tag, P(i), P(j)))
            else:
                v = s.arr(s.beta('arg' + tag))
        elif u.get('d', '').endswith('Option'):
            v = Some(Ref(Cell(Arr((T.sz('rows_' + tag),), lambda i: T.var('zoff' + tag, P(i))), 'off'), ())) \
                if s.run.decide(T.boolvar('arg_off' + tag)) else NONE
        elif u.get('n') == 'usize':
            v = T.fresh_ix(s.p)
        else:
            raise Unsupported('argument of query ' + name)
        out.append(Ref(Cell(v, 'arg'), ()) if byref else v)
    return out


class Hist:
    """fits that share everything but what has been cached"""

    def __init__(self, c, s):
        self.c, self.s, self.run = c, s, c.run
        self.f = c.run.deref_all(s.fit())
        self.names = caches(c.run.prog)
        self.idx = {n: c.run.prog.fidx('fit::Fit', n) for n in self.names}
        self.memo = {}
        self.erring = set()
        self.lz = {n: [] for n in self.names}
        self.live = False                   # other functions may fill caches
        c.run.hist = self

    def fresh(self):
        return Ref(Cell(self.f, 'fit'), ())

    def ask(self, name, fit, *args):
        """run the body of a function, others by contract"""
        p, b = inputs.body(self.run, FIT + name)
        return self.run.exec_body(p, b, [fit] + list(args), {'F': models.F64})

    def value(self, fit, n):
        """what the field holds: None when empty"""
        v = self.run.deref_all(fit).fields[self.idx[n]]
        v = self.run.force(v)
        if not (isinstance(v, Adt) and v.path == 'OnceCell'):
            raise Unsupported('state of the field ' + n)
        o = self.run.force(v.fields[0])
        return self.run.deref_all(o.fields[0]) if o.variant == 1 else None

    def definition(self, n):
        if n in self.memo:
            return self.memo[n]
        live, self.live = self.live, False
        try:
            self.memo[n] = self._definition(n)
        finally:
            self.live = live
        return self.memo[n]

    def _definition(self, n):
        prog = self.run.prog
        order = [DEFS[n]] if n in DEFS else []
        for q in order + [x for x in QUERIES if x not in REFITTING]:
            try:
                prog.find(FIT + q)
            except Unsupported:
                continue
            f = self.fresh()
            r = self.run.deref_all(self.ask(q, f, *args_of(self.s, q, 'o')))
            v = self.value(f, n)
            if v is None and isinstance(r, Adt) and r.path == RESULT and r.variant == 1:
                self.erring.add(n)
            if v is not None or q == DEFS.get(n):
                return v
        return None

    def lazy(self, n, when=''):
        def make(r):
            if r.decide(T.boolvar('cached_' + n + when)):
                v = self.definition(n)
                if v is not None:
                    return Adt('OnceCell', 0, (Some(v),))
            return inputs.empty_cell()
        z = Lazy('cache ' + n, make)
        self.lz[n].append(z)
        return z

    def any_state(self):
        fs = list(self.f.fields)
        for n in self.names:
            fs[self.idx[n]] = self.lazy(n)
        return Ref(Cell(Adt(self.f.path, self.f.variant, fs, self.f.args), 'fit'), ())

    def may_fill(self, fit):
        """another function has run: what was empty may be filled now"""
        if not self.live:
            return
        for n in self.names:
            x = self.run.deref_all(fit).fields[self.idx[n]]
            if isinstance(x, Lazy) and x.cell.v is None:
                continue
            if self.value(fit, n) is None:
                inputs.put(self.run, fit, n, self.lazy(n, '_%d' % len(self.lz[n])))

    def invariant(self, fit):
        v = self.run.deref_all(fit)
        for n in self.names:
            x = v.fields[self.idx[n]]
            if any(x is z for z in self.lz[n]) and x.cell.v is None:
                continue                        # not looked at
            got = self.value(fit, n)
            if got is not None:
                want = self.definition(n)
                if want is None and n in self.erring:
                    continue                    # on this path the defining computation reports an error
                if want is None:
                    raise Unsupported('no definition of the field ' + n)
                self.c.same('%s holds its definition' % n, got, want)
        for k, fname in enumerate(self.run.prog.fields('fit::Fit')):
            if fname not in self.idx:
                self.c.static('%s is not changed' % fname, v.fields[k] is self.f.fields[k])


def check(c, name, mkargs):
    s = c.S()
    h = Hist(c, s)
    a = mkargs(s)
    r0 = c.run.deref_all(h.ask(name, h.fresh(), *a))
    f1 = h.any_state()
    h.live = True
    r1 = h.ask(name, f1, *a)
    h.live = False
    c.same('same answer in every history', r1, r0)
    h.invariant(f1)


def query(name, mkargs=None):
    @unit('C21', 'query ' + name, contracts=dict(REG, **others(name)))
    def _(c):
        check(c, name, mkargs or (lambda s: args_of(s, name, 'a')))


def dropped(s):
    which = 0 if s.ic and s.run.decide(T.boolvar('drop_intercept')) else 1
    if which:
        s.assume(T.iv_pos(s.p))
    j0 = T.fresh_ix(s.p, 'd')
    return [ZERO if which == 0 else (j0 + 1 if s.ic else j0)]


for _q in QUERIES:
    query(_q)
for _q in SHAPES:
    if _q not in QUERIES:
        query(_q, dropped if _q == 'dev_without_covariate' else None)


@unit('C21', 'a new fit has nothing cached', cfgs=[dict(intercept=True, std=True)])
def _(c):
    s = c.S()
    h = Hist(c, s)
    f = h.fresh()
    for n in h.names:
        c.static('%s starts empty' % n, h.value(f, n) is None)


def types_of(t, prog, seen, out):
    if not isinstance(t, dict):
        return
    if t.get('k') == 'adt':
        d = t['d']
        if d.split('::')[-1] in SHARED or '::atomic::' in d:
            out.append(d)
        if d in prog.adts and d not in seen:
            seen.add(d)
            for v in prog.adts[d]['variants']:
                for f in v['fields']:
                    if d == 'fit::Fit' and f['ty'].get('d', '').split('::')[-1] == 'OnceCell':
                        continue
                    types_of(f['ty'], prog, seen, out)
    for x in (t.get('a') or []):
        if isinstance(x, dict):
            types_of(x, prog, seen, out)
    if isinstance(t.get('t'), dict):
        types_of(t['t'], prog, seen, out)


@unit('C21', 'nothing else in a fit changes behind a shared reference', cfgs=[dict()])
def _(c):
    prog = c.run.prog
    if 'fit::Fit' not in prog.adts:
        raise Unsupported('lost anchor: type fit::Fit')
    out, seen = [], set()
    types_of({'k': 'adt', 'd': 'fit::Fit'}, prog, seen, out)
    c.static('no other interior mutability', not out, ', '.join(out))
    # the penalties are reached through a trait object
    for im in prog.impls:
        if im['trait'] == 'regularization::IrlsReg':
            types_of(im['self'], prog, seen, out)
    c.static('no other interior mutability in the penalties', not out, ', '.join(out))
    pub = set()
    for p, it in prog.items.items():
        if p.startswith('fit::Fit::') and it.get('kind') == 'AssocFn' and it.get('vis', '').startswith('Pub') and it.get('body') and it['body']['argc']:
            t = it['body']['locals'][1]
            if t['k'] == 'ref' and t['t'].get('d') == 'fit::Fit':
                pub.add(it['name'])
    new = sorted(pub - set(QUERIES))
    if new:
        raise Unsupported('queries without a unit: ' + ', '.join(new))
    c.static('every public query has a unit', True)
