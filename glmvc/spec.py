"""Contract units: what is executed symbolically and what must hold of the result.  A unit belongs to one property and
is run once per configuration; every path of the executed code yields obligations."""
import time
import traceback
from . import terms as T
from .terms import P, ZERO, ONE
from .engine import Arr, Adt, Poly, Ref, Unsupported, PathDrop, Diverge, run_all, RESULT, OPTION, Run
from . import prover
from .prover import Goal, discharge
from . import inputs

prover.LAWS[:] = [inputs.laws]
UNITS = []
CFG4 = [dict(intercept=a, std=b) for a in (True, False) for b in (True, False)]


class Unit:
    def __init__(self, prop, name, f, cfgs, anchors, tier, contracts, private=False, base=None):
        self.base = base or {}
        self.prop, self.name, self.f, self.cfgs, self.anchors, self.tier, self.contracts = prop, name, f, cfgs, anchors, tier, contracts
        self.private = private


def unit(prop, name, cfgs=None, anchors=(), tier='quick', contracts=None, private=False, base=None):
    def deco(f):
        UNITS.append(Unit(prop, name, f, CFG4 if cfgs is None else cfgs, tuple(anchors), tier, contracts, private, base))
        return f
    return deco


class Ctx:
    """Handed to the unit's function on every path."""

    def __init__(self, run, unit, cfg):
        self.run, self.unit, self.cfg = run, unit, cfg
        self.prog = run.prog
        self.goals = []
        self.weak = False

    def S(self, **kw):
        d = {k: v for k, v in self.cfg.items() if k in ('intercept', 'std')}
        d.update(kw)
        pen = self.cfg.get('pen')
        if pen is not None:
            for v, b in (('l1', 'L1' in pen), ('l2', 'L2' in pen)):
                if self.run.decide(T.iv_pos(T.var(v))) != b:
                    raise PathDrop('other configuration')
        return inputs.S(self.run, **d)

    # obligations ----------------------------------------------------------------------------------------------
    def eq(self, name, lhs, rhs):
        l, r = self.run.deref_all(lhs), P(rhs)
        if not isinstance(l, Poly):
            raise Unsupported('%s: number expected, got %s' % (name, type(l).__name__))
        self.goals.append(Goal(name, 'eq', l, r, self.run.dec.conds, self.run.dec.facts.copy()))

    def true(self, name, cond):
        self.goals.append(Goal(name, 'true', P(cond), None, self.run.dec.conds, self.run.dec.facts.copy()))

    def static(self, name, ok, note=''):
        self.goals.append(Goal(name, 'true', ONE if ok else ZERO, None, self.run.dec.conds, self.run.dec.facts.copy(), note))

    def reach(self, name):
        """never reachable"""
        self.static(name, False)

    def dim(self, name, a, b):
        a, b = P(a), P(b)
        if a is not b:
            self.eq(name, a, b)

    def arr(self, name, val, shape, f, idxs=None):
        """array equality, at generic indices (idxs: list of index tuples)"""
        val = self.run.deref_all(val)
        if not isinstance(val, Arr):
            raise Unsupported('%s: array expected, got %s' % (name, type(val).__name__))
        if len(val.shape) != len(shape):
            self.static(name + ' (rank)', False)
            return
        for k, (a, b) in enumerate(zip(val.shape, shape)):
            self.dim('%s (axis %d length)' % (name, k), a, b)
        if idxs is None:
            idxs = [tuple(T.fresh_ix(s, 'i') for s in shape)]
        for ix in idxs:
            ix = ix if isinstance(ix, tuple) else (ix,)
            lab = '' if len(idxs) == 1 else '[%s]' % ','.join('0' if P(z) is ZERO else '*' for z in ix)
            self.eq(name + lab, val.at(*ix), f(*ix))

    def same(self, name, a, b):
        """structural equality of two values"""
        f = self.run.deref_all
        a, b = f(a), f(b)
        if a is b:
            self.static(name, True)
            return
        if isinstance(a, Poly) and isinstance(b, Poly):
            self.eq(name, a, b)
        elif isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                self.static(name + ' (rank)', False)
                return
            for k, (x, y) in enumerate(zip(a.shape, b.shape)):
                self.dim('%s (axis %d length)' % (name, k), x, y)
            ix = [T.fresh_ix(z, 'i') for z in a.shape]
            self.same(name, a.at(*ix), b.at(*ix))
        elif isinstance(a, Adt) and isinstance(b, Adt):
            if a.path != b.path or a.variant != b.variant or len(a.fields) != len(b.fields):
                self.static(name, False, '%r is not %r' % (a, b))
                return
            fs = self.prog.fields(a.path, a.variant) if a.path in self.prog.adts else [str(k) for k in range(len(a.fields))]
            self.static(name + ' (shape)', True)
            for k, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.same('%s.%s' % (name, fs[k] if k < len(fs) else k), x, y)
        elif type(a) is type(b) and getattr(a, 'tag', a) == getattr(b, 'tag', b) or repr(a) == repr(b):
            self.static(name, True)
        else:
            raise Unsupported('%s: cannot compare %s with %s' % (name, type(a).__name__, type(b).__name__))

    def ok(self, v, name='result'):
        """unwrap a Result; an Err is accepted and ends the path"""
        v = self.run.deref_all(v)
        if isinstance(v, Adt) and v.path == RESULT:
            if v.variant == 1:
                raise ErrPath(self.run.deref_all(v.fields[0]))
            return self.run.deref_all(v.fields[0])
        raise Unsupported('%s is not a Result' % name)


class ErrPath(Exception):
    def __init__(self, err):
        self.err = err


def run_unit(prog, unit, cfg, safety=False, secs=20, contracts=None):
    """Execute one unit in one configuration.  Returns a plain dictionary."""
    t0 = time.time()
    out = dict(unit=unit.name, prop=unit.prop, cfg=cfg, rows=[], covered=set(), externs=set(), assumed=set(), paths=0, status='ok', msg='',
               okpaths=0, solver=0.0, modular=[])
    memo = {}
    seen_s = set()

    def thunk(run):
        c = Ctx(run, unit, cfg)
        run.ctx = c
        try:
            unit.f(c)
        except ErrPath as e:
            c.err = e.err
        return c
    try:
        cs = {}
        for k, h in dict(unit.base, **dict(unit.contracts or {}, **(contracts or {}))).items():
            try:
                cs[prog.find(k)] = h
                out['modular'].append(k)
            except Unsupported:
                pass        # no such function any more: whatever replaces it is executed instead
        paths = run_all(prog, thunk, contracts=cs)
    except Unsupported as e:
        out['status'], out['msg'] = 'unsupported', str(e)
        if 'lost anchor' in str(e):
            out['status'] = 'lost'
        return fin(out, t0)
    except T.TermError as e:
        out['status'], out['msg'] = 'unsupported', 'term language: %s' % e
        return fin(out, t0)
    except RecursionError:
        out['status'], out['msg'] = 'unsupported', 'recursion'
        return fin(out, t0)
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e:
        out['status'], out['msg'] = 'unsupported', 'engine: %s %s' % (type(e).__name__, traceback.format_exc().splitlines()[-3:])
        return fin(out, t0)
    gl = []
    for p in paths:
        r = p.run
        out['covered'] |= r.covered
        out['externs'] |= r.externs
        out['assumed'] |= r.assumed
        out['paths'] += 1
        if p.status == 'ok':
            out['okpaths'] += 1
            if not safety:
                gl += p.run.ctx.goals
        if safety:
            for kind, cond, where, conds, facts in r.safety:
                if cond is True:
                    k = (kind, where)
                    if k not in seen_s:
                        seen_s.add(k)
                        out['rows'].append(dict(name='%s: %s' % (kind, where), status='proved', backend='normal form', secs=0, detail=''))
                    continue
                gl.append(Goal('%s: %s' % (kind, where), 'true', P(cond), None, conds, facts))
            if p.status == 'diverge' and p.msg.kind != 'fit' and not is_oblige(r, p.msg):
                gl.append(Goal('panic: %s' % p.msg.msg, 'true', ZERO, None, p.conds, p.facts))
    for g in gl:
        key = (g.name, g.kind, P(g.lhs).id, None if g.rhs is None else P(g.rhs).id, tuple((c.id, v) for c, v in g.conds))
        if key in memo:
            continue
        try:
            r = discharge(g, secs)
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, OverflowError, T.TermError) as e:
            r = prover.Result(g, 'undecided', '', 0, 'prover: %s' % (e,))
        memo[key] = r
        out['rows'].append(r.row())
        out['solver'] += r.secs
        if time.time() - t0 > 600:
            out['status'], out['msg'] = 'unsupported', 'time budget'
            break
    if not safety and any(x['status'] == 'proved' and x['name'] for x in out['rows']):
        # vacuity guard: a deliberately wrong version of one obligation must not be accepted
        vac = None
        for g in gl:
            if g.kind == 'eq':
                w = discharge(Goal('canary', 'eq', P(g.lhs) + 1, g.rhs, g.conds, g.facts), 2)
                if w.backend == 'no such index':
                    continue
                vac = (vac or []) + [g.name] if w.status == 'proved' else False
                if vac is False or len(vac) > 30:
                    break
        if vac:
            out['status'], out['msg'] = 'unsupported', 'vacuous: contradictory assumptions on every path of %s' % vac[0]
    if not safety and not out['rows'] and out['status'] == 'ok':
        out['status'], out['msg'] = 'unsupported', 'vacuous: no obligation generated on %d paths' % len(paths)
    return fin(out, t0)


def is_oblige(run, e):
    """the panic is the failure of an obligation that has been recorded"""
    return any(s[1] is not True and e.msg == '%s at %s' % (s[0], s[2]) for s in run.safety)


def fin(out, t0):
    out['secs'] = round(time.time() - t0, 3)
    for k in ('covered', 'externs', 'assumed'):
        out[k] = sorted(out[k])
    return out
