"""Discharges verification conditions: equalities and inequalities between real terms under path facts."""
import random
import struct
from fractions import Fraction
import time
import math
from . import terms as T
from .terms import P, ZERO, ONE


class Goal:
    """name, kind: 'eq' (lhs == rhs), 'true' (boolean term == 1), 'static' (already decided: ok flag)."""

    def __init__(self, name, kind, lhs, rhs=None, conds=(), facts=None, note=''):
        self.name, self.kind, self.lhs, self.rhs = name, kind, lhs, rhs
        self.conds, self.facts, self.note = list(conds), facts, note


class Result:
    def __init__(self, goal, status, backend, secs, detail=''):
        self.name, self.status, self.backend, self.secs, self.detail = goal.name, status, backend, secs, detail
        self.goal = goal

    def row(self):
        return dict(name=self.name, status=self.status, backend=self.backend, secs=round(self.secs, 4), detail=self.detail)


# denominators --------------------------------------------------------------------------------------------------
def clear_denoms(p, depth=0):
    """Multiply by (non-zero) denominators and expand; returns a polynomial that is zero iff p is."""
    for _ in range(12):
        worst = {}
        for m in p.t:
            for a, e in m:
                at = T._atom_list[a]
                if isinstance(e, int) and e < 0 and at.kind in ('R', 'v', 'sz', 'fn', 'exp', 'S', 'ln', 'inv'):
                    worst[a] = min(worst.get(a, 0), e)
                elif not isinstance(e, int) and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            break
        # all at once
        out = ZERO
        for m, c in p.t.items():
            t = T.const(c)
            exps = dict(m)
            rest = []
            for a, e in m:
                if a not in worst:
                    rest.append((a, e))
            if rest:
                t = T.mul(t, T._mk({tuple(rest): 1}))
            for a, w in worst.items():
                e = exps.get(a, 0) - w
                if e:
                    at = T._atom_list[a]
                    base = at.args[0] if at.kind == 'R' else T.ap(at)
                    t = T.mul(t, T.power(base, e))
            out = out + t
        p = out
    return p


def expand_R(p):
    """Positive integer powers of compound bases are multiplied out."""
    for _ in range(8):
        hit = False
        out = ZERO
        for m, c in p.t.items():
            t = T.const(c)
            for a, e in m:
                at = T._atom_list[a]
                if at.kind == 'R' and e >= 1:
                    k = int(math.floor(e))
                    hit = True
                    for _i in range(k):
                        t = T.mul(t, at.args[0])
                    if e - k:
                        t = T.mul(t, T.power(at.args[0], e - k))
                else:
                    t = T.mul(t, T._mk({((a, e),): 1}))
            out = out + t
        p = out
        if not hit:
            break
    return p


def zero(p):
    if p is ZERO:
        return True
    q = clear_denoms(p)
    q = expand_R(q)
    if q is ZERO:
        return True
    return False


def split_atoms(p, facts):
    """truth-valued atoms not under a binder, most frequent first"""
    cnt = {}
    for a in T.atoms_of(p, deep=True).values():
        if a.kind in T.IDEMP and not has_bound(a):
            cnt[a.id] = cnt.get(a.id, 0) + 1
    ats = [T._atom_list[i] for i in cnt]
    top = set(x for m in p.t for x, e in m)
    ats.sort(key=lambda a: (a.id not in top, a.kind == 'B', a.id))
    return ats


def has_bound(a):
    for x in a.args:
        if isinstance(x, T.Poly):
            for y in T.atoms_of(x).values():
                if y.kind == 'b':
                    return True
        elif isinstance(x, tuple):
            for z in x:
                if isinstance(z, T.Poly) and any(y.kind == 'b' for y in T.atoms_of(z).values()):
                    return True
    return False


class Budget:
    def __init__(self, secs, nodes):
        self.end, self.nodes = time.time() + secs, nodes

    def tick(self):
        self.nodes -= 1
        return self.nodes > 0 and time.time() < self.end


def prove_zero(p, facts, budget):
    """(proved, backend)"""
    p = T.kron(laws(facts.simp(p)))
    if p is ZERO:
        return 'normal form'
    if zero(p):
        return 'field normal form'
    q = facts.simp(p)
    ats = split_atoms(q, facts)
    if ats and budget.tick():
        a = ats[0]
        ok = True
        for v in (True, False):
            f = facts.copy()
            if not f.assume(T.ap(a), v):
                continue
            if not consistent(f):
                continue
            r = prove_zero(q, f, budget)
            if not r:
                ok = False
                break
        if ok:
            return 'case split'
        return None
    # a contradiction among the recorded inequalities also discharges it
    if z3_unsat(facts, None):
        return 'z3 (infeasible)'
    r = z3_unsat(facts, ('ne', q))
    if r:
        return 'z3'
    return None


LAWS = [lambda p: p]


def laws(p):
    for f in LAWS:
        p = f(p)
    return p


def consistent(facts):
    return True


# z3 ------------------------------------------------------------------------------------------------------------
_z3stats = {'calls': 0, 'secs': 0.0}


def z3_term(z3, p, vs, side):
    e = z3.RealVal(0)
    for m, c in p.t.items():
        t = z3.RealVal(str(c))
        for a, k in m:
            x = z3_atom(z3, a, vs, side)
            if isinstance(k, int):
                if k > 0:
                    for _ in range(k):
                        t = t * x
                else:
                    for _ in range(-k):
                        t = t / x
            else:
                key = ('pow', a, k)
                if key not in vs:
                    vs[key] = z3.Real('p%d_%d' % (a, len(vs)))
                    r = vs[key]
                    # nothing is known about roots of negative numbers
                    side.append(z3.Implies(x >= 0, r >= 0))
                    if k.denominator == 2:
                        # r*r = x^(2k)
                        y = z3.RealVal(1)
                        n = k.numerator
                        for _ in range(abs(n)):
                            y = y * x
                        side.append(z3.Implies(x > 0, r * r * y == 1) if n < 0 else z3.Implies(x >= 0, r * r == y))
                t = t * vs[key]
        e = e + t
    return e


def z3_atom(z3, aid, vs, side):
    a = T._atom_list[aid]
    if aid in vs:
        return vs[aid]
    if a.kind == 'R':
        v = z3.Real('a%d' % aid)
        vs[aid] = v
        side.append(v == z3_term(z3, a.args[0], vs, side))
        return v
    v = z3.Real('a%d' % aid)
    vs[aid] = v
    if a.kind in T.IDEMP:
        side.append(z3.Or(v == 0, v == 1))
        if a.kind == 'iv':
            side.append((v == 1) == (z3_term(z3, a.args[0], vs, side) > 0))
        if a.kind == 'eq':
            side.append((v == 1) == (z3_term(z3, a.args[0], vs, side) == 0))
    elif a.kind == 'exp':
        side.append(v > 0)
    elif T.atom_pos(a):
        side.append(v > 0)
    elif T.atom_nonneg(a) or a.kind in ('ix', 'sz', 'b'):
        side.append(v >= 0)
    return v


_z3memo = {}


def z3_unsat(facts, goal, timeout=3000):
    """True when facts and the negated goal ('ne', p): p != 0 / ('le', p): p <= 0 / ('isfalse', b)  are unsatisfiable."""
    key = (frozenset((c.id, v) for c, v in facts.raw), frozenset((a, v.id) for a, v in facts.m.items() if T._atom_list[a].kind in ('sz', 'ix')),
           None if goal is None else (goal[0], goal[1].id))
    if key in _z3memo:
        return _z3memo[key]
    import z3
    t0 = time.time()
    vs, side = {}, []
    s = z3.Solver()
    s.set('timeout', timeout)
    sizes = {a: v for a, v in facts.m.items() if T._atom_list[a].kind in ('sz', 'ix')}
    sub = T.Subst(sizes) if sizes else None
    try:
        for c, v in facts.raw:
            e = z3_term(z3, sub.poly(c) if sub else c, vs, side)
            s.add(e == (1 if v else 0))
        if goal is not None:
            e = z3_term(z3, goal[1], vs, side)
            s.add(e != 0 if goal[0] == 'ne' else e <= 0 if goal[0] == 'le' else e == 0)
        done = 0
        for x in side:
            s.add(x)
        r = s.check() == z3.unsat
    except Exception:
        r = False
    _z3stats['calls'] += 1
    _z3stats['secs'] += time.time() - t0
    _z3memo[key] = r
    return r


def prove_true(b, facts, budget):
    b = laws(facts.simp(P(b)))
    if b is ONE:
        return 'normal form'
    if b is ZERO:
        return 'z3 (infeasible)' if z3_unsat(facts, None) else None
    r = prove_zero(ONE - b, facts, budget)
    if r:
        return r
    # positivity of the argument of a single comparison
    f = facts.copy()
    if not f.assume(b, False):
        return 'integer facts'
    if z3_unsat(facts, ('isfalse', b)):
        return 'z3'
    return None


# refutation ----------------------------------------------------------------------------------------------------
def family_funcs():
    """A concrete response family used to look for counterexamples: A(eta) = -ln(-eta), nat(w) = -exp(-.7w-.1)."""
    N = T.NUM
    k, q = N.num(7) / 10, N.num(1) / 10
    return {
        'nat': lambda w: -N.exp(-k * w - q), 'dnat': lambda w: k * N.exp(-k * w - q), 'mean': lambda w: N.exp(k * w + q),
        'g': lambda m: (N.log(m) - q) / k, 'A': lambda e: -N.log(-e), 'A1': lambda e: -1 / e, 'A2': lambda e: 1 / e ** 2,
        'V': lambda m: m * m, 'lsat': lambda y: -1 - N.log(y), 'ddnat': lambda w: -k * k * N.exp(-k * w - q),
        'yfloat': lambda y: y, 'as_f32': lambda x: N.num(Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])), 'LLT': lambda w: -(w - k) * (w - k),
    }


def draw_for(rng):
    def draw(name, idx):
        base = name.split('#')[0]
        if name in T.INTVARS:
            return float(rng.randrange(0, 4))
        if name.startswith('y') and (len(name) == 1 or not name[1:].isalpha()):
            return rng.choice([rng.uniform(0.3, 3), 1.0, 0.5])
        if name in T.POSITIVE:
            if name in ('tol', 'eps'):
                return rng.choice([1e-3, 0.05, 0.3])
            if rng.random() < 0.06:
                return 10 ** rng.uniform(-6, 3)
            return rng.uniform(0.4, 2.0)
        if name in T.NONNEG:
            return rng.choice([0.0, rng.uniform(0.1, 2.0)])
        if name in ('l1', 'l2'):
            return rng.choice([rng.uniform(0.1, 1.5), rng.uniform(0.1, 1.5), 0.0, -0.4])
        r = rng.random()
        if r < 0.08:
            return 0.0
        if r < 0.16:
            return rng.choice([1.0, -1.0])
        return rng.uniform(-1.5, 1.5)
    return draw


_sat_memo = {}


def sample_env(goal, rng, ats):
    env = T.Env(rng, funcs=family_funcs(), draw=draw_for(rng))
    for a in ats:
        if a.kind == 'sz':
            env.sizes[a.args[0]] = rng.choice([1, 2, 3, 3, 4]) if a.args[0] != 'n' else rng.choice([2, 4, 5, 6])
    # truth variables forced by the path
    for c, v in goal.conds:
        s = c.single_atom()
        neg = False
        if s is None:
            s = (ONE - c).single_atom()
            neg = True
        if s is None:
            continue
        if s.kind == 'B':
            try:
                idx = tuple(int(round(T.evalp(x, env))) for x in s.args[1:]) if s.args[0] != 'singular' else None
            except T.EvalError:
                continue
            if idx is not None:
                env.bools[(s.args[0],) + idx] = int(v != neg)
    return env


def solve_conds(goal, env, rng, conds=None):
    """Make the sampled values satisfy the path conditions."""
    conds = goal.conds if conds is None else conds
    for _ in range(3):
        for c, v in conds:
            s = c.single_atom()
            if s is not None and s.kind == 'B' and s.args[0] == 'singular':
                if v:
                    return False
                continue
            try:
                x = T.evalp(c, env)
            except T.EvalError:
                return False
            if (x > 0.5) != bool(v) and not force(env, rng, c, v):
                return False
        # repairs may have broken earlier conditions
        env.memo.clear()
        for c, v in conds:
            s = c.single_atom()
            if s is not None and s.kind == 'B' and s.args[0] == 'singular':
                continue
            try:
                if (T.evalp(c, env) > 0.5) != bool(v):
                    break
            except T.EvalError:
                return False
        else:
            return True
    return False


def force(env, rng, c, v):
    s = c.single_atom()
    if s is None:
        s = (ONE - c).single_atom()
    return (s is not None and fix_scalar(s, env, rng, c, v)) or fix_elements(env, rng, c, v)


def fix_elements(env, rng, c, v):
    """Change array elements (one, or all of an array by a factor) until the condition has the wanted value."""
    names = {a.args[0] for a in T.atoms_of(c).values() if a.kind == 'v'}
    keys = [k for k in env.vals if k[0] in names and k[0] not in T.INTVARS]
    if not keys or len(keys) > 60:
        return False

    def holds():
        env.memo.clear()
        try:
            return (T.evalp(c, env) > 0.5) == bool(v)
        except (T.EvalError, KeyError, IndexError, OverflowError, ZeroDivisionError):
            return False
    old = dict(env.vals)
    moves = [(n, f) for n in sorted(names) for f in (0.1, 10.0, 1e-3, 0.0)] + [(k, f) for k in keys for f in (0.0, 1e-3, 5.0, -5.0, None)]
    rng.shuffle(moves)
    for n, f in moves[:24]:
        for k in keys:
            if k == n or k[0] == n:
                x = env.vals[k] * f if f is not None else rng.uniform(-3, 3)
                if k[0] in T.POSITIVE and x <= 0 or k[0] in T.NONNEG and x < 0:
                    x = abs(x) or 1e-3
                env.vals[k] = x
        if holds():
            return True
        env.vals.update(old)
    # all elements equal is a frequent special case
    for n in sorted(names):
        ks = [k for k in keys if k[0] == n]
        for x in (old[ks[0]] if ks else 0.0, 1.0, 2.0, -1.0):
            if x < 0 and (n in T.POSITIVE or n in T.NONNEG):
                continue
            for k in ks:
                env.vals[k] = x
            if holds():
                return True
            env.vals.update(old)
    env.memo.clear()
    return False


def fix_scalar(s, env, rng, c, v):
    if s.kind not in ('iv', 'eq'):
        return False
    vs = [a for a in T.atoms_of(s.args[0]).values() if a.kind in ('v', 'sz', 'ix')]
    rng.shuffle(vs)
    for a in vs[:6]:
        if a.kind == 'sz':
            old = env.sizes.get(a.args[0])
            cands = [0, 1, 2, 3, 4, 5]
            rng.shuffle(cands)
            for x in cands:
                env.sizes[a.args[0]] = x
                env.memo.clear()
                try:
                    if (T.evalp(c, env) > 0.5) == bool(v):
                        return True
                except (T.EvalError, KeyError, IndexError):
                    pass
            env.sizes[a.args[0]] = old
            continue
        if a.kind == 'ix':
            r = T._ranges.get(a.id)
            old = env.ix.get(a.args[0])
            try:
                n = int(round(T.evalp(r, env))) if r is not None else 3
            except T.EvalError:
                continue
            for x in range(n):
                env.ix[a.args[0]] = x
                env.memo.clear()
                try:
                    if (T.evalp(c, env) > 0.5) == bool(v):
                        return True
                except T.EvalError:
                    pass
            if old is not None:
                env.ix[a.args[0]] = old
            continue
        if a.kind == 'v':
            try:
                key = (a.args[0],) + tuple(int(round(T.evalp(x, env))) for x in a.args[1:])
            except T.EvalError:
                continue
            old = env.vals.get(key)
            cands = [0.0, 1.0, 3.0, 8.0] if a.args[0] in T.POSITIVE or a.args[0] in T.NONNEG else [0.0, 2.0, -2.0, 6.0, -6.0, 0.5, -0.5, 50.0, -50.0, 1e-4, -1e-4, 1e4, -1e4, 1e-12, -1e-12]
            if a.args[0] in T.POSITIVE:
                cands = [0.01, 0.2, 1.0, 3.0, 20.0, 1e-4, 1e3, 1e-9, 1e6, 1e-17, 1e12]
            # solve equalities exactly when linear
            if s.kind == 'eq' and (bool(v) == (c.single_atom() is s)):
                try:
                    env.vals[key] = 0.0
                    env.memo.clear()
                    f0 = T.evalp(s.args[0], env)
                    env.vals[key] = 1.0
                    env.memo.clear()
                    f1 = T.evalp(s.args[0], env)
                    if abs(f1 - f0) > 1e-9:
                        cands = [-f0 / (f1 - f0)] + cands
                except T.EvalError:
                    pass
            elif s.kind == 'iv' and a.args[0] not in T.INTVARS:
                # a little beyond the threshold, when linear
                try:
                    f = []
                    for x in (1.0, 2.0):
                        env.vals[key] = x
                        env.memo.clear()
                        f.append(T.evalp(s.args[0], env))
                    if abs(f[1] - f[0]) > 1e-9:
                        z = (2 * f[0] - f[1]) / (f[0] - f[1])
                        d = rng.uniform(0.1, 2) * (1 + abs(z) / 100)
                        cands = cands + [z + d, z - d]
                except T.EvalError:
                    pass
            for x in cands:
                if a.args[0] in T.POSITIVE and x <= 0:
                    continue
                if a.args[0] in T.INTVARS and abs(x - round(x)) > 1e-9:
                    continue
                env.vals[key] = x
                env.memo.clear()
                try:
                    if (T.evalp(c, env) > 0.5) == bool(v):
                        return True
                except T.EvalError:
                    pass
            if old is not None:
                env.vals[key] = old
            env.memo.clear()
    return False


def refute(goal, tries=250, secs=20, seed=1):
    """A valuation satisfying the path conditions under which the goal is false."""
    rng = random.Random(seed)
    end = time.time() + secs
    lhs = laws(P(goal.lhs))
    rhs = laws(P(goal.rhs)) if goal.kind == 'eq' else ONE
    ats = list(T.atoms_of(lhs).values()) + list(T.atoms_of(rhs).values())
    for c, v in goal.conds:
        ats += list(T.atoms_of(c).values())
    if any(a.kind == 'B' and a.args[0] in ('is_nan', 'is_infinite') for a in ats):
        return None     # overflow is beyond the real numbers that the samples are
    # case distinctions of the goal that the path leaves open: visit both sides
    known = {x.id for c, _ in goal.conds for x in (c.single_atom(), (ONE - c).single_atom()) if x is not None}
    free = P(lhs).fv | P(rhs).fv
    for c, _ in goal.conds:
        free = free | c.fv
    cases = {a.id: T._mk({((a.id, 1),): 1}) for a in ats if a.kind in ('iv', 'eq') and a.fv <= free and a.id not in known}
    cases = list(cases.values())
    good = 0
    for t in range(tries):
        if time.time() > end:
            break
        env = sample_env(goal, rng, ats)
        try:
            if cases and t % 2:
                # a sample first, so that the condition has a value to turn over
                q = rng.choice(cases)
                was = T.evalp(q, env) > 0.5
                if not force(env, rng, q, not was):
                    continue
                if not solve_conds(goal, env, rng, goal.conds + [(q, not was)]):
                    continue
            elif not solve_conds(goal, env, rng):
                continue
            a = T.evalp(lhs, env)
            b = T.evalp(rhs, env)
        except (T.EvalError, OverflowError, ValueError, ZeroDivisionError, IndexError, KeyError):
            continue
        good += 1
        sc = 1 + abs(a) + abs(b)
        bad = abs(a - b) > 1e-6 * sc if goal.kind == 'eq' else a < 0.5
        if bad:
            if not confirmed(goal, env, lhs, rhs):
                continue
            vals = {('%s%s' % (k[0], list(k[1:]) if len(k) > 1 else '')): round(v, 6) for k, v in list(env.vals.items())[:40]}
            return dict(lhs=a, rhs=b, sizes=env.sizes, values=vals, indices=env.ix, samples=good)
        if good > 40:
            break
    return None


def confirmed(goal, env, lhs, rhs):
    """the same valuation in 60-digit arithmetic"""
    T.precise(True)
    try:
        e = T.Env(env.rng, sizes=env.sizes, funcs=family_funcs(), draw=env.draw, ixvals=env.ix, bools=env.bools)
        e.vals = {k: T.NUM.mpf(v) for k, v in env.vals.items()}
        # equalities were solved approximately: let them pass
        for c, v in goal.conds:
            s = c.single_atom() or (ONE - c).single_atom()
            if s is not None and (s.kind == 'eq' or s.kind == 'B'):
                continue
            if (T.evalp(c, e) > 0.5) != bool(v):
                return False
        a, b = T.evalp(lhs, e), T.evalp(rhs, e)
        return abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)) if goal.kind == 'eq' else a < 0.5
    except (T.EvalError, OverflowError, ValueError, ZeroDivisionError, IndexError, KeyError, TypeError):
        return False
    finally:
        T.precise(False)


def discharge(goal, secs=20):
    t0 = time.time()
    if goal.kind == 'static':
        return Result(goal, 'proved' if goal.lhs else 'refuted', 'static', 0.0, goal.note)
    budget = Budget(secs, 400)
    be = None
    for q in (P(goal.lhs),) + ((P(goal.rhs),) if goal.rhs is not None else ()):
        for a in T.atoms_of(q).values():
            r = T._ranges.get(a.id) if a.kind == 'ix' else None
            if r is not None and goal.facts.simp(r).isconst and goal.facts.simp(r).cval <= 0:
                return Result(goal, 'proved', 'no such index', time.time() - t0)
    try:
        if goal.kind == 'eq':
            be = prove_zero(P(goal.lhs) - P(goal.rhs), goal.facts, budget)
        else:
            be = prove_true(P(goal.lhs), goal.facts, budget)
    except T.TermError as e:
        return Result(goal, 'undecided', '', time.time() - t0, 'term language: %s' % e)
    if be:
        return Result(goal, 'proved', be, time.time() - t0)
    if z3_unsat(goal.facts, None):
        return Result(goal, 'proved', 'z3 (infeasible path)', time.time() - t0)
    w = refute(goal)
    if w is not None:
        w['goal'] = '%s: %s %s' % (goal.name, T.show(P(goal.lhs))[:600], ('== ' + T.show(P(goal.rhs))[:600]) if goal.kind == 'eq' else 'holds')
        w['path'] = [(T.show(c)[:200], bool(v)) for c, v in goal.conds][:30]
        return Result(goal, 'refuted', 'counterexample evaluation', time.time() - t0, w)
    return Result(goal, 'undecided', '', time.time() - t0, 'no back end decided it: %s' % T.show(P(goal.lhs) - P(goal.rhs if goal.kind == 'eq' else ONE))[:400])
