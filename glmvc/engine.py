"""Symbolic verification-condition generator over the MIR of /repo's current source.

Runs a function's MIR on symbolic inputs of arbitrary size.  A path is a list of branch decisions; the function is
re-executed for each of them.  Array arguments have symbolic lengths and an element function, loops over symbolic
ranges are summarised by an inductive rule, other loops are cut with a havocked state, closures given to element-wise
operations are verified once on a generic element.
"""
import json
import struct
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE


class Unsupported(Exception):
    pass


class SideEffect(Unsupported):
    """a closure evaluated for its value alone changes a number or an array outside of it"""


class PathDrop(Exception):
    """The current path is infeasible or ends here without an obligation."""


class Diverge(Exception):
    """The program panics on this path."""

    def __init__(self, msg, kind='panic'):
        Exception.__init__(self, msg)
        self.msg = msg
        self.kind = kind


class LoopReturn(Exception):
    def __init__(self, frame, v):
        self.frame, self.v = frame, v


# values --------------------------------------------------------------------------------------------------------
class Arr:
    __slots__ = ('shape', 'fn', 'memo', 'elem', 'tag')

    def __init__(self, shape, fn, elem='num', tag=None):
        self.shape = tuple(P(s) for s in shape)
        self.fn = fn
        self.memo = {}
        self.elem = elem
        self.tag = tag

    def at(self, *idx):
        idx = tuple(P(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unsupported('rank mismatch %s %s' % (len(idx), len(self.shape)))
        k = tuple(i.id for i in idx)
        r = self.memo.get(k)
        if r is None:
            r = self.fn(*idx)
            self.memo[k] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return 'Arr%s' % (tuple(T.show(s) for s in self.shape),)


class Adt:
    __slots__ = ('path', 'variant', 'fields', 'args')

    def __init__(self, path, variant, fields, args=None):
        self.path, self.variant, self.fields, self.args = path, variant, tuple(fields), args

    def __repr__(self):
        return '%s#%s%r' % (self.path.split('::')[-1], self.variant, self.fields)


def Tuple(*xs):
    return Adt('tuple', 0, xs)


UNIT = Adt('tuple', 0, ())
OPTION, RESULT, CF = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'


def Some(x):
    return Adt(OPTION, 1, (x,))


NONE = Adt(OPTION, 0, ())


def Ok(x):
    return Adt(RESULT, 0, (x,))


def Err(x):
    return Adt(RESULT, 1, (x,))


class Cell:
    __slots__ = ('v', 'name', 'serial')
    count = 0

    def __init__(self, v=None, name=''):
        self.v, self.name = v, name
        Cell.count += 1
        self.serial = Cell.count


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell.name, self.path)


class BoxV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class MutView:
    """A mutable view of an array stored behind ref.  fwd maps view indices to array indices; inv maps array indices
    to (condition, view indices)."""
    __slots__ = ('ref', 'shape', 'fwd', 'inv')

    def __init__(self, ref, shape, fwd, inv):
        self.ref, self.shape, self.fwd, self.inv = ref, tuple(shape), fwd, inv


class ElemRef:
    __slots__ = ('ref', 'idx')

    def __init__(self, ref, idx):
        self.ref, self.idx = ref, tuple(idx)


class Closure:
    __slots__ = ('path', 'caps', 'tenv')

    def __init__(self, path, caps, tenv):
        self.path, self.caps, self.tenv = path, tuple(caps), tenv


class FnV:
    __slots__ = ('c', 'tenv')

    def __init__(self, c, tenv):
        self.c, self.tenv = c, tenv


class PyFn:
    """A function given by its specification (used for abstract arguments of type Fn)."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Iter:
    """A (possibly lazy) iterator: n items, item(i) computed on demand."""
    __slots__ = ('n', 'item', 'pos', 'src')

    def __init__(self, n, item, pos=ZERO, src=None):
        self.n, self.item, self.pos, self.src = P(n), item, P(pos), src


class Seq:
    """A growing sequence: an unknown prefix (name, or None when empty) followed by known items."""
    __slots__ = ('base', 'items', 'mapped')

    def __init__(self, base, items=(), mapped=None):
        self.base, self.items, self.mapped = base, tuple(items), mapped


class Slice:
    __slots__ = ('elems',)

    def __init__(self, elems):
        self.elems = tuple(elems)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Opaque:
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        self.tag, self.args = tag, tuple(args)

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


class Lazy:
    """An input whose variant is decided only when the code looks at it."""
    __slots__ = ('name', 'cell', 'mk')

    def __init__(self, name, mk):
        self.name, self.mk = name, mk
        self.cell = Cell(None, name)


class Uninit:
    pass


UNINIT = Uninit()
NAN = T.var('NaN')
INF = T.var('INF')
T.POSITIVE.add('INF')


def has_inf(p):
    return any(a == INF_ID for m in p.t for a, e in m)


def inf_sign(p):
    """sign of c*INF + finite terms"""
    sg = None
    for m, c in p.t.items():
        if any(a == INF_ID for a, e in m):
            if len(m) != 1 or m[0][1] != 1 or sg is not None:
                return None
            sg = 1 if c > 0 else -1
    return sg


INF_ID = INF.single_atom().id
EPS = T.var('eps')
T.POSITIVE.add('eps')


def isnan(p):
    return isinstance(p, Poly) and NAN.single_atom().id in {a for m in p.t for a, _ in m}


# types ---------------------------------------------------------------------------------------------------------
def tsubst(t, env):
    k = t['k']
    if k in ('param', 'cparam'):
        return env.get(t['name'], t)
    if not env:
        return t
    if k in ('adt', 'closure', 'fn', 'tuple', 'proj', 'dyn'):
        if t.get('a'):
            t = dict(t)
            t['a'] = [tsubst(x, env) for x in t['a']]
        return t
    if k in ('ref', 'ptr', 'array', 'slice'):
        t = dict(t)
        if 't' in t:
            t['t'] = tsubst(t['t'], env)
        return t
    return t


def tmatch(pat, t, env):
    k = pat['k']
    if k in ('param', 'cparam'):
        if pat['name'] in env:
            return teq(env[pat['name']], t)
        env[pat['name']] = t
        return True
    if k != t['k']:
        return False
    if k == 'adt':
        return pat['d'] == t['d'] and len(pat['a']) == len(t['a']) and all(tmatch(x, y, env) for x, y in zip(pat['a'], t['a']))
    if k == 'ref':
        return tmatch(pat['t'], t['t'], env)
    if k == 'prim':
        return pat['n'] == t['n']
    if k == 'tuple':
        return len(pat['a']) == len(t['a']) and all(tmatch(x, y, env) for x, y in zip(pat['a'], t['a']))
    return pat == t


def teq(a, b):
    return a == b


def abstract_type(t):
    return t['k'] in ('param', 'proj')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.items, self.adts, self.impls = d['items'], d['adts'], d['impls']
        self.byname = {}
        for p, it in self.items.items():
            if it.get('local') and '::tests::' not in p:
                self.byname.setdefault(it['name'], []).append(p)
        self._loops = {}

    def local(self, p):
        it = self.items.get(p)
        return it is not None and it.get('body') is not None and it.get('local')

    def fields(self, adt, variant=0):
        return [f['name'] for f in self.adts[adt]['variants'][variant]['fields']]

    def fidx(self, adt, name, variant=0):
        fs = self.fields(adt, variant)
        if name not in fs:
            raise Unsupported('lost anchor: field %s of %s' % (name, adt))
        return fs.index(name)

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name:
                return i
        raise Unsupported('lost anchor: variant %s of %s' % (name, adt))

    def find(self, path):
        """A function by path; generics and lifetimes are not compared."""
        if path in self.items:
            return path
        n = norm_path(path)
        for p in self.items:
            if norm_path(p) == n:
                return p
        raise Unsupported('lost anchor: ' + path)

    # trait resolution -----------------------------------------------------------------------------------------
    def impl_for(self, trait, selfty, targs=None, depth=0):
        """(impl, env) for a concrete self type."""
        for im in self.impls:
            if im['trait'] != trait:
                continue
            env = {}
            pat = im['self']
            if not tmatch(pat, selfty, env):
                continue
            if targs is not None and im.get('args') and len(im['args']) <= len(targs) + 1:
                # the method's own arguments may follow the trait's
                if not all(tmatch(x, y, env) for x, y in zip(im['args'][1:], targs)):
                    continue
            ok = True
            if pat['k'] == 'param':
                for subj, tr in im.get('preds', []):
                    if tr in ('std::marker::Sized',):
                        continue
                    if subj == pat and depth < 3:
                        if any(i2['trait'] == tr for i2 in self.impls):
                            if self.impl_for(tr, selfty, None, depth + 1) is None:
                                ok = False
            if ok:
                return im, env
        return None

    def assoc(self, trait, name, selfty, targs=None):
        """(item path, env) of a trait item for a concrete self type, falling back on the provided default."""
        r = self.impl_for(trait, selfty, targs)
        if r is None:
            return None
        im, env = r
        for it in im['items']:
            if it['name'] == name:
                return ('impl', it, env)
        d = trait + '::' + name
        if self.items.get(d, {}).get('body'):
            e = dict(env)
            e['Self'] = selfty
            return ('default', {'d': d}, e)
        return None

    def overridden(self, trait, name):
        return [it['d'] for im in self.impls if im['trait'] == trait for it in im['items'] if it['name'] == name]

    # loops ----------------------------------------------------------------------------------------------------
    def loops(self, path, body):
        r = self._loops.get(path)
        if r is None:
            r = self._find_loops(body)
            self._loops[path] = r
        return r

    def _find_loops(self, body):
        """header block -> set of blocks of the natural loop."""
        succ = {}
        for i, b in enumerate(body['blocks']):
            if b.get('cl'):
                continue
            succ[i] = succs(b['t'])
        # DFS for back edges
        heads = {}
        color = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        back = []
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in succ:
                    continue
                if color.get(m) == 1:
                    back.append((n, m))
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for a, ss in succ.items():
            for b in ss:
                pred.setdefault(b, []).append(a)
        for a, h in back:
            blk = heads.setdefault(h, {h})
            st = [a]
            while st:
                x = st.pop()
                if x in blk:
                    continue
                blk.add(x)
                st.extend(pred.get(x, []))
        return heads


def norm_path(p):
    out = []
    depth = 0
    i = 0
    p = p.replace("'a, ", '')
    while i < len(p):
        c = p[i]
        if c == '<' and i >= 2 and p[i - 2:i] == '::':
            # turbofish generics
            d = 0
            while i < len(p):
                if p[i] == '<':
                    d += 1
                elif p[i] == '>':
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
            out = out[:-2]
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


# facts ---------------------------------------------------------------------------------------------------------
class Facts:
    def __init__(self, m=None, raw=None):
        self.m = dict(m or {})
        self.raw = list(raw or [])
        self.sub = None

    def copy(self):
        return Facts(self.m, self.raw)

    def simp(self, p):
        if not self.m:
            return p
        if self.sub is None:
            self.sub = T.Subst(self.m)
        q = self.sub.poly(p)
        if q is not p:
            q2 = self.sub.poly(q)
            return q2
        return q

    def assume(self, c, v):
        """Record c == v.  False if this is contradictory."""
        c = self.simp(P(c))
        if c.isconst:
            return bool(c.cval) == bool(v)
        self.raw.append((c, v))
        ok = self._learn(c, v)
        if not ok:
            return False
        if not self._int_consistent():
            return False
        self._pin()
        return True

    def _pin(self):
        """a size between equal bounds is that number"""
        c, v = self.raw[-1]
        r = int_constraint(c, v)
        if not r:
            return
        for m in r[1].t:
            for x, _ in m:
                a = T._atom_list[x]
                if a.kind != 'sz' or x in self.m:
                    continue
                lo, hi, out = 0, None, set()
                for c, v in self.raw:
                    q = int_constraint(c, v)
                    if not q or any(mm and mm != ((x, 1),) for mm in q[1].t):
                        continue
                    k, b = q[1].t.get(((x, 1),), 0), q[1].t.get((), 0)
                    if not k:
                        continue
                    if q[0] == 'ge' and k > 0:
                        lo = max(lo, -(b // k))
                    elif q[0] == 'ge':
                        hi = b // -k if hi is None else min(hi, b // -k)
                    elif q[0] == 'ne' and b % k == 0:
                        out.add(-b // k)
                while lo in out:
                    lo += 1
                while hi is not None and hi in out:
                    hi -= 1
                if hi is not None and lo == hi:
                    self._set(x, lo)

    def _set(self, aid, val):
        self.m[aid] = P(val)
        self.sub = None

    def _learn(self, c, v):
        if not v:
            c1 = ONE - c
            # a negated single atom or 1 - product
            if len(c.t) == 1:
                (m, k), = c.t.items()
                if len(m) == 1 and k == 1:
                    return self._atomfact(T._atom_list[m[0][0]], 0)
                return True
            c = c1
        # c == 1
        if len(c.t) == 1:
            (m, k), = c.t.items()
            if k == 1:
                ok = True
                for a, e in m:
                    ok = ok and self._atomfact(T._atom_list[a], 1)
                return ok
            return True
        if len(c.t) == 2 and c.t.get(()) == 1:
            # 1 - monomial
            (m, k), = [(m, k) for m, k in c.t.items() if m]
            if k == -1 and len(m) == 1:
                return self._atomfact(T._atom_list[m[0][0]], 0)
            return True
        # 1 - a - b (both truth values): both zero;  product of (1-a)(1-b) etc.
        f = factor_bool(c)
        if f:
            ok = True
            for a, val in f:
                ok = ok and self._atomfact(a, val)
            return ok
        return True

    def _atomfact(self, a, val):
        cur = self.m.get(a.id)
        if cur is not None and cur.isconst:
            return cur.cval == val
        self._set(a.id, val)
        if a.kind == 'iv' and val == 1:
            neg = T.iv_pos(-a.args[0])
            s = neg.single_atom()
            if s is not None:
                self._set(s.id, 0)
        if a.kind == 'eq' and val == 1:
            # solve for a size or index if possible
            q = a.args[0]
            for m, k in sorted(q.t.items(), key=lambda z: z[0]):
                if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
                    b = T._atom_list[m[0][0]]
                    if b.kind in ('sz', 'ix') and b.id not in self.m:
                        rest = q - T.scale(T.ap(b), k)
                        if b.id in (x for mm in rest.t for x, _ in mm):
                            continue
                        self._set(b.id, T.scale(rest, -k))
                        break
        return True

    def _int_consistent(self):
        ints = []
        for c, v in self.raw:
            r = int_constraint(c, v)
            if r:
                ints.append(r)
        if len(ints) < 1:
            return True
        return lin_sat(ints)

    def entails_int(self, p):
        """p >= 0 for an integer term, from the recorded integer facts."""
        if T.int_nonneg(p):
            return True
        ints = [r for r in (int_constraint(c, v) for c, v in self.raw) if r]
        return not lin_sat(ints + [('ge', -p - 1)])


def factor_bool(c):
    """If c is a product of literals a or (1-a), list them."""
    ats = set()
    for m in c.t:
        for a, e in m:
            ats.add(a)
    if len(ats) > 6:
        return None
    out = []
    cur = c
    for a in sorted(ats):
        at = T._atom_list[a]
        if at.kind not in T.IDEMP:
            return None
        c0 = T.subst(cur, {a: ZERO})
        c1 = T.subst(cur, {a: ONE})
        if c0 is ZERO and c1 is not ZERO:
            out.append((at, 1))
            cur = c1
        elif c1 is ZERO and c0 is not ZERO:
            out.append((at, 0))
            cur = c0
    return out


def int_constraint(c, v):
    """('ge', p) meaning p>=0 / ('eq', p) / ('ne', p) when the decision is about integers."""
    s = c.single_atom()
    neg = False
    if s is None:
        s2 = (ONE - c).single_atom()
        if s2 is None:
            return None
        s, neg = s2, True
    val = bool(v) != neg
    if s.kind == 'iv' and T.is_int_poly(s.args[0]):
        return ('ge', s.args[0] - 1) if val else ('ge', -s.args[0])
    if s.kind == 'eq' and T.is_int_poly(s.args[0]):
        return ('eq', s.args[0]) if val else ('ne', s.args[0])
    return None


_linmemo = {}


def lin_sat(cons):
    import z3
    key = frozenset((k, p.id) for k, p in cons)
    if key in _linmemo:
        return _linmemo[key]
    s = z3.Solver()
    s.set('timeout', 2000)
    vs = {}

    def tr(p):
        e = z3.IntVal(0)
        for m, c in p.t.items():
            t = z3.IntVal(int(c))
            for a, k in m:
                if a not in vs:
                    vs[a] = z3.Int('v%d' % a)
                    s.add(vs[a] >= 0)
                    r = T._ranges.get(a)
                    if r is not None:
                        s.add(vs[a] < tr(r))
                for _ in range(k):
                    t = t * vs[a]
            e = e + t
        return e
    for k, p in cons:
        e = tr(p)
        s.add(e >= 0 if k == 'ge' else e == 0 if k == 'eq' else e != 0)
    r = s.check() != z3.unsat
    _linmemo[key] = r
    return r


class Dec:
    def __init__(self, pre, facts):
        self.pre = pre
        self.taken = []
        self.conds = []
        self.alts = []
        self.facts = facts


class Path:
    def __init__(self, conds, facts, value, run=None, status='ok', msg=None):
        self.conds, self.facts, self.value, self.run, self.status, self.msg = conds, facts, value, run, status, msg


MAXPATHS = 4000


class Frame:
    def __init__(self, path, body, tenv):
        self.path, self.body, self.tenv = path, body, tenv
        self.locals = [Cell(UNINIT, '%s._%d' % (path.split('::')[-1], i)) for i in range(len(body['locals']))]
        self.entered = set()
        self.unroll = {}


class Run:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.dec = Dec([], Facts())
        self.journal = None
        self.safety = []
        self.covered = set()
        self.externs = set()
        self.depth = 0
        self.counter = 0
        self.assumed = set()
        self.contracts = contracts or {}
        self.solves = []
        self.M = None
        self.nested = 0
        self.events = []
        self.hooks = {}
        self.steps = 0

    # decisions ------------------------------------------------------------------------------------------------
    def decide(self, c):
        d = self.dec
        c = d.facts.simp(P(c))
        if c.isconst:
            if c.cval not in (0, 1):
                raise Unsupported('branch on %s' % c.cval)
            return bool(c.cval)
        k = len(d.taken)
        if k < len(d.pre):
            v = d.pre[k]
        else:
            v = True
            d.alts.append(d.taken + [False])
        d.taken.append(v)
        d.conds.append((c, v))
        if not d.facts.assume(c, v):
            raise PathDrop()
        return v

    def explore(self, thunk, top=False):
        """All paths of thunk.  Effects are rolled back after each one unless this is the top level."""
        outer = self.dec
        out = []
        stack = [[]]
        sj, sc = self.journal, self.counter
        self.nested += 1
        try:
            while stack:
                pre = stack.pop()
                if len(out) > MAXPATHS:
                    raise Unsupported('too many paths')
                self.dec = Dec(pre, outer.facts.copy())
                self.journal = []
                self.counter = sc
                try:
                    v = thunk()
                    out.append(Path(self.dec.conds, self.dec.facts, v))
                except PathDrop:
                    pass
                except Diverge as e:
                    out.append(Path(self.dec.conds, self.dec.facts, None, status='diverge', msg=e))
                finally:
                    stack.extend(self.dec.alts)
                    for cell, old in reversed(self.journal):
                        cell.v = old
        finally:
            self.dec = outer
            self.journal = sj
            self.nested -= 1
        return out

    def setcell(self, cell, v):
        if self.journal is not None:
            self.journal.append((cell, cell.v))
        cell.v = v

    def fresh(self, stem):
        self.counter += 1
        return '%s#%d' % (stem, self.counter)

    def oblige(self, kind, cond, where, facts=None):
        cond = self.dec.facts.simp(P(cond))
        if cond is ONE:
            self.safety.append((kind, True, where, None, None))
            return
        self.safety.append((kind, cond, where, list(self.dec.conds), self.dec.facts.copy()))
        # continue under the assumption that it holds
        if not self.dec.facts.assume(cond, True):
            raise Diverge('%s at %s' % (kind, where), kind)

    def same_dim(self, a, b, what):
        if a is b:
            return
        d = self.dec.facts.simp(a - b)
        if d is ZERO:
            return
        if self.dec.facts.entails_int(d) and self.dec.facts.entails_int(-d):
            return
        self.oblige('shape', T.iv_eq(d), '%s: %s == %s' % (what, T.show(a), T.show(b)))

    # merging --------------------------------------------------------------------------------------------------
    def merged(self, thunk):
        serial = Cell.count

        def pure():
            v = thunk()
            for c, old in self.journal:
                if c.serial <= serial and isinstance(old, (Poly, Arr)) and c.v is not old:
                    raise SideEffect('closure with side effects')
            return v
        ps = self.explore(pure)
        good = [p for p in ps if p.status == 'ok']
        for p in ps:
            if p.status == 'diverge':
                self.safety.append((p.msg.kind, ZERO, p.msg.msg, list(self.dec.conds) + p.conds, p.facts))
        if not good:
            raise Diverge('closure always panics')
        if len(good) == 1:
            return good[0].value
        return self.merge([(pathcond(p.conds), p.value) for p in good])

    def merge(self, alts):
        vs = [self.deref_all(v) for _, v in alts]
        if all(v is vs[0] for v in vs):
            return vs[0]
        if all(isinstance(v, Poly) for v in vs):
            out = ZERO
            # fold as ite chain to keep normal form
            out = vs[-1]
            tot = ZERO
            r = ZERO
            for (c, _), v in zip(alts, vs):
                r = r + c * v
                tot = tot + c
            if tot is not ONE:
                # conditions do not visibly cover; use ite chain
                out = vs[-1]
                for (c, _), v in list(zip(alts, vs))[-2::-1]:
                    out = T.ite(c, v, out)
                return out
            return r
        v0 = vs[0]
        if all(isinstance(v, Arr) for v in vs) and all(v.shape == v0.shape for v in vs):
            return Arr(v0.shape, lambda *i: self.merge([(c, v.at(*i)) for (c, _), v in zip(alts, vs)]))
        if all(isinstance(v, Adt) and v.path == v0.path and v.variant == v0.variant and len(v.fields) == len(v0.fields) for v in vs):
            fs = []
            for k in range(len(v0.fields)):
                fs.append(self.merge([(c, v.fields[k]) for (c, _), v in zip(alts, vs)]))
            return Adt(v0.path, v0.variant, fs, v0.args)
        raise Unsupported('cannot merge %s' % ([type(v).__name__ for v in vs],))

    # memory ---------------------------------------------------------------------------------------------------
    def force(self, v):
        while isinstance(v, Lazy):
            if v.cell.v is None:
                self.setcell(v.cell, v.mk(self))
            v = v.cell.v
        return v

    def read_ref(self, r):
        if isinstance(r, Ref):
            v = self.force(r.cell.v)
            for f in r.path:
                v = self.field(v, f)
            return v
        if isinstance(r, ElemRef):
            return self.view_read(r.ref).at(*r.idx)
        if isinstance(r, BoxV):
            return self.force(r.cell.v)
        return r

    def field(self, v, f):
        v = self.force(v)
        if isinstance(v, (Ref, BoxV)):
            v = self.read_ref(v)
        if isinstance(v, Adt):
            if f[1] >= len(v.fields):
                raise Unsupported('field %r of %r' % (f, v))
            return self.force(v.fields[f[1]])
        if isinstance(v, Closure):
            return v.caps[f[1]]
        if v is UNINIT:
            raise Unsupported('read of uninitialised value')
        raise Unsupported('field of %s' % type(v).__name__)

    def write_ref(self, r, x):
        if isinstance(r, Ref):
            if not r.path:
                self.setcell(r.cell, x)
            else:
                self.setcell(r.cell, self._setpath(r.cell.v, r.path, x))
            return
        if isinstance(r, BoxV):
            self.setcell(r.cell, x)
            return
        if isinstance(r, ElemRef):
            self.elem_write(r.ref, r.idx, x)
            return
        raise Unsupported('write through %s' % type(r).__name__)

    def _setpath(self, v, path, x):
        if not path:
            return x
        v = self.force(v)
        if v is UNINIT or v is None:
            v = Adt('?', 0, ())
        f = path[0]
        if isinstance(v, Closure):
            caps = list(v.caps)
            caps[f[1]] = self._setpath(caps[f[1]], path[1:], x)
            return Closure(v.path, caps, v.tenv)
        if not isinstance(v, Adt):
            raise Unsupported('write to field of %s' % type(v).__name__)
        fs = list(v.fields)
        while len(fs) <= f[1]:
            fs.append(UNINIT)
        fs[f[1]] = self._setpath(fs[f[1]], path[1:], x)
        return Adt(v.path, v.variant, fs, v.args)

    def deref_all(self, v):
        """The value behind any number of references and boxes."""
        n = 0
        while True:
            v = self.force(v)
            if isinstance(v, (Ref, ElemRef, BoxV)):
                v = self.read_ref(v)
            elif isinstance(v, MutView):
                return self.view_read(v)
            else:
                return v
            n += 1
            if n > 40:
                raise Unsupported('reference cycle')

    def mut_target(self, v):
        """The innermost reference to the stored object (array, struct or scalar), or a MutView/ElemRef."""
        while True:
            x = self.force(v)
            if isinstance(x, (MutView, ElemRef)):
                if isinstance(x, ElemRef):
                    return x
                return x
            if isinstance(x, (Ref, BoxV)):
                y = self.read_ref(x)
                if isinstance(y, (Ref, BoxV, MutView, ElemRef)):
                    v = y
                    continue
                return Ref(x.cell) if isinstance(x, BoxV) else x
            raise Unsupported('not a mutable place: %s' % type(x).__name__)

    def view_read(self, t):
        t = self.force(t)
        if isinstance(t, MutView):
            base = self.view_read(t.ref)
            return Arr(t.shape, lambda *i: base.at(*t.fwd(*i)))
        v = self.deref_all(t) if not isinstance(t, Arr) else t
        if isinstance(v, Arr):
            return v
        raise Unsupported('array expected, got %s' % type(v).__name__)

    def array_write(self, t, new):
        """Overwrite all elements of the array designated by t with those of new (same shape)."""
        if isinstance(t, MutView):
            old = self.view_read(t.ref)

            def f(*i):
                c, vi = t.inv(*i)
                c = P(c)
                if c is ZERO:
                    return old.at(*i)
                if c is ONE:
                    return new.at(*vi)
                return T.ite(c, new.at(*vi), old.at(*i))
            self.array_write(self.mut_target(t.ref) if not isinstance(t.ref, MutView) else t.ref, Arr(old.shape, f))
            return
        self.write_ref(t, new)

    def elem_write(self, t, idx, x):
        t2 = t if isinstance(t, MutView) else self.mut_target(t)
        old = self.view_read(t2)
        x = self.deref_all(x)

        def f(*i):
            c = ONE
            for a, b in zip(i, idx):
                c = c * T.iv_eq(a - b)
            if c is ZERO:
                return old.at(*i)
            if c is ONE:
                return x
            return T.ite(c, x, old.at(*i))
        self.array_write(t2, Arr(old.shape, f))

    # places ---------------------------------------------------------------------------------------------------
    def place_ref(self, fr, place):
        """A reference to the place (Ref, ElemRef or a MutView-like value)."""
        cur = Ref(fr.locals[place[0]])
        for k, pr in enumerate(place[1]):
            if pr[0] == '*':
                v = self.read_ref(cur)
                v = self.force(v)
                if isinstance(v, (Ref, ElemRef)):
                    cur = v
                elif isinstance(v, BoxV):
                    cur = Ref(v.cell)
                else:
                    # reference to a temporary that was passed by value: keep as is
                    pass
            elif pr[0] == 'f':
                if isinstance(cur, ElemRef):
                    raise Unsupported('field of array element')
                cur = Ref(cur.cell, cur.path + (('f', pr[1]),))
            elif pr[0] == 'd':
                continue
            elif pr[0] in ('i', 'c'):
                if pr[0] == 'i':
                    idx = self.read_place(fr, [pr[1], []])
                else:
                    idx = T.const(pr[1])
                v = self.read_ref(cur)
                v = self.force(v)
                if isinstance(v, Adt) and P(idx).isconst:
                    cur = Ref(cur.cell, cur.path + (('f', int(P(idx).cval)),))
                else:
                    cur = ElemRef(cur, (idx,))
            else:
                raise Unsupported('projection %s' % pr[0])
        return cur

    def read_place(self, fr, place):
        v = self.force(fr.locals[place[0]].v)
        for pr in place[1]:
            if pr[0] == '*':
                if isinstance(v, (Ref, ElemRef, BoxV)):
                    v = self.read_ref(v)
            elif pr[0] == 'f':
                v = self.field(v, pr)
            elif pr[0] == 'd':
                v = self.force(v)
                if isinstance(v, Adt) and v.variant != pr[1]:
                    raise Unsupported('downcast to wrong variant')
            elif pr[0] in ('i', 'c'):
                v = self.force(v)
                idx = self.read_place(fr, [pr[1], []]) if pr[0] == 'i' else T.const(pr[1])
                if isinstance(v, Adt) and P(idx).isconst:
                    v = self.field(v, ('f', int(P(idx).cval)))
                elif isinstance(v, Arr):
                    v = v.at(idx)
                else:
                    raise Unsupported('index into %s' % type(v).__name__)
            else:
                raise Unsupported('projection %s' % pr[0])
            v = self.force(v)
        if v is UNINIT or v is None:
            raise Unsupported('read of uninitialised local _%d in %s' % (place[0], fr.path))
        return v

    def write_place(self, fr, place, x):
        if not place[1]:
            self.setcell(fr.locals[place[0]], x)
            return
        r = self.place_ref(fr, place)
        # MIR assignments to a place ending in * or a field
        self.write_ref(r, x)

    # operands -------------------------------------------------------------------------------------------------
    def operand(self, fr, o):
        k = o[0]
        if k in ('copy', 'move'):
            return self.read_place(fr, o[1])
        if k == 'const':
            return self.constant(fr, o[1])
        if k == 'rtcheck':
            return ZERO
        raise Unsupported('operand %s' % k)

    def constant(self, fr, c):
        k = c['k']
        if k == 'fn':
            return FnV(c, fr.tenv)
        if k == 'val':
            return const_val(c['ty'], c['val'])
        if k == 'uneval':
            if c.get('promoted') is not None:
                it = self.prog.items.get(c['d'])
                body = it['promoted'][c['promoted']]
                return self.exec_body(c['d'] + '::promoted', body, [], fr.tenv)
            if c.get('trait'):
                return self.assoc_const(fr, c)
            it = self.prog.items.get(c['d'])
            if it and it.get('body'):
                return self.exec_body(c['d'], it['body'], [], fr.tenv)
            if c.get('val') is not None:
                return const_val(c['ty'], c['val'])
        if k == 'tyconst':
            cc = c['c']
            if isinstance(cc, dict) and cc.get('k') == 'cparam':
                cc = tsubst(cc, fr.tenv)
            v = cc.get('v') if isinstance(cc, dict) else None
            if v is not None and str(v).isdigit():
                return T.const(int(v))
            if isinstance(cc, dict) and cc.get('k') == 'cparam':
                return T.sz('const ' + cc['name'])
        raise Unsupported('constant %s' % json.dumps(c)[:200])

    def assoc_const(self, fr, c):
        if c.get('trait') == 'std::mem::SizedTypeProperties' and c['name'] in ('ALIGN', 'SIZE'):
            return T.const(8)
        selfty = tsubst(c['a'][0], fr.tenv if fr else {})
        selfty = self.norm_type(selfty)
        if not abstract_type(selfty):
            r = self.prog.assoc(c['trait'], c['name'], selfty)
            if r is None:
                raise Unsupported('associated const %s' % c['name'])
            it = self.prog.items[r[1]['d']]
            return self.exec_body(r[1]['d'], it['body'], [], r[2])
        from . import models
        return models.abstract_const(self, c)

    def norm_type(self, t):
        if t['k'] == 'proj' and t.get('a'):
            s = self.norm_type(t['a'][0])
            if not abstract_type(s):
                trait = t['d'].rsplit('::', 1)[0]
                r = self.prog.impl_for(trait, s)
                if r:
                    im, env = r
                    for it in im['items']:
                        if it['name'] == t['name'] and it.get('ty'):
                            return self.norm_type(tsubst(it['ty'], env))
            t = dict(t)
            t['a'] = [s] + t['a'][1:]
        return t

    # rvalues --------------------------------------------------------------------------------------------------
    def rvalue(self, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1])
        if k == 'ref':
            r = self.place_ref(fr, rv[2])
            return r
        if k == 'bin':
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            if rv[1] in ('Div', 'Rem') and not (self.is_int_operand(fr, rv[2]) or self.is_int_operand(fr, rv[3])):
                return self.fdiv(a, b) if rv[1] == 'Div' else self.binop('Rem', a, b)
            return self.binop(rv[1], a, b)
        if k == 'un':
            a = self.operand(fr, rv[2])
            if rv[1] == 'Neg':
                return -self.num(a)
            if rv[1] == 'Not':
                return ONE - self.num(a)
            if rv[1] == 'PtrMetadata':
                v = self.deref_all(a)
                if isinstance(v, Arr):
                    return v.shape[0]
                if isinstance(v, Adt):
                    return T.const(len(v.fields))
            raise Unsupported('unary ' + rv[1])
        if k == 'discr':
            v = self.read_place(fr, rv[1])
            v = self.deref_all(v) if isinstance(v, (Ref, BoxV)) else v
            if isinstance(v, Adt):
                return T.const(self.discr_of(v))
            raise Unsupported('discriminant of %s' % type(v).__name__)
        if k == 'agg':
            ops = [self.operand(fr, o) for o in rv[2]]
            a = rv[1]
            if a[0] == 'adt':
                return Adt(a[1], a[2], ops, a[3])
            if a[0] == 'tuple':
                return Adt('tuple', 0, ops)
            if a[0] == 'array':
                return Adt('array', 0, ops)
            if a[0] == 'closure':
                return Closure(a[1], ops, fr.tenv)
            raise Unsupported('aggregate ' + str(a[0]))
        if k == 'cast':
            kind = rv[1]
            if kind == 'BoxDerefTransmute' and rv[2][0] in ('copy', 'move') and rv[2][1][1] and rv[2][1][1][-1][:2] == ['f', 0]:
                return self.read_place(fr, [rv[2][1][0], rv[2][1][1][:-1]])      # the pointer inside a box
            v = self.operand(fr, rv[2])
            if kind == 'Transmute' and rv[3].get('k') == 'prim' and not isinstance(v, Poly):
                return Opaque('address')
            if kind in ('IntToFloat', 'FloatToFloat', 'IntToInt') and rv[3].get('k') == 'prim' and isinstance(v, Poly) and not v.isconst:
                to = rv[3].get('n')
                if to in ('f32', 'u8', 'i8', 'u16', 'i16'):
                    return T.fn('as_' + to, v)      # not exact for all values
            if kind.startswith('IntToFloat') or kind.startswith('IntToInt') or kind.startswith('FloatToFloat') or kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind == 'Transmute':
                return v
            if kind == 'FloatToInt':
                v = self.num(v)
                if T.is_int_poly(v):
                    return v
            raise Unsupported('cast ' + kind)
        if k == 'repeat':
            v = self.operand(fr, rv[1])
            n = rv[2]
            n = int(n['v']) if isinstance(n, dict) else int(n)
            return Adt('array', 0, [v] * n)
        raise Unsupported('rvalue ' + k)

    def discr_of(self, v):
        if v.path in (OPTION, RESULT, CF):
            return v.variant
        a = self.prog.adts.get(v.path)
        if a:
            d = a['variants'][v.variant].get('discr')
            if d is not None:
                return int(d)
        return v.variant

    def num(self, v):
        v = self.deref_all(v)
        if isinstance(v, Poly):
            return v
        raise Unsupported('number expected, got %s' % type(v).__name__)

    def cmp(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if isnan(a) or isnan(b):
            return ONE if op == 'Ne' else ZERO
        d = a - b
        if has_inf(d):
            sg = inf_sign(d)
            if sg is None:
                raise Unsupported('comparison with infinity')
            return ONE if (op in ('Ne', 'Gt', 'Ge') if sg > 0 else op in ('Ne', 'Lt', 'Le')) else ZERO
        if op == 'Lt':
            return T.iv_pos(-d)
        if op == 'Gt':
            return T.iv_pos(d)
        if op == 'Le':
            return T.iv_ge(-d)
        if op == 'Ge':
            return T.iv_ge(d)
        if op == 'Eq':
            return T.iv_eq(d)
        if op == 'Ne':
            return ONE - T.iv_eq(d)
        raise Unsupported(op)

    def is_int_operand(self, fr, o):
        if o[0] in ('copy', 'move'):
            l, proj = o[1]
            t = fr.body['locals'][l]
            if proj:
                t = t.get('t', {}) if t.get('k') == 'ref' and len(proj) == 1 else {}
        else:
            t = o[1].get('ty', {})
        n = t.get('n', '') if t.get('k') == 'prim' else ''
        return n[:1] in ('u', 'i') and n not in ('unit',)

    def fdiv(self, a, b):
        a, b = self.num(a), self.num(b)
        return NAN if isnan(a) or isnan(b) else a / b

    def binop(self, op, a, b):
        if isinstance(a, Opaque) and a.tag == 'address':
            # compiler-inserted checks of references and boxes: never null, always aligned
            if op == 'BitAnd':
                return ZERO
            if op in ('Eq', 'Ne') and P(self.num(b)) is ZERO:
                return ZERO if op == 'Eq' else ONE
            raise Unsupported('pointer arithmetic')
        if op in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne'):
            return self.cmp(op, a, b)
        a, b = self.num(a), self.num(b)
        if op in ('Add', 'AddUnchecked'):
            return a + b
        if op in ('Sub', 'SubUnchecked'):
            return a - b
        if op in ('Mul', 'MulUnchecked'):
            return a * b
        if op == 'AddWithOverflow':
            return Tuple(a + b, ZERO)
        if op == 'MulWithOverflow':
            return Tuple(a * b, ZERO)
        if op == 'SubWithOverflow':
            return Tuple(a - b, T.iv_pos(b - a))
        if op == 'Div':
            if T.is_int_poly(a) and T.is_int_poly(b) and not (a.isconst and b.isconst and b.cval and a.cval % b.cval == 0):
                if not (a.isconst and b.isconst):
                    raise Unsupported('integer division')
                return T.const(int(a.cval) // int(b.cval))
            return a / b
        if op == 'Rem':
            if a.isconst and b.isconst:
                return T.const(a.cval % b.cval)
            raise Unsupported('remainder')
        if op == 'BitAnd':
            return a * b
        if op == 'BitOr':
            return T.lor(a, b)
        if op == 'BitXor':
            return a + b - 2 * (a * b)
        raise Unsupported('operator ' + op)

    # execution ------------------------------------------------------------------------------------------------
    def exec_body(self, path, body, args, tenv):
        if self.depth > 120:
            raise Unsupported('call depth')
        self.covered.add(path)
        fr = Frame(path, body, tenv)
        if len(args) != body['argc']:
            raise Unsupported('arity of %s: %d given, %d expected' % (path, len(args), body['argc']))
        for i, a in enumerate(args):
            fr.locals[i + 1].v = a
        self.depth += 1
        try:
            k, v = self.run_blocks(fr, 0, None)
            return v
        except LoopReturn as e:
            if e.frame is fr:
                return e.v
            raise
        finally:
            self.depth -= 1

    def run_blocks(self, fr, bb, stop):
        body = fr.body
        loops = self.prog.loops(fr.path, body) if body['blocks'] else {}
        first = True
        while True:
            if stop is not None and bb == stop and not first:
                return ('stop', None)
            self.steps += 1
            if self.steps > 400000:
                raise Unsupported('step limit')
            if bb in loops and not (stop == bb and first):
                r = self.enter_loop(fr, bb, loops[bb])
                if r is not None:
                    bb = r
                    first = False
                    continue
            first = False
            blk = body['blocks'][bb]
            for s in blk['s']:
                if s[0] == '=':
                    self.write_place(fr, s[1], self.rvalue(fr, s[2]))
                elif s[0] == 'setd':
                    v = self.read_place(fr, s[1])
                    self.write_place(fr, s[1], Adt(v.path, s[2], v.fields, v.args))
            t = blk['t']
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'return':
                return ('ret', self.force(fr.locals[0].v))
            elif k == 'drop':
                bb = t[2]
            elif k == 'switch':
                v = self.num(self.operand(fr, t[1]))
                bb = self.switch(v, t)
            elif k == 'assert':
                c = self.num(self.operand(fr, t[1]))
                if not t[2]:
                    c = ONE - c
                self.oblige('assert', c, '%s: %s' % (fr.path, str(t[3])[:80]))
                bb = t[4]
            elif k == 'call':
                r = self.call_term(fr, bb, t)
                if t[4] is None and r is not JUMP:
                    raise Diverge('call to diverging function')
                if r is JUMP:
                    bb = self.jump
                else:
                    bb = t[4]
            elif k == 'unreachable':
                raise PathDrop()
            else:
                raise Unsupported('terminator ' + k)

    def switch(self, v, t):
        v = self.dec.facts.simp(v)
        if v.isconst:
            for val, b in t[2]:
                if int(val) == v.cval:
                    return b
            return t[3]
        for val, b in t[2]:
            n = int(val)
            isbool = all(T._atom_list[a].kind in T.IDEMP for m in v.t for a, _ in m)
            if isbool and n in (0, 1):
                c = v if n == 1 else ONE - v
                if self.decide(v) == (n == 1):
                    return b
            else:
                if self.decide(T.iv_eq(v - n)):
                    return b
        return t[3]

    def call_term(self, fr, bb, t):
        f = self.operand(fr, t[1])
        args = [self.operand(fr, a) for a in t[2]]
        if isinstance(f, FnV) and f.c['name'] == 'next' and f.c.get('trait') == 'std::iter::Iterator':
            it = self.deref_all(args[0])
            if isinstance(it, Adt):
                from . import models
                it2 = models.as_iter(self, it)
                if it2 is not None:
                    it = it2
                    self.write_ref(self.mut_target(args[0]), it)
            if isinstance(it, Iter):
                return self.iter_next(fr, bb, t, args[0], it)
        r = self.call(fr, f, args)
        self.write_place(fr, t[3], r)
        return None

    def call(self, fr, f, args):
        f = self.force(f)
        if isinstance(f, (Ref, BoxV)):
            f = self.deref_all(f)
        if isinstance(f, PyFn):
            return f.f(self, *args)
        if isinstance(f, Closure):
            it = self.prog.items.get(f.path)
            if it is None or not it.get('body'):
                raise Unsupported('closure body ' + f.path)
            body = it['body']
            st = body['locals'][1]
            selfarg = Ref(Cell(f, 'closure')) if st['k'] == 'ref' else f
            if len(args) + 1 != body['argc']:
                if len(args) == 1 and isinstance(self.force(args[0]), Adt) and self.force(args[0]).path == 'tuple':
                    args = list(self.force(args[0]).fields)
            return self.exec_body(f.path, body, [selfarg] + list(args), f.tenv)
        if isinstance(f, FnV):
            from . import models
            return models.call_fn(self, f.c, f.tenv, args)
        raise Unsupported('call of %s' % type(f).__name__)

    def call_closure_elem(self, f, args):
        """Value of a closure on generic arguments, all its branches merged."""
        return self.merged(lambda: self.deref_shallow(self.call(None, f, args)))

    def deref_shallow(self, v):
        v = self.force(v)
        if isinstance(v, (Ref, ElemRef)):
            return self.deref_all(v)
        return v

    # loops ----------------------------------------------------------------------------------------------------
    def iter_next(self, fr, bb, t, itref, it):
        """Iterator::next.  Inside a loop over a symbolic number of items the loop is summarised."""
        left = it.n - it.pos
        left = self.dec.facts.simp(left)
        loops = self.prog.loops(fr.path, fr.body)
        inloop = [h for h, blks in loops.items() if bb in blks]
        tgt = self.mut_target(itref)
        if left.isconst or not inloop or (fr.path, bb, 'body') in self.hooks:
            if left.isconst:
                some = left.cval > 0
            else:
                some = self.decide(T.iv_pos(left))
            if not some:
                self.write_place(fr, t[3], NONE)
                return None
            x = it.item(it.pos)
            self.write_ref(tgt, Iter(it.n, it.item, it.pos + 1))
            self.write_place(fr, t[3], Some(x))
            return None
        return self.summarise(fr, bb, t, tgt, it, left)

    def summarise(self, fr, bb, t, tgt, it, left):
        i = T.fresh_ix(left, 'k')
        dummy = Iter(it.n, it.item, it.pos + i + 1)
        serial = Cell.count         # later cells are created inside the body

        def body(havoc):
            def go():
                if havoc:
                    for c, v in havoc.items():
                        self.setcell(c, v)
                self.write_ref(tgt, dummy)
                self.write_place(fr, t[3], Some(it.item(it.pos + i)))
                n0 = len(self.journal)
                # the dest write itself is part of the iteration
                try:
                    k, v = self.run_blocks(fr, t[4], bb_stop)
                except LoopReturn as e:
                    if e.frame is fr:
                        k, v = 'ret', e.v
                    else:
                        raise
                end = {}
                for c, old in self.journal:
                    end[c] = c.v
                return (k, v, end)
            return go
        # the block holding the call to next is where an iteration ends; statements before the call are re-run
        bb_stop = bb
        # the header may be an earlier block: stop at the call block
        known = {}
        for _ in range(4):
            ps = self.explore(body(known))
            mod = {}
            for p in ps:
                if p.status != 'ok':
                    continue
                for c in p.value[2]:
                    if c not in known and c.serial <= serial and c is not getattr(tgt, 'cell', None):
                        mod[c] = True
            if not mod:
                break
            for c in mod:
                known[c] = self.havoc_like(c.v, c)
        else:
            raise Unsupported('loop state does not stabilise')
        stops = [p for p in ps if p.status == 'ok' and p.value[0] == 'stop']
        rets = [p for p in ps if p.status == 'ok' and p.value[0] == 'ret']
        for p in ps:
            if p.status == 'diverge':
                self.safety.append((p.msg.kind, ZERO, p.msg.msg, list(self.dec.conds) + p.conds, p.facts))
        n = left
        others = self.other_state(known)
        if rets:
            flag = T.boolvar(self.fresh('loopexit'))
            if self.decide(flag):
                k = 0
                for q, p in enumerate(rets[:-1]):
                    if self.decide(T.boolvar(self.fresh('exitvia'))):
                        k = q
                        break
                else:
                    k = len(rets) - 1
                p = rets[k]
                for c, v in [(T.iv_pos(n), True)] + list(p.conds):
                    if not self.dec.facts.assume(c, v):
                        raise PathDrop()
                    self.dec.conds.append((c, v))
                raise LoopReturn(fr, p.value[1])
        # end values
        if not stops:
            # the body never completes: zero iterations only
            if self.dec.facts.assume(T.iv_eq(n), True) is False:
                raise PathDrop()
        else:
            # the iteration did not leave the loop: what all remaining paths share holds
            common = set.intersection(*[{(c.id, v) for c, v in p.conds} for p in stops]) if rets else set()
            # what does not depend on the iteration holds from here on, unless there is none
            inv = [(c, v) for c, v in stops[0].conds if (c.id, v) in common and not (c.fv & i.fv)]
            if inv and self.decide(T.iv_pos(n)):
                for c, v in inv:
                    if not self.dec.facts.assume(c, v):
                        raise PathDrop()
                    self.dec.conds.append((c, v))
            for c, h in known.items():
                pre = c.v
                try:
                    alts = [(pathcond([(q, x) for q, x in p.conds if (q.id, x) not in common]), p.value[2].get(c, h)) for p in stops]
                    v = alts[0][1] if len(alts) == 1 else self.merge(alts)
                    post = self.close_loop(i, n, pre, h, v, others(c))
                except Unsupported as e:
                    post = UNINIT
                self.setcell(c, post)
        self.write_ref(tgt, Iter(it.n, it.item, it.n))
        self.write_place(fr, t[3], NONE)
        self.events.append(('loop', fr.path, bb))
        return None

    def other_state(self, known):
        """what stands for the values, at the start of an iteration, of the loop's variables other than one"""
        names = {}

        def put(c, h):
            if isinstance(h, Poly):
                names.setdefault(c, set()).update(T.vars_of(h))
            elif isinstance(h, Arr) and h.tag:
                names.setdefault(c, set()).add(h.tag)
            elif isinstance(h, Adt):
                for x in h.fields:
                    put(c, x)
        for c, h in known.items():
            if h is not c.v:
                put(c, h)
        return lambda c: set().union(*[x for k, x in names.items() if k is not c]) if names else set()

    def each(self, it, f, spread):
        """f applied to every item in turn, for its effects"""
        n = self.dec.facts.simp(it.n - it.pos)
        if n.isconst:
            for k in range(int(n.cval)):
                self.call(None, f, spread(it.item(it.pos + k)))
            return
        i = T.fresh_ix(n, 'k')
        serial = Cell.count
        known = {}

        def go():
            for c, v in known.items():
                self.setcell(c, v)
            self.call(None, f, spread(it.item(it.pos + i)))
            return {c: c.v for c, old in self.journal}
        for _ in range(4):
            ps = self.explore(go)
            mod = [c for p in ps if p.status == 'ok' for c in p.value if c not in known and c.serial <= serial]
            if not mod:
                break
            for c in mod:
                known[c] = self.havoc_like(c.v, c)
        else:
            raise Unsupported('loop state does not stabilise')
        for p in ps:
            if p.status == 'diverge':
                self.safety.append((p.msg.kind, ZERO, p.msg.msg, list(self.dec.conds) + p.conds, p.facts))
        good = [p for p in ps if p.status == 'ok']
        if not good:
            if self.dec.facts.assume(T.iv_eq(n), True) is False:
                raise PathDrop()
            return
        others = self.other_state(known)
        for c, h in known.items():
            pre = c.v
            try:
                alts = [(pathcond(p.conds), p.value.get(c, h)) for p in good]
                post = self.close_loop(i, n, pre, h, alts[0][1] if len(alts) == 1 else self.merge(alts), others(c))
            except Unsupported:
                post = UNINIT
            self.setcell(c, post)

    def close_loop(self, i, n, pre, h, v, others=frozenset()):
        pre, v = self.force(pre), self.force(v)
        if v is h or v is pre:
            return pre
        if isinstance(pre, Poly) and isinstance(h, Poly):
            v = self.deref_all(v)
            d = v - h
            if others & T.vars_of(d):
                raise Unsupported('loop over several dependent variables')
            if not T.vars_of(h) & T.vars_of(d):
                return pre + T.Sum(i, n, d)
            if not T.vars_of(h) & T.vars_of(v):
                raise Unsupported('overwritten scalar')
            raise Unsupported('loop recurrence')
        if isinstance(pre, Arr) and isinstance(h, Arr) and isinstance(v, Arr):
            if len(v.shape) != len(pre.shape):
                raise Unsupported('array reshaped in loop')

            def in_place(idx, e, hx, hs):
                """iteration i rewrites one element from its own old value and reads no other"""
                ia = i.single_atom()
                for x in T.atoms_of(e, deep=False).values():
                    if x.kind == 'eq' and ia.id in x.fv and T.subst(e, {T.ap(x): ZERO}) is hx:
                        q = T.ap(x)
                        a, b = linear_in(x.args[0], ia)
                        if a in (ONE, -ONE) and ia.id not in b.fv:
                            break
                else:
                    raise Unsupported('loop array recurrence')
                new = T.subst(T.subst(e, {q: ONE}), {i: -b if a is ONE else b})
                for x in T.atoms_of(new).values():
                    if x is not hs and x.kind in ('v', 'B') and x.args[0] == h.tag:
                        raise Unsupported('loop array recurrence')
                old = pre.at(*idx)
                return old + T.Sum(i, n, q) * (T.subst(new, {hx: old}) - old)

            def f(*idx):
                hx = h.at(*idx)
                e = v.at(*idx)
                hs = hx.single_atom()
                d = e - hx
                vd = T.vars_of(d)
                if others & vd:
                    raise Unsupported('loop over several dependent variables')
                if h.tag not in vd:
                    return pre.at(*idx) + T.Sum(i, n, d)
                a, b = linear_in(e, hs)
                if a is None or ({h.tag} & (T.vars_of(a) | T.vars_of(b))):
                    return in_place(idx, e, hx, hs)
                # e = a*h + b with a = 1 - [k == i]
                q = ONE - a
                m = list(q.t.items())
                if len(m) == 1 and m[0][1] == 1:
                    # product of eq atoms involving i
                    ats = [T._atom_list[x] for x, ex in m[0][0]]
                    if all(z.kind in T.IDEMP for z in ats):
                        hit = T.Sum(i, n, q)
                        return pre.at(*idx) * (ONE - hit) + T.Sum(i, n, b * q)
                raise Unsupported('loop array update')
            r = Arr(pre.shape, f)
            return r
        if isinstance(pre, Adt) and isinstance(v, Adt) and isinstance(h, Adt) and pre.path == v.path and pre.variant == v.variant and len(pre.fields) == len(v.fields):
            return Adt(pre.path, pre.variant, [self.close_loop(i, n, a, b, c, others) for a, b, c in zip(pre.fields, h.fields, v.fields)], pre.args)
        raise Unsupported('loop-carried %s' % type(pre).__name__)

    def havoc_like(self, v, c=None):
        v = self.force(v)
        if isinstance(v, Poly):
            return T.var(self.fresh('h'))
        if isinstance(v, Arr):
            nm = self.fresh('H')
            return Arr(v.shape, lambda *i: T.var(nm, *i), tag=nm)
        if isinstance(v, Adt):
            return Adt(v.path, v.variant, [self.havoc_like(x) for x in v.fields], v.args)
        if isinstance(v, Seq):
            return Seq(self.fresh('S'))
        return v

    def enter_loop(self, fr, h, blks):
        """Loop header reached.  Loops driven by Iterator::next are handled there; others are cut."""
        key = h
        for b in blks:
            t = fr.body['blocks'][b]['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1].get('name') == 'next' and t[1][1].get('trait') == 'std::iter::Iterator':
                # only if this loop itself (not a nested one) is driven by it
                loops = self.prog.loops(fr.path, fr.body)
                inner = [hh for hh, bs in loops.items() if b in bs and len(bs) < len(blks)]
                if not inner:
                    return None
        st = fr.unroll.get(h)
        if st == 'cut':
            raise PathDrop()
        # discover what an iteration modifies
        known = {}

        def go():
            for c, v in known.items():
                self.setcell(c, v)
            self.journal[:] = self.journal
            fr.unroll[h] = 'disc'
            k, v = None, None
            try:
                k, v = self.run_blocks(fr, h, h)
            except LoopReturn as e:
                k = 'ret'
            except Diverge:
                k = 'div'
            end = {}
            for c, old in self.journal:
                end[c] = True
            return (k, end)
        if st == 'disc':
            return None
        for _ in range(4):
            ps = self.explore(go)
            new = {}
            for p in ps:
                if p.status == 'ok' and p.value[0] == 'stop':
                    for c in p.value[1]:
                        if c not in known:
                            new[c] = True
            if not new:
                break
            for c in new:
                known[c] = self.havoc_like(c.v)
        fr.unroll[h] = 'cut'
        for c, v in known.items():
            self.setcell(c, v)
        self.events.append(('cut', fr.path, h))
        return None


class _Jump:
    pass


JUMP = _Jump()


def linear_in(p, a):
    """p = A*a + B with A, B free of a (as an explicit factor); (None, None) if not linear."""
    A, B = ZERO, ZERO
    for m, c in p.t.items():
        hit = [e for x, e in m if x == a.id]
        if not hit:
            B = B + T._mk({m: c})
        elif hit[0] == 1:
            A = A + T._mk({tuple(z for z in m if z[0] != a.id): c})
        else:
            return None, None
    return A, B


def pathcond(conds):
    c = ONE
    for a, v in conds:
        c = c * (a if v else ONE - a)
    return c


def const_val(ty, v):
    if 'zst' in v:
        if ty['k'] == 'tuple':
            return UNIT
        if ty['k'] == 'adt':
            return Adt(ty['d'], 0, (), ty.get('a'))
        if ty['k'] == 'fn' or ty['k'] == 'closure':
            return Opaque('zst')
        return UNIT
    if 'str' in v:
        return Str(v['str'])
    if 'int' in v:
        n = int(v['int'])
        if ty['k'] == 'prim':
            name = ty['n']
            if name == 'f64':
                f = struct.unpack('<d', struct.pack('<Q', n))[0]
                return fconst(f)
            if name == 'f32':
                f = struct.unpack('<f', struct.pack('<I', n))[0]
                return fconst(f)
            if name in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128'):
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[name]
                if n >= 1 << (bits - 1):
                    n -= 1 << bits
            return T.const(n)
        return T.const(n)
    if 'ptr' in v and ty['k'] == 'ref' and ty['t']['k'] in ('array', 'slice') and ty['t']['t'].get('n') == 'u8':
        return Ref(Cell(Opaque('bytes')), ())        # format-string data
    raise Unsupported('constant value %s' % (v,))


def fconst(f):
    if f != f:
        return NAN
    if f == float('inf'):
        return INF
    if f == float('-inf'):
        return -INF
    return T.const(Fraction(f))


def run_all(prog, thunk, contracts=None, setup=None):
    """Explore every path of thunk(run); each path gets its own Run.  Returns a list of Path."""
    out = []
    stack = [[]]
    while stack:
        pre = stack.pop()
        if len(out) > MAXPATHS:
            raise Unsupported('too many paths')
        run = Run(prog, contracts)
        if setup:
            setup(run)
        run.dec = Dec(pre, Facts())
        try:
            v = thunk(run)
            out.append(Path(run.dec.conds, run.dec.facts, v, run))
        except PathDrop:
            out.append(Path(run.dec.conds, run.dec.facts, None, run, 'drop'))
        except Diverge as e:
            out.append(Path(run.dec.conds, run.dec.facts, None, run, 'diverge', e))
        stack.extend(run.dec.alts)
    return out
