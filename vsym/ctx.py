"""
Booleans over terms, path exploration by re-execution, and the solver back end.
"""
import hashlib
import itertools
import math
import time
from fractions import Fraction as F

import numpy as np
import z3

from . import terms as tm
from .terms import (T, Poly, ZERO, ONE, const, padd, psub, pneg, pmul, pscale, quick_pos,
                    quick_nonneg, const_sign, EngineUnsupported, Chunk)

z3.set_param('memory_max_size', 6000)


import os
UNK = os.environ.get('VSYM_UNK')


class PathEnd(BaseException):
    """this path is infeasible (or cut by an assumption)"""


class BudgetEnd(BaseException):
    pass


# ---------------------------------------------------------------- booleans
class SB:
    """symbolic boolean"""
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.a))
        return self._h

    def same(self, o):
        return isinstance(o, SB) and self.k == o.k and self.a == o.a

    def __eq__(self, o):
        # used both structurally (tuples of args) and by code under test on booleans
        if isinstance(o, SB):
            return self.k == o.k and self.a == o.a
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        return NotImplemented

    def __bool__(self):
        return CTX.cur.decide(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    # arithmetic on booleans forks
    def _n(self):
        return 1 if bool(self) else 0

    def __mul__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return band(self, o)
        return self._n() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __float__(self):
        return float(self._n())

    def __int__(self):
        return self._n()
    __index__ = __int__

    def __repr__(self):
        if self.k == 'cmp':
            return f'[{self.a[0]} {self.a[1]} 0]'
        if self.k == 'not':
            return f'!{self.a[0]}'
        return '(' + f' {self.k} '.join(map(repr, self.a)) + ')'

    # three-valued numeric evaluation with margins: (surely true, surely false)
    def same(self, o):
        """structurally the same"""
        if self is o:
            return True
        if self.k != o.k or len(self.a) != len(o.a):
            return False
        if self.k == 'cmp':
            return self.a[1] == o.a[1] and self.a[0] == o.a[0]
        return all(x.same(y) if isinstance(x, SB) and isinstance(y, SB) else x is y for x, y in zip(self.a, o.a))

    def ev3(self, ch):
        if self.k == 'cmp':
            d, sc = ch.poly2(self.a[0])
            op = self.a[1]
            with np.errstate(all='ignore'):
                m = 1e-9 * sc
                if op == '<':
                    return d < -m, (d > m) | ((d == 0) & (sc == 0))
                if op == '<=':
                    return (d < -m) | ((d == 0)), d > m
                return np.abs(d) <= 1e-14 * sc, np.abs(d) > m
        if self.k == 'not':
            t, f = self.a[0].ev3(ch)
            return f, t
        ts, fs = zip(*[x.ev3(ch) for x in self.a])
        if self.k == 'and':
            return np.logical_and.reduce(ts), np.logical_or.reduce(fs)
        return np.logical_or.reduce(ts), np.logical_and.reduce(fs)

    def ev(self, ch):
        if self.k == 'cmp':
            d = ch.poly(self.a[0])
            op = self.a[1]
            with np.errstate(all='ignore'):
                return d < 0 if op == '<' else (d <= 0 if op == '<=' else d == 0)
        if self.k == 'not':
            return ~self.a[0].ev(ch)
        vs = [x.ev(ch) for x in self.a]
        return np.logical_and.reduce(vs) if self.k == 'and' else np.logical_or.reduce(vs)

    def polys(self):
        if self.k == 'cmp':
            return [self.a[0]]
        out = []
        for x in self.a:
            out += x.polys()
        return out

    def cmps(self):
        if self.k == 'cmp':
            return [self]
        out = []
        for x in self.a:
            out += x.cmps()
        return out


def _poly2(self, p):
    v = self.p2cache.get(p) if hasattr(self, 'p2cache') else None
    if v is not None:
        return v
    if not hasattr(self, 'p2cache'):
        self.p2cache = {}
    s = np.zeros(self.size)
    sc = np.zeros(self.size)
    with np.errstate(all='ignore'):
        for m, c in p.t.items():
            x = self.poly(Poly({m: c}))
            s = s + x
            sc = sc + np.abs(x)
    v = (s, sc)
    self.p2cache[p] = v
    return v


Chunk.poly2 = _poly2


def _square_out(p, op):
    """c1*M1 + c2*M2 op 0 with M1, M2 >= 0, c1*c2 < 0 and a square root in one of them: compare squares"""
    (m1, c1), (m2, c2) = p.t.items()
    if c1 * c2 >= 0:
        return None
    if not any(not isinstance(e, int) and F(e).denominator == 2 for m in (m1, m2) for _, e in m):
        return None
    for m in (m1, m2):
        for a, e in m:
            if tm.asign(T.atoms[a]) not in ('pos', 'nonneg'):
                return None
            if F(e).denominator > 2 or (e < 0 and tm.asign(T.atoms[a]) != 'pos'):
                return None
    pos, neg = ((m1, c1), (m2, -c2)) if c1 > 0 else ((m2, c2), (m1, -c1))

    sq = lambda m, c: pmul(Poly({m: c}), Poly({m: c}))
    ex = psub(sq(*pos), sq(*neg))
    return cmp0(ex, op)


def cmp0(p, op):
    """p op 0 -> bool or SB.  op in '<','<=','==' """
    if p.is_constant():
        s = const_sign(p)
        return s < 0 if op == '<' else (s <= 0 if op == '<=' else s == 0)
    if quick_pos(p):
        return False
    n = pneg(p)
    if quick_pos(n):
        return op != '=='
    if op == '<=' and quick_nonneg(n):
        return True
    if op == '<' and quick_nonneg(p):
        return False
    if len(p.t) == 2:
        q = _square_out(p, op)
        if q is not None:
            return q
    # canonical: strip positive content
    c, cm, rest = tm.content(p)
    drop = []
    keep = []
    for a, e in cm:
        at = T.atoms[a]
        if at.sign == 'pos' or (op == '==' and tm.asign(at) == 'pos'):
            drop.append((a, e))
        elif isinstance(e, int) and e < 0 and e % 2 == 0:
            drop.append((a, e))
        else:
            keep.append((a, e))
    if keep:
        q = pmul(rest, Poly({tuple(sorted(keep)): F(1)}))
    else:
        q = rest
    if c < 0:
        if op == '==':
            pass
        else:
            q = pneg(q)
    if q.is_constant():
        s = const_sign(q)
        return s < 0 if op == '<' else (s <= 0 if op == '<=' else s == 0)
    return SB('cmp', (q, op))


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if x.k == 'cmp':
        p, op = x.a
        if op == '<':
            return SB('cmp', (pneg(p), '<='))
        if op == '<=':
            return SB('cmp', (pneg(p), '<'))
        return SB('not', (x,))
    if x.k == 'not':
        return x.a[0]
    if x.k == 'and':
        return SB('or', tuple(bnot(y) for y in x.a))
    return SB('and', tuple(bnot(y) for y in x.a))


def tobool(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SB):
        return x
    if hasattr(type(x), 'as_bool'):
        return x.as_bool()
    return bool(x)


def band(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        if x.k == 'and':
            out += list(x.a)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB('and', tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is False:
            continue
        if x.k == 'or':
            out += list(x.a)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SB('or', tuple(out))


def bimp(a, b):
    return bor(bnot(tobool(a)), b)


# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.trivial = 0

    def asdict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, solver_s=round(self.time, 3), by_normal_form=self.trivial)


class Trans:
    """translation of a set of booleans to z3, with axioms for the atoms."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.den = {}
        self.vars = {}
        self.inv = {}
        self.extra = []

    def _collect(self, bs):
        seen = set()
        polys = []
        todo = []
        for b in bs:
            todo += b.polys()
        while todo:
            p = todo.pop()
            for m in p.t:
                for a, e in m:
                    if isinstance(e, F):
                        d = self.den.get(a, 1)
                        self.den[a] = d * e.denominator // math.gcd(d, e.denominator)
                    if a not in seen:
                        seen.add(a)
                        at = T.atoms[a]
                        for q in at.args:
                            todo.append(q)
                        if at.kind == 'sin':
                            if at.info.id not in seen:
                                seen.add(at.info.id)
                        if at.kind == 'cos':
                            pass
                        if at.kind in ('sinhalf', 'coshalf'):
                            todo.append(at.info)
                        if at.kind == 'ite':
                            todo += at.info.polys()
                        if at.info is not None and at.kind == 'var':
                            for q in at.info:
                                todo += q.polys() if isinstance(q, SB) else []
        return seen

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            at = T.atoms[a]
            d = self.den.get(a, 1)
            if at.isint is True and at.kind != 'rint':
                v = z3.ToReal(z3.Int(f'i{a}'))
            elif d > 1:
                r = z3.Real(f'r{a}')
                self.extra.append(r >= 0)
                v = (r, d)
            else:
                v = z3.Real(f'v{a}')
            self.vars[a] = v
        return v

    def apow(self, a, e):
        """z3 term for atom^e, e>=0 (or inverse var)"""
        if e < 0:
            iv = self.inv.get(a)
            if iv is None:
                d = self.den.get(a, 1)
                iv = z3.Real(f'inv{a}')
                self.inv[a] = iv
                base = self.apow(a, F(1, d) if d > 1 else 1)
                self.extra.append(iv * base == 1)
            d = self.den.get(a, 1)
            k = int(-e * d)
            r = iv
            for _ in range(k - 1):
                r = r * iv
            return r
        v = self.var(a)
        if isinstance(v, tuple):
            r, d = v
            k = int(F(e) * d)
            out = r
            for _ in range(k - 1):
                out = out * r
            return out
        out = v
        for _ in range(int(e) - 1):
            out = out * v
        return out

    def poly(self, p):
        """z3 term of a poly"""
        s = []
        for m, c in p.t.items():
            fs = [self.apow(a, e) for a, e in m]
            cv = z3.RealVal(str(c.numerator)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
            if not fs:
                s.append(cv)
            else:
                x = fs[0]
                for f in fs[1:]:
                    x = x * f
                if c != 1:
                    x = cv * x
                s.append(x)
        if not s:
            return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def clear(self, p):
        """multiply by positive powers of positive atoms to remove negative exponents"""
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and tm.asign(T.atoms[a]) == 'pos':
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return p
        # raw multiplication without reduction (keeps atoms symbolic for the solver)
        out = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in neg.items():
                x = tm.norm_exp(d.get(a, 0) - e)
                if x == 0:
                    d.pop(a, None)
                else:
                    d[a] = x
            k = tuple(sorted(d.items()))
            out[k] = out.get(k, 0) + c
        return Poly({k: v for k, v in out.items() if v})

    def b(self, x):
        if x is True or x is False:
            return z3.BoolVal(x)
        if x.k == 'cmp':
            p, op = x.a
            t = self.poly(self.clear(p))
            if op == '<':
                return t < 0
            if op == '<=':
                return t <= 0
            return t == 0
        if x.k == 'not':
            return z3.Not(self.b(x.a[0]))
        if x.k == 'and':
            return z3.And(*[self.b(y) for y in x.a])
        return z3.Or(*[self.b(y) for y in x.a])

    def build(self, bs):
        """returns list of z3 formulas"""
        bs = list(bs)
        lem = list(self.ctx.lemmas(bs))
        allb = bs + lem
        while True:
            atoms = self._collect(allb)
            new = self.ctx.atom_axioms(atoms, self.ctx.axdone)
            fresh_ = [x for x in new if x not in allb]
            if not fresh_:
                break
            allb = allb + fresh_
            # axioms may mention new atoms: iterate a bounded number of times
            if len(allb) > 4000:
                break
        self.den = {}
        atoms = self._collect(allb)
        out = [self.b(x) for x in allb if x is not True]
        for a in sorted(atoms):
            at = T.atoms[a]
            if at.kind == 'var' or at.const or at.kind == 'pi':
                out += self.bounds(at)
        return out + self.extra, atoms

    def bounds(self, at):
        t = self.apow(at.id, 1)
        out = []
        if at.kind == 'var':
            if at.lo is not None:
                lo, strict = at.lo
                lo = self.poly(lo)
                out.append(t > lo if strict else t >= lo)
            if at.hi is not None:
                hi, strict = at.hi
                hi = self.poly(hi)
                out.append(t < hi if strict else t <= hi)
            if at.sign == 'pos':
                out.append(t > 0)
            elif at.sign == 'nonneg':
                out.append(t >= 0)
        elif at.const:
            import mpmath
            if at.kind == 'poly':
                return out
            if at.kind == 'cpow' and isinstance(at.key, (int, F)):
                return out + [t == z3.Q(F(at.key).numerator, F(at.key).denominator)]
            v = tm.mp_atom(at)
            lo = F(str(mpmath.nstr(v - abs(v) * mpmath.mpf(10) ** -17 - mpmath.mpf(10) ** -40, 22)))
            hi = F(str(mpmath.nstr(v + abs(v) * mpmath.mpf(10) ** -17 + mpmath.mpf(10) ** -40, 22)))
            out.append(t >= z3.Q(lo.numerator, lo.denominator))
            out.append(t <= z3.Q(hi.numerator, hi.denominator))
        return out


class LinTrans(Trans):
    """every monomial is a variable of its own: what is unsatisfiable so, is unsatisfiable"""

    def apow(self, a, e):
        return self.mono(((a, e),))

    def mono(self, m):
        v = self.vars.get(m)
        if v is None:
            v = z3.Real(f'm{len(self.vars)}')
            self.vars[m] = v
            sg = [tm.asign(T.atoms[a]) for a, _ in m]
            if (len(m) > 1 or m[0][1] != 1) and all(T.atoms[a].const and T.atoms[a].kind != 'poly' for a, _ in m):
                import mpmath
                x = mpmath.mpf(1)
                for a, e in m:
                    x *= mpmath.power(tm.mp_atom(T.atoms[a]), mpmath.mpf(F(e).numerator) / F(e).denominator)
                d = abs(x) * mpmath.mpf(10) ** -16
                lo, hi = [F(str(mpmath.nstr(q, 25))) for q in (x - d, x + d)]
                self.extra += [v >= z3.Q(lo.numerator, lo.denominator), v <= z3.Q(hi.numerator, hi.denominator)]
            elif all(x == 'pos' for x in sg):
                self.extra.append(v > 0)
            elif all(x in ('pos', 'nonneg') or isinstance(e, int) and e % 2 == 0 for x, (_, e) in zip(sg, m)):
                self.extra.append(v >= 0)
        return v

    def poly(self, p):
        s = []
        for m, c in p.t.items():
            cv = z3.Q(c.numerator, c.denominator)
            s.append(cv * self.mono(m) if m else cv)
        if not s:
            return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def clear(self, p):
        """divided by the constant factor of a non-constant monomial, so that the monomial appears as itself"""
        parts = [tuple(q for q in m if T.atoms[q[0]].const) for m in p.t if any(not T.atoms[a].const for a, _ in m)]
        if not parts or () in parts:
            return p
        k = max(parts, key=parts.count)
        if not all(tm.asign(T.atoms[a]) == 'pos' for a, _ in k):
            return p
        out = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in k:
                x = tm.norm_exp(d.get(a, 0) - e)
                if x == 0:
                    d.pop(a, None)
                else:
                    d[a] = x
            q = tuple(sorted(d.items()))
            out[q] = out.get(q, 0) + c
        return Poly({q: v for q, v in out.items() if v})


def _le(p, q):
    return cmp0(psub(p, q), '<=')


def _lt(p, q):
    return cmp0(psub(p, q), '<')


def _eq(p, q):
    return cmp0(psub(p, q), '==')


class Ctx:
    """one harness exploration"""

    def __init__(self, seed=1, samples=192, t_feas=1500, t_goal=15000, deadline=None,
                 max_paths=4000):
        self.seed = seed
        self.nsamples = samples
        self.t_feas = t_feas
        self.t_goal = t_goal
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.chunk = Chunk(samples)
        self.vardecl = {}
        self.sigs = {}
        self.qcache = {}
        self.work = [[]]
        self.paths = 0
        self.infeasible = 0
        self.axdone = set()
        self.user_lemmas = []
        self.ite = False
        self.extra_models = []
        self.solver_log = []
        self.acos_quad = False
        self.linspace_cut = None
        self.poisson_max = 2
        self.int_limit = 8
        self.int_cut = True
        self.cuts = {}
        self.rng_hook = None
        self.gp_hook = None

    # ----------------------------------------------------------- path state
    def start_path(self, prefix):
        self.prefix = prefix
        self.at = 0             # next entry of the prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.alive = np.ones(self.chunk.size, bool)
        self.counters = {}
        T.pathsign = {}
        self.user_lemmas = []
        self.facts = {}
        self.choices = {}
        self.used_vars = []
        self.generic = {}
        self.clamped = set()
        self.hazards = []
        self.notes = {}

    def holds_nonneg(self, p):
        """is p >= 0 on this path?"""
        c = cmp0(p, '<')
        if c is True or c is False:
            return not c
        return self.solve(list(self.pc) + [c], self.t_goal)[0] == 'unsat'

    def hazard(self, p):
        """inverse-trig argument that rounding could push past +-1"""
        if p.is_constant() or p in self.clamped:
            return
        if p not in self.hazards:
            self.hazards.append(p)

    def cut(self, msg):
        """part of the input space left out, by a stated bound"""
        self.cuts[msg] = self.cuts.get(msg, 0) + 1

    def note(self, name, value):
        self.notes.setdefault(name, []).append(value)

    def counter(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return n

    # ------------------------------------------------------------ variables
    def declare(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, slo=None, shi=None,
                cls=None, isint=False, log=False):
        """a real input variable; lo/hi logical bounds (Fraction/Poly), slo/shi sampling range"""
        a = tm.fresh(name)
        if name not in self.used_vars:
            self.used_vars.append(name)
        sig = (str(lo), str(hi), lo_strict, hi_strict, isint)
        if self.sigs.setdefault(name, sig) != sig:
            raise EngineUnsupported(f'variable {name} declared with different ranges')
        if a.lo is None and lo is not None:
            lo = lo if isinstance(lo, Poly) else const(lo)
            a.lo = (lo, lo_strict)
            if lo.is_constant():
                s = const_sign(lo)
                if s > 0 or (s == 0 and lo_strict):
                    a.sign = 'pos'
                elif s == 0:
                    a.sign = 'nonneg'
        if a.hi is None and hi is not None:
            hi = hi if isinstance(hi, Poly) else const(hi)
            a.hi = (hi, hi_strict)
        a.isint = isint
        if name not in self.chunk.vars:
            L = slo if slo is not None else (float(tm.mp_poly(a.lo[0])) if a.lo else -10.0)
            H = shi if shi is not None else (float(tm.mp_poly(a.hi[0])) if a.hi else 10.0)
            self.vardecl[name] = dict(lo=L, hi=H, cls=cls, log=log, isint=isint)
            self.chunk.vars[name] = self._sample(name, self.chunk.size)
        return tm.of_atom(a)

    def _sample(self, name, n):
        d = self.vardecl[name]
        h = int(hashlib.sha256(f'{self.seed}:{name}'.encode()).hexdigest()[:12], 16)
        rg = np.random.default_rng(h)
        L, H = d['lo'], d['hi']
        if d['log'] and L > 0:
            v = np.exp(rg.uniform(math.log(L), math.log(H), n))
        else:
            v = rg.uniform(L, H, n)
        a = tm.fresh(name)
        los = a.lo is not None and a.lo[1]
        his = a.hi is not None and a.hi[1]
        # a few boundary columns, different per variable
        idx = rg.permutation(n)
        k = max(2, n // 24)
        if not los:
            v[idx[:k]] = L
        if not his:
            v[idx[k:2 * k]] = H
        if L < 0 < H:
            v[idx[2 * k:3 * k]] = 0.0
        if d['cls'] is not None:
            prev = [x for x in self.vardecl if x != name and self.vardecl[x]['cls'] == d['cls']
                    and x in self.chunk.vars]
            if prev:
                sel = idx[3 * k:3 * k + n // 5]
                for j in sel:
                    p = prev[rg.integers(len(prev))]
                    val = self.chunk.vars[p][j]
                    if L <= val <= H:
                        v[j] = val
        if d['isint']:
            v = np.round(v)
        return v

    def add_sample(self, vals):
        """append a concrete assignment as a new column of the sample matrix"""
        n = self.chunk.size + 1
        new = Chunk(n)
        for name in self.chunk.vars:
            x = vals.get(name, self.chunk.vars[name][0])
            new.vars[name] = np.append(self.chunk.vars[name], x)
        self.chunk = new
        al = np.append(self.alive, True)
        for c in self.pc:
            t, f = c.ev3(new)
            al = al & ~f & ~np.isnan(self._nanprobe(c, new))
        self.alive = al

    def _nanprobe(self, c, ch):
        s = np.zeros(ch.size)
        for p in c.polys():
            s = s + ch.poly(p) * 0
        return np.zeros(ch.size)

    # ------------------------------------------------- interval facts
    @staticmethod
    def _split(p):
        """p = k*(q) + r with q's leading coefficient 1 and no constant term"""
        r = p.t.get((), F(0))
        ms = [m for m in p.t if m != ()]
        lead = max(ms)
        k = p.t[lead]
        return tuple(sorted((m, p.t[m] / k) for m in ms)), k, r

    def add_fact(self, c):
        if not isinstance(c, SB):
            return
        if c.k == 'and':
            for x in c.a:
                self.add_fact(x)
            return
        if c.k != 'cmp' or len(c.a[0].t) > 60:
            return
        p, op = c.a
        q, k, r = self._split(p)
        b = -r / k
        lo, los, hi, his = self.facts.get(q, (None, False, None, False))
        st = op == '<'
        if op == '==' or k > 0:        # q <= b
            if hi is None or b < hi or (b == hi and st):
                hi, his = b, st
        if op == '==' or k < 0:        # q >= b
            if lo is None or b > lo or (b == lo and st):
                lo, los = b, st
        self.facts[q] = (lo, los, hi, his)

    def by_fact(self, c):
        """True/False when an interval already known decides c, else None"""
        if isinstance(c, bool):
            return c
        if c.k in ('and', 'or'):
            rs = [self.by_fact(x) for x in c.a]
            if c.k == 'and':
                return False if any(x is False for x in rs) else (True if all(x is True for x in rs) else None)
            return True if any(x is True for x in rs) else (False if all(x is False for x in rs) else None)
        if c.k == 'not':
            r = self.by_fact(c.a[0])
            return None if r is None else not r
        if c.k != 'cmp' or not self.facts:
            return None
        p, op = c.a
        q, k, r = self._split(p)
        f = self.facts.get(q)
        if f is None:
            return None
        lo, los, hi, his = f
        b = -r / k
        if op == '==':
            if (hi is not None and (hi < b or (hi == b and his))) or (lo is not None and (lo > b or (lo == b and los))):
                return False
            if lo is not None and lo == hi == b and not los and not his:
                return True
            return None
        if k < 0:                      # q >= b (or >)
            lo, los, hi, his, b = (None if hi is None else -hi), his, (None if lo is None else -lo), los, -b
        # now: q' <= b or q' < b
        if hi is not None and (hi < b or (hi == b and (op == '<=' or his))):
            return True
        if lo is not None and (lo > b or (lo == b and (op == '<' or los))):
            return False
        return None

    # -------------------------------------------------------------- decide
    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetEnd()

    def decide(self, c, hint=None):
        if c is True or c is False:
            return c
        k = self.known.get(c)
        if k is not None:
            return k
        k = self.by_fact(c)
        if k is not None:
            return k
        self.check_deadline()
        old = self.recorded('if', c)
        if old is not None:
            v, implied = old[1:3]
        else:
            t, f = c.ev3(self.chunk)
            tok = bool(np.any(t & self.alive))
            fok = bool(np.any(f & self.alive))
            if not tok:
                tok = self.feasible(c) != 'unsat'
            if not fok:
                if not tok:
                    fok = self.feasible(bnot(c)) != 'unsat'
                else:
                    fok = self.feasible(bnot(c)) != 'unsat'
            if tok and fok:
                self.work.append(self.trace + [('if', False, False, c)])
                v, implied = True, False
            elif tok:
                v, implied = True, True
            elif fok:
                v, implied = False, True
            else:
                raise PathEnd()
        self.trace = self.trace + [('if', v, implied, c)]
        self.known[c] = v
        n = bnot(c)
        if isinstance(n, SB):
            self.known[n] = not v
        if not implied:
            self.add_constraint(c if v else n)
        else:
            self.note_sign(c if v else n)
            self.add_fact(c if v else n)
        return v

    def recorded(self, kind, key):
        """what the prefix of this path says about a decision.  What a path takes for granted can grow between its runs
        (terms learn their signs), so that implied decisions may be missing or new when it is run again"""
        j = self.at
        while j < len(self.prefix):
            e = self.prefix[j]
            if e[0] == kind and e[3] == key:
                self.at = j + 1
                return e
            if e[0] == 'choice' or not e[2]:
                break
            j += 1
        if self.at < len(self.prefix):
            e = self.prefix[self.at]
            if kind == 'if' and e[0] == 'if' and not e[2]:
                # the same decision, written differently
                self.at += 1
                return e
        return None

    def choose(self, name, n):
        """n-way configuration choice (decision without a condition); one value per name and path"""
        if name in self.choices:
            return self.choices[name]
        v = self.recorded('choice', name)
        if v is None:
            for j in range(n - 1, 0, -1):
                self.work.append(self.trace + [('choice', j, None, name)])
            v = ('choice', 0, None, name)
        self.trace = self.trace + [v]
        self.choices[name] = v[1]
        return v[1]

    def note_sign(self, c):
        """remember signs of atoms"""
        if not isinstance(c, SB):
            return
        if c.k == 'and':
            for x in c.a:
                self.note_sign(x)
            return
        if c.k != 'cmp':
            return
        p, op = c.a
        s = p.single()
        cand = None
        if s is not None and len(s[0]) == 1 and s[1] < 0 and s[0][0][1] == 1:
            cand = s[0][0][0]
        else:
            a = T.by_key.get(('poly', pneg(p)))
            if a is not None:
                cand = a.id
        if cand is not None and op in ('<', '<='):
            cur = T.pathsign.get(cand)
            if op == '<':
                T.pathsign[cand] = 'pos'
            elif cur is None:
                T.pathsign[cand] = 'nonneg'

    def add_constraint(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.add_fact(c)
        t, f = c.ev3(self.chunk)
        self.alive = self.alive & ~f & (t | ~f)
        # columns where the condition is numerically undecided are dropped
        self.alive = self.alive & (t | (~t & ~f & self._near(c)))
        self.note_sign(c)

    def _near(self, c):
        # undecided within margin: only keep for non-strict/equality conditions
        if c.k == 'cmp' and c.a[1] in ('<=', '=='):
            d, sc = self.chunk.poly2(c.a[0])
            return np.abs(d) <= 1e-12 * sc
        return np.zeros(self.chunk.size, bool)

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if c in self.known:
            if self.known[c]:
                return
            raise PathEnd()
        k = self.by_fact(c)
        if k is not None:
            if k:
                return
            raise PathEnd()
        self.known[c] = True
        self.add_constraint(c)
        n = bnot(c)
        if isinstance(n, SB):
            self.known[n] = False
        if not np.any(self.alive):
            old = self.recorded('assume', c)
            if old is not None:
                r = old[1]
            else:
                r = self.solve(self.pc, self.t_feas)[0]
            self.trace = self.trace + [('assume', r, True, c)]
            if r == 'unsat':
                raise PathEnd()

    # -------------------------------------------------------------- solving
    def _vars_of(self, b):
        """ids of non-constant leaf variables (transitively)"""
        out = set()
        todo = list(b.polys())
        seen = set()
        while todo:
            p = todo.pop()
            for m in p.t:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = T.atoms[a]
                    if at.kind == 'var':
                        out.add(a)
                        if at.info:
                            for q in at.info:
                                if isinstance(q, SB):
                                    todo += q.polys()
                    else:
                        todo += list(at.args)
                        if at.kind == 'ite':
                            todo += at.info.polys()
        return out

    def slice(self, c):
        """constraints of the path connected to c by shared variables"""
        vs = self._vars_of(c)
        rest = [(x, self._vars_of(x)) for x in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            keep = []
            for x, v in rest:
                if v & vs:
                    out.append(x)
                    vs |= v
                    changed = True
                else:
                    keep.append((x, v))
            rest = keep
        return out

    def feasible(self, c):
        """is path & c satisfiable? 'sat' | 'unsat' | 'unknown' """
        if c is True:
            return 'sat'
        if c is False:
            return 'unsat'
        sl = self.slice(c)
        key = (frozenset(sl), c)
        r = self.qcache.get(key)
        if r is not None:
            return r
        # cheap attempt with the constraints over the same variables only
        vs = self._vars_of(c)
        near = [x for x in sl if self._vars_of(x) <= vs]
        r = None
        if len(near) < len(sl):
            r, _ = self.solve(near + [c], min(self.t_feas, 400))
            if r != 'unsat':
                r = None
        if r is None:
            r, model = self.solve(sl + [c], self.t_feas)
            if r == 'sat' and model:
                self.try_model(model, c)
        self.qcache[key] = r
        return r

    def lemmas(self, bs):
        """instances of valid facts relating the comparisons in the query"""
        out = list(self.user_lemmas)
        seen = set()
        for b in bs:
            for c in b.cmps():
                p, op = c.a
                if len(p.t) == 2:
                    (m1, c1), (m2, c2) = p.t.items()
                    if c1 * c2 < 0:
                        if (self._explike(m1) or self._explike(m2)) and all(tm.asign(T.atoms[a]) == 'pos' for m in (m1, m2) for a, _ in m):
                            L = psub(tm.log_poly(Poly({m1: abs(c1)})), tm.log_poly(Poly({m2: abs(c2)})))
                            if c1 < 0:
                                L = pneg(L)
                            l = cmp0(L, op)
                            if isinstance(l, bool):
                                out.append(c if l else bnot(c))
                            else:
                                out.append(bor(band(c, l), band(bnot(c), bnot(l))))
                self._rint_lemmas(p, out)
                for m in p.t:
                    ex = tuple((a, e) for a, e in m if T.atoms[a].kind == 'exp' and not T.atoms[a].const)
                    if len(ex) > 1 and all(isinstance(e, int) for _, e in ex) and ex not in seen:
                        seen.add(ex)
                        # a product of exponentials is below 1 iff the sum of the exponents is negative
                        g = ZERO
                        for a, e in ex:
                            g = padd(g, pscale(T.atoms[a].args[0], F(e)))
                        E = Poly({ex: F(1)})
                        out.append(self._iff(cmp0(g, '<'), _lt(E, ONE)))
                        out.append(self._iff(cmp0(g, '=='), _eq(E, ONE)))
        return [x for x in out if isinstance(x, SB)]

    def _rint_lemmas(self, p, out):
        """c*rint(g) + k compared with 0: place g with respect to the integers around -k/c"""
        ri = [m for m in p.t if len(m) == 1 and T.atoms[m[0][0]].kind == 'rint' and m[0][1] == 1]
        rest = [m for m in p.t if m != () and m not in ri]
        if len(ri) == 1 and not rest:
            at = T.atoms[ri[0][0][0]]
            K = -p.t.get((), F(0)) / p.t[ri[0]]
            for n in {math.floor(K), math.ceil(K)}:
                r, g = tm.of_atom(at), at.args[0]
                out.append(bimp(_lt(g, const(n + F(1, 2))), _le(r, const(n))))
                out.append(bimp(_lt(const(n - F(1, 2)), g), _le(const(n), r)))
        elif len(ri) == 2 and not rest:
            # difference of two roundings: at least one apart or equal
            x, y = [tm.of_atom(T.atoms[m[0][0]]) for m in ri]
            d = psub(x, y)
            out.append(bor(_le(d, const(-1)), cmp0(d, '=='), _le(ONE, d)))

    def _explike(self, m):
        for a, _ in m:
            at = T.atoms[a]
            if at.kind == 'exp' and not at.const:
                return True
        return False

    def atom_axioms(self, atoms, done):
        """SB axioms for a set of atoms"""
        out = []
        byk = {}
        for a in atoms:
            at = T.atoms[a]
            byk.setdefault(at.kind, []).append(at)
        A = tm.of_atom
        pi = tm.PI()
        for at in byk.get('sin', []):
            s, c = A(at), A(at.info)
            raw = Poly({((at.id, 2),): F(1), ((at.info.id, 2),): F(1), (): F(-1)})
            out.append(SB('cmp', (raw, '==')))
            out += self._quadrant(at)
        sins = {x.info.id for x in byk.get('sin', [])}
        for at in byk.get('cos', []):
            if at.id not in sins:
                out += [_le(A(at), ONE), _le(const(-1), A(at))]
                s = T.by_key.get(('sin', at.key))
                out += self._quadrant(at)
        for k in ('sinhalf', 'coshalf'):
            for at in byk.get(k, []):
                raw = padd(Poly({((at.id, 2),): F(1)}), pneg(at.info))
                out.append(cmp0(raw, '=='))
        for at in byk.get('poly', []):
            sg = tm.asign(at)
            if sg == 'pos':
                out.append(SB('cmp', (pneg(A(at)), '<')))
            elif sg == 'nonneg':
                out.append(SB('cmp', (pneg(A(at)), '<=')))
            out.append(SB('cmp', (psub(A(at), at.args[0]), '==')))
        exps = [x for x in byk.get('exp', [])]
        for at in exps:
            g = at.args[0]
            e = A(at)
            if at.const:
                continue
            out.append(SB('cmp', (pneg(e), '<')))
            out.append(_le(padd(ONE, g), e))                       # e >= 1+g
            out.append(_le(pmul(e, psub(ONE, g)), ONE))            # e(1-g) <= 1
            out.append(self._iff(cmp0(g, '<'), _lt(e, ONE)))
            out.append(self._iff(cmp0(g, '=='), _eq(e, ONE)))
        nce = [x for x in exps if not x.const]
        for i in range(len(nce)):
            for j in range(i):
                x, y = nce[i], nce[j]
                out.append(self._iff(_lt(x.args[0], y.args[0]), _lt(A(x), A(y))))
                out.append(self._iff(_eq(x.args[0], y.args[0]), _eq(A(x), A(y))))
        logs = [x for x in byk.get('log', []) if not x.const]
        for at in logs:
            g = at.args[0]
            l = A(at)
            out.append(_le(l, psub(g, ONE)))
            if tm.asign(at) != 'pos':
                out.append(self._iff(_lt(ONE, g), cmp0(pneg(l), '<')))
                out.append(self._iff(_eq(ONE, g), cmp0(l, '==')))
            else:
                out.append(cmp0(psub(ONE, g), '<'))
        allogs = logs
        for i in range(len(allogs)):
            for j in range(i):
                x, y = allogs[i], allogs[j]
                out.append(self._iff(_lt(x.args[0], y.args[0]), _lt(A(x), A(y))))
        ac = byk.get('acos', [])
        for at in ac:
            if at.const:
                continue
            g = at.args[0]
            a = A(at)
            out.append(_le(a, pi))
            out.append(SB('cmp', (pneg(a), '<=')))
            hp = pscale(pi, F(1, 2))
            out.append(self._iff(cmp0(pneg(g), '<'), _lt(a, hp)))
            out.append(self._iff(cmp0(g, '=='), _eq(a, hp)))
            out.append(self._iff(_lt(g, ONE), SB('cmp', (pneg(a), '<'))))
            out.append(self._iff(_lt(const(-1), g), _lt(a, pi)))
            # a >= sin a >= ... : a^2 >= 2(1-g),  a <= pi/2 * sqrt... keep the simple one
            if getattr(self, 'acos_quad', False):
                out.append(_le(pscale(psub(ONE, g), F(2)), pmul(a, a)))
            if getattr(self, 'acos_lens', False):
                # a - sin(a) cos(a) is non-negative, increasing in a, and pi/2 at a = pi/2
                from . import num
                seg = psub(a, pmul(g, num._root(psub(ONE, pmul(g, g)), F(1, 2))))
                out.append(_le(ZERO, seg))
                out.append(_le(seg, pi))
                out.append(self._iff(cmp0(g, '<'), _lt(hp, seg)))
        nca = [x for x in ac if not x.const]
        for i in range(len(nca)):
            for j in range(i):
                x, y = nca[i], nca[j]
                out.append(self._iff(_lt(x.args[0], y.args[0]), _lt(A(y), A(x))))
                out.append(self._iff(_eq(x.args[0], y.args[0]), _eq(A(x), A(y))))
                sm, ss = padd(x.args[0], y.args[0]), padd(A(x), A(y))
                out.append(self._iff(cmp0(pneg(sm), '<'), _lt(ss, pi)))
                out.append(self._iff(cmp0(sm, '=='), _eq(ss, pi)))
                if getattr(self, 'acos_lens', False):
                    # (a - sin a cos a) / sin^2 a increases with a; at pi - a it is (pi - (a - sin a cos a)) / sin^2 a
                    from . import num
                    kx, ky = [psub(ONE, pmul(z.args[0], z.args[0])) for z in (x, y)]
                    sx, sy = [psub(A(z), pmul(z.args[0], num._root(k, F(1, 2)))) for z, k in ((x, kx), (y, ky))]
                    pos = cmp0(pneg(sm), '<=')
                    out.append(bimp(pos, _le(pmul(sx, ky), pmul(psub(pi, sy), kx))))
                    out.append(bimp(pos, _le(pmul(sy, kx), pmul(psub(pi, sx), ky))))
        for at in byk.get('floor', []):
            a = A(at)
            out.append(_le(a, at.args[0]))
            out.append(_lt(at.args[0], padd(a, ONE)))
        for at in byk.get('rint', []):
            a = A(at)
            out.append(_le(psub(at.args[0], a), const(F(1, 2))))
            out.append(_le(psub(a, at.args[0]), const(F(1, 2))))
        for x, y in itertools.islice(itertools.combinations(byk.get('rint', []), 2), 28):
            # rounding keeps the order
            out.append(bimp(_le(x.args[0], y.args[0]), _le(A(x), A(y))))
            out.append(bimp(_le(y.args[0], x.args[0]), _le(A(y), A(x))))
        for at in byk.get('ite', []):
            c = at.info
            out.append(bimp(c, _eq(A(at), at.args[0])))
            out.append(bimp(bnot(c), _eq(A(at), at.args[1])))
            for g, q in ((c, at.args[0]), (bnot(c), at.args[1])):
                if q.t and any(q.t) and all(T.atoms[a].const for m in q.t for a, _ in m):
                    lo, hi = tm.enclose(q)
                    out.append(bimp(g, band(_le(const(lo), A(at)), _le(A(at), const(hi)))))
        for at in byk.get('f32', []):
            p = at.args[0]
            d = psub(A(at), p)
            e = pscale(p, F(1, 2 ** 24))
            pos = cmp0(pneg(p), '<=')
            out.append(bimp(pos, band(_le(d, e), _le(pneg(d), e))))
            out.append(bimp(bnot(pos), band(_le(d, pneg(e)), _le(pneg(d), pneg(e)))))
        for at in byk.get('atan', []):
            a, g = A(at), at.args[0]
            hp = pscale(pi, F(1, 2))
            out += [_lt(a, hp), _lt(pneg(hp), a), self._iff(cmp0(pneg(g), '<'), cmp0(pneg(a), '<')),
                    self._iff(cmp0(g, '=='), cmp0(a, '=='))]
        for at in byk.get('atan2', []):
            a = A(at)
            out += [_le(a, pi), _lt(pneg(pi), a)]
        for at in byk.get('var', []):
            if at.info:
                out += [x for x in at.info if isinstance(x, SB)]
        return [x for x in out if isinstance(x, SB)]

    @staticmethod
    def _iff(a, b):
        if a is True:
            return b
        if a is False:
            return bnot(b) if not isinstance(b, bool) else (not b)
        if b is True:
            return a
        if b is False:
            return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))

    def _quadrant(self, at):
        """sign facts for sin/cos of a declared angle variable"""
        arg = at.args[0]
        s = arg.single()
        out = []
        if s is None or len(s[0]) != 1 or s[0][0][1] != 1:
            return out
        v = T.atoms[s[0][0][0]]
        if v.kind != 'var' or v.lo is None or v.hi is None:
            return out
        import mpmath
        c = float(s[1])
        lo, hi = float(tm.mp_poly(v.lo[0])) * c, float(tm.mp_poly(v.hi[0])) * c
        if lo > hi:
            lo, hi = hi, lo
        e = 1e-12
        hp = math.pi / 2
        A = tm.of_atom
        cosat = at if at.kind == 'cos' else at.info
        sinat = T.by_key.get(('sin', at.key))
        th = Poly({s[0]: s[1]})
        if lo >= -hp - e and hi <= hp + e:
            out.append(SB('cmp', (pneg(A(cosat)), '<=')))
            slo, shi = (v.lo[1], v.hi[1]) if c > 0 else (v.hi[1], v.lo[1])
            if (lo > -hp + e or slo) and (hi < hp - e or shi):
                out.append(SB('cmp', (pneg(A(cosat)), '<')))
            if sinat is not None and self.mentioned(v):
                out.append(self._iff(cmp0(pneg(th), '<'), SB('cmp', (pneg(A(sinat)), '<'))))
                out.append(self._iff(cmp0(th, '<'), SB('cmp', (A(sinat), '<'))))
        if sinat is not None and lo >= -e and hi <= math.pi + e:
            out.append(SB('cmp', (pneg(A(sinat)), '<=')))
        return out

    def mentioned(self, v):
        return v.id in getattr(self, '_lin', ())

    def _run(self, fs, timeout, how):
        if how == 'smt':
            s = z3.Solver()
        elif how == 'nlsat':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite',
                        'qfnra-nlsat').solver()
        else:
            s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout))
        for f in fs:
            s.add(f)
        t0 = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.stats.time += time.time() - t0
        m = None
        if r == 'sat':
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return r, m

    def _numeric(self, b):
        """b with its constant coefficients (sums of products of constant atoms) as single constants"""
        if b.k != 'cmp':
            return SB(b.k, tuple(self._numeric(x) if isinstance(x, SB) else x for x in b.a))
        p, op = b.a
        groups = {}
        for m, c in p.t.items():
            k = tuple(q for q in m if not T.atoms[q[0]].const)
            groups.setdefault(k, {})[tuple(q for q in m if T.atoms[q[0]].const)] = c
        out = {}
        for k, g in groups.items():
            if len(g) == 1 and () in g:
                out[k] = g[()]
                continue
            cp = Poly(g)
            sg = tm.const_sign(cp)
            if not sg:
                continue
            if sg < 0:
                cp = pneg(cp)
            at = T.get('cnum', cp, sign='pos', const=True, name=f'k{len(T.atoms)}')
            out[tuple(sorted(k + ((at.id, 1),)))] = F(sg)
        return SB('cmp', (Poly(out), op))

    def solve(self, bs, timeout):
        """bs: list of SB. returns (result, model dict atomid->float or None)"""
        bs = [b for b in bs if b is not True]
        if any(b is False for b in bs):
            return 'unsat', None
        self.check_deadline()
        self.stats.queries += 1
        cs = {a for b in bs for p in b.polys() for m in p.t for a, _ in m if T.atoms[a].const}
        if len(cs) > 12 or cs and max(abs(e) for b in bs for p in b.polys() for m in p.t for a, e in m if a in cs) > 4:
            bs = [self._numeric(b) for b in bs]
        # which base variables occur directly (not only under sin/cos)
        lin = set()
        for b in bs:
            for p in b.polys():
                for m in p.t:
                    for a, _ in m:
                        if T.atoms[a].kind == 'var':
                            lin.add(a)
                        elif T.atoms[a].kind not in ('sin', 'cos', 'sinhalf', 'coshalf'):
                            for q in T.atoms[a].args:
                                for m2 in q.t:
                                    for a2, _ in m2:
                                        if T.atoms[a2].kind == 'var':
                                            lin.add(a2)
        self._lin = lin
        if self.user_lemmas or timeout >= self.t_goal:
            if self._run(LinTrans(self).build(bs)[0], 1500 if timeout >= self.t_goal else 200, 'smt')[0] == 'unsat':
                self.stats.unsat += 1
                return 'unsat', None
        tr = Trans(self)
        fs, atoms = tr.build(bs)
        hasint = any(T.atoms[a].isint is True and T.atoms[a].kind != 'rint' for a in atoms)
        res, m = 'unknown', None
        plan = [('smt', 0.25), ('nlsat', 0.5), ('smt', 1.0)] if not hasint else [('smt', 1.0)]
        if self.t_goal and timeout <= 600:
            plan = [('smt', 0.6), ('nlsat', 0.4)] if not hasint else [('smt', 1.0)]
        for how, frac in plan:
            res, m = self._run(fs, max(50, timeout * frac), how)
            if res in ('sat', 'unsat'):
                break
        if res == 'unsat':
            self.stats.unsat += 1
            return 'unsat', None
        if res == 'sat':
            self.stats.sat += 1
            model = self.extract(tr, m, atoms) if m is not None else None
            return 'sat', model
        self.stats.unknown += 1
        if UNK:
            import sys
            import traceback
            print('UNKNOWN', timeout, [str(b)[:300] for b in bs][-6:], file=sys.stderr)
            print('   ', [f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_stack()[:-1] if 'vsym' not in f.filename][-3:], file=sys.stderr)
        return 'unknown', None

    def extract(self, tr, m, atoms):
        out = {}

        def val(t):
            v = m.eval(t, model_completion=True)
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(15)
                return float(v.as_fraction())
            except Exception:
                return None
        for a in atoms:
            if T.atoms[a].const and T.atoms[a].kind != 'var':
                continue
            try:
                t = tr.apow(a, 1)
            except Exception:
                continue
            v = val(t)
            if v is not None:
                out[a] = v
        return out

    def concretise(self, model, nbase=3):
        """model over atoms -> candidate assignments of the declared variables (dict name->float)"""
        cands = []
        idx = list(np.nonzero(self.alive)[0][:nbase]) or [0]
        for j in idx:
            vals = {n: float(self.chunk.vars[n][j]) for n in self.chunk.vars}
            for a, v in model.items():
                at = T.atoms[a]
                if at.kind == 'var':
                    vals[at.name] = v
            # angles seen only through sin/cos
            for a, v in model.items():
                at = T.atoms[a]
                if at.kind == 'sin':
                    s = at.args[0].single()
                    if s and len(s[0]) == 1 and s[0][0][1] == 1 and T.atoms[s[0][0][0]].kind == 'var':
                        var = T.atoms[s[0][0][0]]
                        cv = model.get(at.info.id)
                        if cv is None:
                            continue
                        th = math.atan2(v, cv)
                        cur = vals.get(var.name, 0.0) * float(s[1])
                        if abs(math.sin(cur) - v) < 1e-9 and abs(math.cos(cur) - cv) < 1e-9:
                            continue
                        lo = float(tm.mp_poly(var.lo[0])) if var.lo else -1e9
                        hi = float(tm.mp_poly(var.hi[0])) if var.hi else 1e9
                        best = th / float(s[1])
                        for k in range(-3, 4):
                            x = (th + 2 * math.pi * k) / float(s[1])
                            if lo - 1e-12 <= x <= hi + 1e-12:
                                best = min(max(x, lo), hi)
                                break
                        vals[var.name] = best
            cands.extend(self.by_cosine(model, vals))
        return cands

    def by_cosine(self, model, vals):
        """angles of which the solver fixed the sine or the cosine alone: every angle of the range with that value (at most 4 assignments)"""
        out = [vals]
        for a, v in model.items():
            at = T.atoms[a]
            if at.kind not in ('cos', 'sin') or abs(v) > 1:
                continue
            if at.kind == 'sin':
                if model.get(at.info.id) is not None:
                    continue
            elif any(T.atoms[b].kind == 'sin' and T.atoms[b].info.id == a for b in model):
                continue
            s = at.args[0].single()
            if not (s and len(s[0]) == 1 and s[0][0][1] == 1 and T.atoms[s[0][0][0]].kind == 'var'):
                continue
            var = T.atoms[s[0][0][0]]
            k = float(s[1])
            cur = vals.get(var.name, 0.0) * k
            if abs((math.cos if at.kind == 'cos' else math.sin)(cur) - v) < 1e-12:
                continue
            lo = float(tm.mp_poly(var.lo[0])) if var.lo else -1e9
            hi = float(tm.mp_poly(var.hi[0])) if var.hi else 1e9
            base = (math.acos(v), -math.acos(v)) if at.kind == 'cos' else (math.asin(v), math.pi - math.asin(v))
            xs = []
            for th in base:
                for n in range(-3, 4):
                    x = (th + 2 * math.pi * n) / k
                    if lo - 1e-12 <= x <= hi + 1e-12:
                        xs.append(min(max(x, lo), hi))
            if xs:
                out = [dict(o, **{var.name: x}) for x in xs[:2] for o in out][:4]
        return out

    def try_model(self, model, c):
        """use a solver model as an extra sample column if it is numerically consistent"""
        for vals in self.concretise(model, 1):
            if all(math.isfinite(v) for v in vals.values()):
                if len(self.extra_models) < 64:
                    self.extra_models.append(vals)
                    self.add_sample(vals)

    # ------------------------------------------------------------- checking
    def by_algebra(self, goal):
        """equalities that hold as identities once denominators are cleared"""
        if goal.k == 'and':
            return all(self.by_algebra(x) for x in goal.a)
        if goal.k == 'or':
            return any(self.by_algebra(x) for x in goal.a)
        if goal.k == 'cmp' and goal.a[1] in ('==', '<='):
            try:
                r = tm.clear_den(goal.a[0])
            except EngineUnsupported:
                return False
            return r is not None and not r.t
        return False

    def prove(self, goal):
        """-> ('proved', None) | ('cex', [assignments]) | ('unknown', [])"""
        goal = tobool(goal)
        if goal is True:
            self.stats.trivial += 1
            return 'proved', None
        cands = []
        if goal is not False and self.by_fact(goal) is True:
            self.stats.trivial += 1
            return 'proved', None
        if goal is not False and self.by_algebra(goal):
            self.stats.trivial += 1
            return 'proved', None
        if goal is False:
            neg = True
        else:
            t, f = goal.ev3(self.chunk)
            idx = np.nonzero(f & self.alive)[0]
            for j in idx[:3]:
                cands.append({n: float(self.chunk.vars[n][j]) for n in self.chunk.vars})
            neg = bnot(goal)
        if neg is True:
            idx = np.nonzero(self.alive)[0]
            for j in idx[:3]:
                cands.append({n: float(self.chunk.vars[n][j]) for n in self.chunk.vars})
            if cands:
                return 'cex', cands
            r, model = self.solve(self.pc, self.t_goal)
            if r == 'unsat':
                return 'proved', None
            if r == 'sat' and model:
                return 'cex', self.concretise(model)
            return 'unknown', []
        if cands:
            return 'cex', cands
        sl = self.slice(neg)
        key = ('goal', frozenset(sl), neg)
        if self.qcache.get(key) == 'unsat':
            return 'proved', None
        vs = self._vars_of(neg)
        near = [x for x in sl if self._vars_of(x) <= vs]
        if len(near) < len(sl):
            r, _ = self.solve(near + [neg], self.t_goal / 4)
            if r == 'unsat':
                self.qcache[key] = 'unsat'
                return 'proved', None
        r, model = self.solve(sl + [neg], self.t_goal)
        if r == 'unsat':
            self.qcache[key] = 'unsat'
            return 'proved', None
        if r == 'sat':
            return 'cex', (self.concretise(model) if model else [])
        return 'unknown', []


    def interior(self, goal):
        """further counterexamples of a goal the solver refuted: away from the boundary, where rounding cannot hide them"""
        goal = tobool(goal)
        neg = True if goal is False else bnot(goal)
        base = self.pc if neg is True else self.slice(neg)
        for m in (F(1), F(1, 100), F(1, 10 ** 4), F(1, 10 ** 6)):
            for pc in ([margin(c, m) for c in base], base):
                q = [c for c in list(pc) + ([] if neg is True else [margin(neg, m)]) if c is not True]
                if any(c is False for c in q) or not q:
                    continue
                r, model = self.solve(q, self.t_goal / 4)
                if r == 'sat' and model:
                    yield from self.concretise(model, 2)
                    break


def margin(c, m):
    """c, by a margin"""
    if isinstance(c, bool):
        return c
    if c.k == 'cmp':
        p, op = c.a
        if op == '==':
            return c
        return cmp0(padd(p, tm.const(m)), '<=')
    if c.k == 'not':
        x = c.a[0]
        if x.k == 'cmp' and x.a[1] == '==':
            p = x.a[0]
            return bor(cmp0(padd(p, tm.const(m)), '<='), cmp0(padd(pneg(p), tm.const(m)), '<='))
        return c
    return (band if c.k == 'and' else bor)(*[margin(x, m) for x in c.a])


class CTX:
    cur = None
