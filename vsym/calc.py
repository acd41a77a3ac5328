"""differentiation and integration of terms (exact, on the normal form)"""
from fractions import Fraction as F

from . import terms as tm
from .terms import T, Poly, EngineUnsupported, padd, pmul, pscale, psub, pneg, const, of_atom, norm_exp, ZERO, ONE


def mentions(p, v, seen=None):
    for m in p.t:
        for a, _ in m:
            if a == v.id:
                return True
            at = T.atoms[a]
            if at.kind != 'var' and any(mentions(q, v) for q in at.args if isinstance(q, Poly)):
                return True
    return False


def datom(at, v):
    if at.id == v.id:
        return ONE
    if at.kind == 'var' or at.const:
        return ZERO
    if not any(mentions(q, v) for q in at.args if isinstance(q, Poly)):
        return ZERO
    g = at.args[0]
    dg = deriv(g, v)
    k = at.kind
    if k == 'exp':
        return pmul(of_atom(at), dg)
    if k == 'log':
        return pmul(dg, tm.pinv(g))
    if k == 'poly':
        return dg
    if k == 'sin':
        return pmul(of_atom(at.info), dg)
    if k == 'cos':
        return pneg(pmul(tm.sin_poly(g), dg))
    raise EngineUnsupported(f'derivative of {k}')


def deriv(p, v):
    """d p / d v for a variable atom v"""
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            at = T.atoms[a]
            d = datom(at, v)
            if not d.t:
                continue
            rest = Poly({m[:i] + m[i + 1:]: c * F(e)})
            pw = of_atom(at, norm_exp(F(e) - 1)) if e != 1 else ONE
            out = padd(out, pmul(pmul(rest, pw), d))
    return out


def subst(p, v, val):
    """p with v replaced by a constant (terms where v occurs plainly, or linearly inside exp)"""
    out = ZERO
    for m, c in p.t.items():
        r = const(c)
        for a, e in m:
            at = T.atoms[a]
            if a == v.id:
                r = pmul(r, tm.ppow_int(const(val), int(e))) if val or e > 0 else None
            elif at.kind == 'exp' and mentions(at.args[0], v):
                r = pmul(r, tm.exp_poly(pscale(subst(at.args[0], v, val), F(e))))
            elif at.kind != 'var' and any(mentions(q, v) for q in at.args if isinstance(q, Poly)):
                raise EngineUnsupported(f'substitution in {at.kind}')
            else:
                r = pmul(r, of_atom(at, e))
        out = padd(out, r)
    return out


def integ(p, v, lo, hi):
    """integral of p over v from lo to hi (rationals): polynomials and exponentials in v"""
    out = ZERO
    for m, c in p.t.items():
        k, ex, rest = 0, ZERO, []
        for a, e in m:
            at = T.atoms[a]
            if a == v.id:
                k = e
            elif at.kind == 'exp' and mentions(at.args[0], v):
                ex = padd(ex, pscale(at.args[0], F(e)))
            elif at.kind != 'var' and any(mentions(q, v) for q in at.args if isinstance(q, Poly)):
                raise EngineUnsupported(f'integral of {at.kind}')
            else:
                rest.append((a, e))
        coef = Poly({tuple(rest): c})
        if not ex.t:
            if not isinstance(k, int) or k < 0:
                raise EngineUnsupported('integral of a power')
            out = padd(out, pscale(coef, (F(hi) ** (k + 1) - F(lo) ** (k + 1)) / (k + 1)))
        else:
            s = deriv(ex, v)
            if k or mentions(s, v):
                raise EngineUnsupported('integral of a product')
            d = psub(tm.exp_poly(subst(ex, v, F(hi))), tm.exp_poly(subst(ex, v, F(lo))))
            out = padd(out, pmul(coef, pmul(d, tm.pinv(s))))
    return out
