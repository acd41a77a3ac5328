"""C05 orthographic projection"""
from harness.common import *

BOUNDS = ('a projection centre anywhere, both poles included; one point of any latitude and any '
          'longitude difference up to half a turn (also with a whole turn added or taken away, so across the longitude seam), the meridian of the centre and the centre and its antipode included, and arrays of up to 3 points; angles in degrees and radians; '
          'a position is right within 0.02 of the radius (the code rounds a direction cosine to 4 digits)')


def one(w):
    u, c = w.u, w.cfg
    if c['lat0'] is None:
        qa = w.angle('obs.lat', -HALF, HALF, lo_strict=True, hi_strict=True, cls='lat')
    else:
        qa = c['lat0'] * u.deg
    qo = w.angle('obs.lon', 0, 2, cls='lon')
    la0, lo0 = w.v(qa, 'rad'), w.v(qo, 'rad')
    pa = w.angle('p.lat', -HALF, HALF, cls='lat')
    la = w.v(pa, 'rad')
    if c.get('meridian'):
        po, lo = qo, lo0
    else:
        qd = w.angle('p.east', -1, 1, cls='lon')
        w.assume(w.not_(w.is_eq(w.v(qd, 'rad'), 0, exact=True)))
        po = qo + qd + 360 * c.get('turn', 0) * u.deg
        lo = w.v(po, 'rad')
    mu = dot(w, la0, lo0, la, lo)
    X = w.cos(la) * w.sin(lo - lo0)
    Y = w.cos(la0) * w.sin(la) - w.sin(la0) * w.cos(la) * w.cos(lo - lo0)
    pole = c['lat0'] in (90, -90)
    if not w.sym:
        w.assume(abs(mu) > 1e-9)
        w.assume(pole or abs(mu) < 1 - 1e-9)
        w.assume(c['lat0'] is not None or abs(abs(float(w.v(qa, 'deg'))) - 90) > 1e-3)
    else:
        dot_lemma(w, la0, lo0, la, lo)
        s2 = 1 - mu * mu
        w.nonneg('y inside the disk', s2 - Y * Y, [('sq', X)])
        w.nonneg('x inside the disk', s2 - X * X, [('sq', Y)])
        w.nonneg('inside the disk', s2, [('sq', X)], [('sq', Y)])
        if not pole:
            w.assume(w.lt(0, s2))
            s, k0 = w.sqrt(s2), w.cos(la0)
            w.derive('in between', dict(s=s, k=s2),
                     [lambda d: w.lt(0, d['k']), lambda d: w.eq(d['s'] * d['s'], d['k']), lambda d: w.le(0, d['s'])],
                     lambda d: w.lt(0, d['s']))
            w.lemma('cos of the latitude', w.lt(0, k0))
            w.derive('s below 1', dict(s=s, m=mu), [lambda d: w.eq(d['s'] * d['s'], 1 - d['m'] * d['m'])], lambda d: w.le(d['s'], 1))
            w.derive('den', dict(s=s, k=k0), [lambda d: w.lt(0, d['s']), lambda d: w.lt(0, d['k'])], lambda d: w.lt(0, d['s'] * d['k']))
            w.derive('cosine', dict(s=s, Y=Y, g=Y / s),
                     [lambda d: w.lt(0, d['s']), lambda d: w.eq(d['s'] * d['g'], d['Y']), lambda d: w.le(d['Y'] * d['Y'], d['s'] * d['s'])],
                     lambda d: w.and_(w.le(d['g'], 1), w.le(-1, d['g'])))
        if c.get('meridian'):
            south = w.decide(w.is_lt(la, la0))
            sg = -1 if south else 1
            w.fact_sin_nonneg(sg * (la - la0))
            if not pole:
                w.derive(f'along the meridian{sg}', dict(s=s, Y=sg * Y, g=sg * Y / s),
                         [lambda d: w.lt(0, d['s']), lambda d: w.eq(d['s'] * d['g'], d['Y']), lambda d: w.eq(d['s'] * d['s'], d['Y'] * d['Y']), lambda d: w.le(0, d['Y'])],
                         lambda d: w.and_(w.eq(d['g'], 1), w.eq(d['s'], d['Y'])))
    for a in (45, 90, -90) if c.get('prior') else ():
        w.m.helpers.proj_ortho(a * u.deg, 30 * u.deg, w.qarr([10 * u.deg], 'deg'), w.qarr([30 * u.deg], 'deg'))
    x, y = w.m.helpers.proj_ortho(qa, qo, w.qarr([pa], 'deg'), w.qarr([po], 'deg'))
    x, y = w.vals(x), w.vals(y)
    w.check('one position', len(x) == 1 and len(y) == 1)
    x, y = x[0], y[0]
    if not w.decide(w.is_le(0, mu)):
        w.check('far side undefined', w.isnan(x) and w.isnan(y))
        return
    w.check('near side defined', not w.isnan(x) and not w.isnan(y))
    if w.isnan(x) or w.isnan(y):
        return
    w.observe('xy', [x, y])
    e = w.frac(2, 100)
    k = w.frac(1, 10000)
    if w.sym and not pole:
        w.derive('y close', dict(s=s, y=y, Y=Y, q=y / s, g=Y / s),
                 [lambda d: w.eq(d['s'] * d['q'], d['y']), lambda d: w.eq(d['s'] * d['g'], d['Y']), lambda d: w.lt(0, d['s']), lambda d: w.le(d['s'], 1),
                  lambda d: w.and_(w.le(d['q'] - d['g'], k), w.le(d['g'] - d['q'], k))],
                 lambda d: w.and_(w.le(d['y'] - d['Y'], k), w.le(d['Y'] - d['y'], k)))
    w.check('y', w.and_(w.le(y - Y, e), w.le(Y - y, e)))
    w.derive('x close', dict(x=x, y=y, X=X, Y=Y),
             [lambda d: w.eq(d['x'] * d['x'] + d['y'] * d['y'], d['X'] * d['X'] + d['Y'] * d['Y']),
              lambda d: w.le(d['Y'] * d['Y'], 1),
              lambda d: w.and_(w.le(d['y'] - d['Y'], k), w.le(d['Y'] - d['y'], k)),
              lambda d: w.or_(w.and_(w.le(0, d['x']), w.le(0, d['X'])), w.and_(w.le(d['x'], 0), w.le(d['X'], 0)))],
             lambda d: w.and_(w.le(d['x'] - d['X'], e), w.le(d['X'] - d['x'], e)))
    w.check('x', w.and_(w.le(x - X, e), w.le(X - x, e)))


def special(w):
    """the centre itself, its antipode, the poles"""
    u, c = w.u, w.cfg
    qa = w.angle('obs.lat', -HALF, HALF, lo_strict=True, hi_strict=True, cls='lat') if c['lat0'] is None else c['lat0'] * u.deg
    qo = w.angle('obs.lon', 0, 2, cls='lon')
    la0 = w.v(qa, 'rad')
    if not w.sym:
        w.assume(abs(abs(float(w.v(qa, 'deg'))) - 90) > 1e-3 or c['lat0'] is not None)
    un = u.Unit(c['unit'])
    x, y = w.m.helpers.proj_ortho(qa.to(un), qo, w.qarr([qa, -qa], 'deg'), w.qarr([qo, qo + 180 * u.deg], 'deg').to(un))
    x, y = w.vals(x), w.vals(y)
    e = w.frac(2, 100)
    w.check('two positions', len(x) == 2 and len(y) == 2)
    w.check('centre defined', not w.isnan(x[0]) and not w.isnan(y[0]))
    if not w.isnan(x[0]) and not w.isnan(y[0]):
        w.check('centre in the middle', w.and_(w.le(x[0], e), w.le(-e, x[0]), w.le(y[0], e), w.le(-e, y[0])))
    w.check('antipode undefined', w.isnan(x[1]) and w.isnan(y[1]))


def many(w):
    """an array of points: each is placed as if alone, in the order and shape given, and whatever the unit"""
    u, c = w.u, w.cfg
    n = c['n']
    qa = c['lat0'] * u.deg
    qo = w.angle('obs.lon', 0, 2, cls='lon')
    la0 = w.v(qa, 'rad')
    ps = []
    for i in range(n):
        a = w.angle(f'p{i}.lat', -HALF, HALF, cls='lat')
        d = w.angle(f'p{i}.east', -1, 1, cls='lon')
        ps.append((a, qo + d))
        if w.sym:
            dot_lemma(w, la0, w.v(qo, 'rad'), w.v(a, 'rad'), w.v(qo + d, 'rad'))
    un = u.Unit(c['unit'])
    f = w.m.helpers.proj_ortho
    x, y = f(qa.to(un), qo.to(un), w.qarr([a for a, _ in ps], 'deg').to(un), w.qarr([o for _, o in ps], 'deg'))
    x, y = w.vals(x), w.vals(y)
    w.check('positions', len(x) == n and len(y) == n)
    for i, (a, o) in enumerate(ps):
        x1, y1 = f(qa, qo, w.qarr([a], 'deg'), w.qarr([o], 'deg'))
        x1, y1 = w.vals(x1)[0], w.vals(y1)[0]
        nan = w.isnan(x1)
        w.check('defined alike', w.isnan(x[i]) == nan and w.isnan(y[i]) == nan and w.isnan(y1) == nan)
        if not nan and not w.isnan(x[i]) and not w.isnan(y[i]):
            w.check('same place', w.and_(w.eq(x[i], x1), w.eq(y[i], y1)))


def configs(tier):
    out = []
    for l, un in ((None, 'deg'), (90, 'rad'), (-90, 'deg'), (30, 'rad')):
        out.append((f'special-{l}', 'special', dict(lat0=l, unit=un), {}))
    for l, n, un in ((90, 3, 'deg'), (-90, 2, 'rad'), (0, 2, 'deg')) + (((45, 2, 'rad'), (-45, 2, 'deg')) if tier == 'thorough' else ()):
        out.append((f'many-{l}-{n}', 'many', dict(lat0=l, n=n, unit=un), {}))
    for l in (90, None):
        out.append((f'again-{l}', 'one', dict(lat0=l, prior=1), {}))
    for l in (90, -90, None):
        out.append((f'one-{l}', 'one', dict(lat0=l), {}))
        out.append((f'meridian-{l}', 'one', dict(lat0=l, meridian=True), {}))
    for l, k in ((None, -1), (None, 1), (90, -1), (-90, -1)):
        out.append((f'turn-{l}-{k}', 'one', dict(lat0=l, turn=k), {}))
    return out
