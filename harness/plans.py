"""Seeded random requests and coordinate domains."""

from __future__ import annotations

from fractions import Fraction as F

from lib import NO_MAX, PAIRS, finite


def least(kind, sizes):
    """LeastVertices of spec/Requests.tla."""
    s = [max(lo, floor) for (_, _, floor), (lo, _)
         in zip(PAIRS.get(kind, ()), sizes)]
    return {
        'points': lambda: 1, 'segments': lambda: 2,
        'triangular_contours': lambda: 3,
        'rectangular_contours': lambda: 4, 'boxes': lambda: 4,
        'multipoints': lambda: s[0], 'multisegments': lambda: 2 * s[0],
        'contours': lambda: s[0], 'convex_contours': lambda: s[0],
        'star_contours': lambda: s[0], 'concave_contours': lambda: s[0],
        'multicontours': lambda: s[0] * s[1],
        'polygons': lambda: s[0] + s[1] * s[2],
        'multipolygons': lambda: s[0] * (s[1] + s[2] * s[3]),
        'mixes': lambda: (max(s[0], 1) + 2 * max(s[1], 1)
                          + max(s[2], 1) * (s[3] + s[4] * s[5])),
        'empty_geometries': lambda: 1,
    }[kind]()


def pair(rng, lo, hi, *, open_=.35, floor=None):
    """A random (min, max) with lo <= min <= max <= hi or max open."""
    a = rng.randint(lo, hi)
    mode = rng.random()
    if mode < open_:
        b = NO_MAX
    elif mode < open_ + .2:
        b = a
    else:
        b = rng.randint(a, hi)
    if floor is not None and rng.random() < .1:
        a = rng.randint(0, floor) if b != NO_MAX else rng.randint(-1, floor)
    return [a, b]


def random_sizes(kind, rng, *, big=False):
    if kind == 'multipoints':
        return [pair(rng, 1, 14 if big else 7, floor=1)]
    if kind == 'multisegments':
        return [pair(rng, 2, 9 if big else 6, floor=2)]
    if kind in ('contours', 'convex_contours', 'star_contours'):
        return [pair(rng, 3, 16 if big else 9, floor=3)]
    if kind == 'concave_contours':
        return [pair(rng, 4, 12 if big else 8, floor=4)]
    if kind == 'multicontours':
        return [pair(rng, 2, 5 if big else 3, floor=2),
                pair(rng, 3, 6 if big else 5, open_=.5, floor=3)]
    if kind == 'polygons':
        return [pair(rng, 3, 10 if big else 7, open_=.5, floor=3),
                pair(rng, 0, 3 if big else 2, open_=.4, floor=0),
                pair(rng, 3, 6 if big else 4, open_=.5, floor=3)]
    if kind == 'multipolygons':
        return [pair(rng, 2, 4 if big else 3, floor=2),
                pair(rng, 3, 6 if big else 5, open_=.5, floor=3),
                pair(rng, 0, 1, open_=.3, floor=0),
                pair(rng, 3, 4, open_=.5, floor=3)]
    if kind == 'mixes':
        result = [pair(rng, 0, 4 if big else 3, floor=0),
                  pair(rng, 0, 4 if big else 3, floor=0),
                  pair(rng, 0, 3 if big else 2, floor=0),
                  pair(rng, 3, 5, open_=.5, floor=3),
                  pair(rng, 0, 1, open_=.3, floor=0),
                  pair(rng, 3, 4, open_=.6, floor=3)]
        for i in range(3):
            if rng.random() < .12:
                result[i] = [0, 0]
        if sum(p[1] == 0 for p in result[:3]) > 1:
            return random_sizes(kind, rng, big=big)
        if rng.random() < .6:
            result[4] = [0, 0]
        return result
    return []


def spread(rng, n):
    """n distinct rationals with uneven gaps."""
    style = rng.random()
    if style < .25:
        values = list(range(n))
    elif style < .55:
        values = rng.sample(range(n + rng.choice([1, 2, 4, n])), n)
    elif style < .75:
        values = [0]
        for _ in range(n - 1):
            values.append(values[-1] + rng.choice([1, 1, 2, 3, 7]))
    elif style < .9:
        values = rng.sample(range(-8 * n, 8 * n), n)
    else:
        values = rng.sample(range(0, 400 * n), n)
    unit = rng.choice([F(1), F(1), F(1, 3), F(2, 7), F(10), F(5, 4)])
    shift = rng.choice([0, 0, -n // 2, -2 * n, n, F(1, 2)])
    return sorted({(v + shift) * unit for v in values})


def random_domains(rng, need, *, wild=.03, slack=None):
    """(x, y): y is None, 'same' or a description of its own."""
    def one():
        mode = rng.random()
        if mode < wild:
            return rng.choice([
                {'t': 'fractions', 'lo': None, 'hi': None},
                {'t': 'fractions', 'lo': [-1, 1], 'hi': [1, 1]},
                {'t': 'fractions', 'lo': [0, 1], 'hi': [1, 1], 'den': 30},
                {'t': 'union', 'of': [
                    {'t': 'integers', 'lo': -10 ** 12, 'hi': 10 ** 12},
                    {'t': 'integers', 'lo': -4, 'hi': 4}]}])
        if mode < wild + .12:
            a = rng.choice([0, -need, -3 * need, 1])
            return {'t': 'integers', 'lo': a,
                    'hi': a + rng.choice([2, 3, 5]) * need + 8}
        extra = (rng.choice([0, 0, 1, 2, 3, need, 2 * need])
                 if slack is None else rng.randint(0, slack))
        return finite(spread(rng, 2 * need + extra))

    x = one()
    mode = rng.random()
    if mode < .35:
        return x, None
    if mode < .45:
        return x, 'same'
    y = one()
    if mode < .7 and x['t'] == y['t'] == 'finite':
        # apart from x, so that swapped axes show
        top = max(F(*v) for v in x['v'])
        low = min(F(*v) for v in y['v'])
        y = finite([F(*v) - low + top + 1 for v in y['v']])
    return x, y


def random_job(kind, rng, *, big=False, **options):
    sizes = random_sizes(kind, rng, big=big)
    x, y = random_domains(rng, max(least(kind, sizes), 2), **options)
    if rng.random() < .6:
        as_integers(x, y)
    return {'kind': kind, 'sizes': sizes, 'x': x, 'y': y,
            'explicit': rng.random() < .7}


def as_integers(*domains):
    """Makes domains produce whole numbers of the faster type."""
    for domain in domains:
        if isinstance(domain, dict):
            domain['as'] = 'int'
