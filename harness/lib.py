"""What every recorder shares: contexts, coordinate domains, requests, draws
from the public API of ``hypothesis_geometry.planar`` and their projection to
the abstract values of spec/Values.tla.

Runs under the interpreter that has the library's dependencies, with /repo on
``PYTHONPATH``.
"""

from __future__ import annotations

import math
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction as F
from random import Random

from ground.context import Context
from hypothesis import strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import (
    HypothesisWarning,
    InvalidArgument,
    UnsatisfiedAssumption,
)
from hypothesis.internal.conjecture.data import ConjectureData, StopTest

from hypothesis_geometry import planar

NO_MAX = 1000000
CONTEXT = Context(coordinate_factory=F, sqrt=math.sqrt)
ROLES = ['Box', 'Contour', 'Empty', 'Mix', 'Multipoint', 'Multipolygon',
         'Multisegment', 'Point', 'Polygon', 'Segment']

PAIRS = {
    'multipoints': [('min_size', 'max_size', 1)],
    'multisegments': [('min_size', 'max_size', 2)],
    'contours': [('min_size', 'max_size', 3)],
    'convex_contours': [('min_size', 'max_size', 3)],
    'star_contours': [('min_size', 'max_size', 3)],
    'concave_contours': [('min_size', 'max_size', 4)],
    'multicontours': [('min_size', 'max_size', 2),
                      ('min_contour_size', 'max_contour_size', 3)],
    'polygons': [('min_size', 'max_size', 3),
                 ('min_holes_size', 'max_holes_size', 0),
                 ('min_hole_size', 'max_hole_size', 3)],
    'multipolygons': [('min_size', 'max_size', 2),
                      ('min_border_size', 'max_border_size', 3),
                      ('min_holes_size', 'max_holes_size', 0),
                      ('min_hole_size', 'max_hole_size', 3)],
    'mixes': [('min_points_size', 'max_points_size', 0),
              ('min_segments_size', 'max_segments_size', 0),
              ('min_polygons_size', 'max_polygons_size', 0),
              ('min_polygon_border_size', 'max_polygon_border_size', 3),
              ('min_polygon_holes_size', 'max_polygon_holes_size', 0),
              ('min_polygon_hole_size', 'max_polygon_hole_size', 3)],
}
UNSIZED = ['points', 'segments', 'triangular_contours', 'rectangular_contours',
           'boxes']
KINDS = ['empty_geometries', *UNSIZED, *PAIRS]


class OutOfTime(BaseException):
    pass


def _alarm(_signum, _frame):
    raise OutOfTime


def guard_process():
    """Bounds what a runaway draw can use."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGPROF, _alarm)
    sys.setrecursionlimit(5000)


# --- coordinates -----------------------------------------------------------

def finite(values):
    """Domain description of finitely many equally likely values."""
    return {'t': 'finite', 'v': [[v.numerator, v.denominator]
                                 for v in map(F, values)]}


def domain_strategy(dom):
    if dom['t'] == 'finite':
        number = (int if dom.get('as') == 'int'
                  and all(d == 1 for _, d in dom['v']) else F)
        return st.sampled_from([number(F(*v)) for v in dom['v']])
    if dom['t'] == 'integers':
        integers = st.integers(dom['lo'], dom['hi'])
        return integers if dom.get('as') == 'int' else integers.map(F)
    if dom['t'] == 'fractions':
        lo, hi = (None if dom[k] is None else F(*dom[k]) for k in ('lo', 'hi'))
        return st.fractions(lo, hi, max_denominator=dom.get('den'))
    if dom['t'] == 'union':
        return st.one_of([domain_strategy(d) for d in dom['of']])
    raise ValueError(dom)


def domain_values(dom):
    """All values of a finite domain, None when it is not given by a list."""
    if dom['t'] == 'finite':
        return sorted({F(*v) for v in dom['v']})
    if dom['t'] == 'integers' and dom['hi'] - dom['lo'] <= 200:
        return [F(i) for i in range(dom['lo'], dom['hi'] + 1)]
    return None


def domain_span(dom):
    if dom['t'] == 'finite':
        vs = domain_values(dom)
        return vs[0], vs[-1]
    if dom['t'] == 'integers':
        return F(dom['lo']), F(dom['hi'])
    if dom['t'] == 'fractions':
        return tuple(None if dom[k] is None else F(*dom[k])
                     for k in ('lo', 'hi'))
    spans = [domain_span(d) for d in dom['of']]
    return tuple(None if any(s[k] is None for s in spans)
                 else pick(s[k] for s in spans)
                 for k, pick in ((0, min), (1, max)))


# --- requests --------------------------------------------------------------

def keywords(kind, sizes, *, explicit=True):
    """Keyword arguments of a request; sizes in the order of PAIRS."""
    result = {}
    for (lo_name, hi_name, floor), (lo, hi) in zip(PAIRS.get(kind, ()), sizes):
        if explicit or lo != floor:
            result[lo_name] = lo
        if explicit or hi != NO_MAX:
            result[hi_name] = None if hi == NO_MAX else hi
    return result


def build(job, *, context=CONTEXT, x=None, y=None):
    """Builds the strategy of a job through the public API."""
    function = getattr(planar, job['kind'])
    if job['kind'] == 'empty_geometries':
        return function(context=context)
    if x is None:
        x = domain_strategy(job['x'])
    if y is None and job.get('y') is not None:
        y = x if job['y'] == 'same' else domain_strategy(job['y'])
    kw = keywords(job['kind'], job['sizes'],
                  explicit=job.get('explicit', True))
    return function(x, *([] if y is None else [y]), context=context, **kw)


def drawing(strategy, data):
    """One draw: ('value', v), ('refused', why) or ('raised', what)."""
    try:
        signal.setitimer(signal.ITIMER_PROF, 30)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with BuildContext(data, is_final=False, wrapped_test=None):
                    value = data.draw(strategy)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except StopTest:
        return 'refused', data.status.name
    except UnsatisfiedAssumption:
        return 'refused', 'UNSATISFIED'
    except OutOfTime:
        return 'raised', 'no answer within 30 s of processor time'
    except BaseException as error:
        if isinstance(error, KeyboardInterrupt):
            raise
        frames = traceback.extract_tb(error.__traceback__)
        mine = [f for f in frames if 'hypothesis_geometry' in f.filename]
        where = mine[-1].name if mine else frames[-1].name
        return 'raised', '%s in %s: %s' % (type(error).__name__, where,
                                           str(error)[:200])
    return 'value', value


def draw(strategy, seed):
    """A draw from fresh random choices; also gives the choices made."""
    data = ConjectureData(random=Random(seed))
    return *drawing(strategy, data), data.choices


def redraw(strategy, choices, seed=None):
    """A draw from given choices, continued at random when seed is given."""
    data = (ConjectureData.for_choices(choices) if seed is None
            else ConjectureData(prefix=choices, random=Random(seed)))
    return *drawing(strategy, data), data.choices


def mutated(choices, rng):
    """Choices as a shrinker or a mutator of Hypothesis would make them."""
    result = list(choices)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not result:
            break
        i = rng.randrange(len(result))
        how = rng.random()
        if how < .2:
            del result[i:i + rng.choice([1, 1, 2, 4, 8])]
        elif how < .35:
            j = rng.randrange(len(result))
            result[i], result[j] = result[j], result[i]
        elif how < .5:
            result[i:i] = result[i:i + rng.choice([1, 2, 5])]
        elif how < .6:
            for k in range(i, len(result)):
                if type(result[k]) is int:
                    result[k] = 0
        elif type(result[i]) is int:
            n = result[i]
            result[i] = rng.choice([0, 1, n // 2, n - 1, n + 1, rng.choice(
                [c for c in result if type(c) is int])])
        elif type(result[i]) is bool:
            result[i] = not result[i]
    return tuple(result)


# --- projection ------------------------------------------------------------

def class_role(value, context):
    for role in ROLES:
        if type(value) is getattr(context, role.lower() + '_cls'):
            return role
    return type(value).__name__


def xy(point):
    return [point.x, point.y]


def ring(contour):
    return [xy(p) for p in contour.vertices]


def shape(polygon):
    return {'b': ring(polygon.border), 'h': [ring(h) for h in polygon.holes]}


def line(segment):
    return [xy(segment.start), xy(segment.end)]


def parts(kind, value, context=CONTEXT):
    """The abstract value of spec/Values.tla with exact coordinates."""
    result = {'pt': [], 'seg': [], 'rng': [], 'pol': [], 'box': []}
    role = class_role(value, context)
    cls = [role]
    if role == 'Mix':
        for component in (value.discrete, value.linear, value.shaped):
            cls.append(class_role(component, context))
        members = [value.discrete, value.linear, value.shaped]
    elif role == 'list':
        members = []
        result['rng'] = [ring(contour) for contour in value]
    else:
        members = [value]
    for member in members:
        role = class_role(member, context)
        if role == 'Point':
            result['pt'].append(xy(member))
        elif role == 'Multipoint':
            result['pt'] += [xy(p) for p in member.points]
        elif role == 'Segment':
            result['seg'].append(line(member))
        elif role == 'Multisegment':
            result['seg'] += [line(s) for s in member.segments]
        elif role == 'Contour':
            result['rng'].append(ring(member))
        elif role == 'Polygon':
            result['pol'].append(shape(member))
        elif role == 'Multipolygon':
            result['pol'] += [shape(p) for p in member.polygons]
        elif role == 'Box':
            result['box'] = [[member.min_x, member.max_x],
                             [member.min_y, member.max_y]]
        elif role != 'Empty':
            raise TypeError('unexpected %s in a value of %s' % (role, kind))
    if cls == ['list'] and kind != 'multicontours':
        raise TypeError('a list from %s' % kind)
    result['cls'] = cls
    return result


def coordinates(tree, axis=None):
    """All (axis, number) of a tree of parts."""
    for name in ('pt', 'seg', 'rng', 'pol'):
        yield from _points_of(tree[name])
    for axis, pair in enumerate(tree['box']):
        for number in pair:
            yield axis, number


def _points_of(node):
    if isinstance(node, dict):
        yield from _points_of(node['b'])
        yield from _points_of(node['h'])
    elif node and not isinstance(node[0], (list, dict)):
        yield 0, node[0]
        yield 1, node[1]
    else:
        for child in node:
            yield from _points_of(child)


def mapped(tree, f):
    """The same parts with every coordinate c of axis k replaced by f(k, c)."""
    def points(node):
        if isinstance(node, dict):
            return {'b': points(node['b']), 'h': points(node['h'])}
        if node and not isinstance(node[0], (list, dict)):
            return [f(0, node[0]), f(1, node[1])]
        return [points(child) for child in node]

    result = {name: points(tree[name]) for name in ('pt', 'seg', 'rng', 'pol')}
    result['box'] = [[f(axis, c) for c in pair]
                     for axis, pair in enumerate(tree['box'])]
    result['cls'] = tree['cls']
    return result


BASE = 10000


def limbs(n):
    sign = (n > 0) - (n < 0)
    n = abs(n)
    result = [sign]
    while n:
        n, limb = divmod(n, BASE)
        result.append(limb)
    return result


class Scale:
    """Exact increasing affine map of each axis to integers from 0 up.

    It keeps the order of coordinates and the orientation of points, hence
    every predicate of spec/Geo.tla, and centroids.
    """

    def __init__(self, xs, ys, *, uniform=False):
        self.axes = []
        for values in (xs, ys):
            values = list(values) or [F(0)]
            origin = min(values)
            unit = 1
            for v in values:
                unit = math.lcm(unit, (v - origin).denominator)
            common = 0
            for v in values:
                common = math.gcd(common, int((v - origin) * unit))
            self.axes.append((origin, F(unit, common or 1)))
        if uniform:
            units = [a[1] for a in self.axes]
            unit = F(math.lcm(units[0].numerator, units[1].numerator),
                     math.gcd(units[0].denominator, units[1].denominator))
            self.axes = [(a[0], unit) for a in self.axes]

    def __call__(self, axis, value):
        origin, unit = self.axes[axis]
        result = (value - origin) * unit
        if result.denominator != 1:
            raise ValueError((axis, value))
        return int(result)


def is_number(value):
    return isinstance(value, (int, F)) and not isinstance(value, bool)


def abstract(tree, dom=None, *, limit=30000, extra=((), ())):
    """(wide, parts, domain) of the trace: coordinates as TLC numbers."""
    xs, ys = list(extra[0]), list(extra[1])
    for axis, number in coordinates(tree):
        if not is_number(number):
            raise TypeError('coordinate %r' % (number,))
        (ys if axis else xs).append(F(number))
    scale = Scale(xs, ys)
    top = max(max((scale(0, v) for v in xs), default=0),
              max((scale(1, v) for v in ys), default=0))
    wide = top > limit
    if wide:
        def number(axis, value):
            return limbs(scale(axis, F(value)))
    else:
        def number(axis, value):
            return scale(axis, F(value))
    return wide, mapped(tree, number), number
