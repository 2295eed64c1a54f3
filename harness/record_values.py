"""Records draws from the public API as events of spec/SessionTrace.tla.

usage: record_values.py PROPERTY SEED WORKER SECONDS OUT [LIMIT]
"""

from __future__ import annotations

import json
import sys
import time
from fractions import Fraction as F
from random import Random

from hypothesis import strategies as st

import lib
import plans

#: property -> kinds with weights
WEIGHTS = {
    'C01': {'contours': 3, 'convex_contours': 2, 'concave_contours': 2,
            'star_contours': 2, 'triangular_contours': .3,
            'rectangular_contours': .3, 'multicontours': 2, 'polygons': 2,
            'multipolygons': 1, 'mixes': .5},
    'C02': {'convex_contours': 4, 'concave_contours': 4, 'star_contours': 5,
            'triangular_contours': .5, 'rectangular_contours': .5},
    'C03': {'multipoints': .5, 'multisegments': 2, 'contours': 2,
            'convex_contours': 2, 'concave_contours': 1, 'star_contours': 2,
            'multicontours': 2, 'polygons': 3, 'multipolygons': 3,
            'mixes': 3},
    'C04': {kind: 1 for kind in lib.KINDS if kind != 'empty_geometries'},
    'C05': {'polygons': 6, 'multipolygons': 1, 'mixes': 1},
    'C06': {'multicontours': 5, 'multipolygons': 5},
    'C07': {'mixes': 1},
    'C08': {'segments': .5, 'multisegments': 4, 'mixes': 4},
    'C09': {'empty_geometries': .1, 'points': 1, 'multipoints': 3, 'boxes': 2,
            'segments': .5, 'contours': .3, 'convex_contours': .3,
            'concave_contours': .3, 'star_contours': .3,
            'triangular_contours': .3, 'rectangular_contours': .3,
            'multisegments': .3, 'multicontours': .3, 'polygons': .3,
            'multipolygons': .3, 'mixes': .5},
}


class MarkedX(F):
    """A number that tells where it came from."""


class MarkedY(F):
    """A number that tells where it came from."""


MARKS = {MarkedX: 'x', MarkedY: 'y'}


EMPTY = {'pt': [], 'seg': [], 'rng': [], 'pol': [], 'box': []}


def marked(job):
    """Strategies of numbers that can be told from equal computed ones."""
    xs, ys = dom_lists(job)
    if xs is None or ys is None:
        return {}
    return {'x': st.sampled_from([MarkedX(v) for v in xs]),
            'y': st.sampled_from([MarkedY(v) for v in ys])}


def job_for(prop, rng):
    weights = WEIGHTS[prop]
    kind = rng.choices(list(weights), list(weights.values()))[0]
    job = plans.random_job(kind, rng, big=rng.random() < .15)
    if prop == 'C05':
        holes = {'polygons': 1, 'multipolygons': 2, 'mixes': 4}[kind]
        lo, hi = job['sizes'][holes]
        if hi == 0 or lo == 0:
            lo = rng.choice([1, 1, 1, 2]) if kind == 'polygons' else 1
            job['sizes'][holes] = [lo, hi if hi >= lo else lo]
            if kind == 'mixes' and job['sizes'][2][1] == 0:
                job['sizes'][2] = [1, 1]
            need = plans.least(kind, job['sizes'])
            job['x'], job['y'] = plans.random_domains(rng, need)
        if kind == 'polygons' and rng.random() < .7:
            carved_deep(job, rng)
    if kind == 'mixes' and rng.random() < SEAMED.get(prop, .3):
        seamed(job, rng)
    return job


#: how often mixes are crowded, by property
SEAMED = {'C08': .9, 'C07': .5}


def seamed(job, rng):
    """Mixes in few columns and rows, so that neighbours share seams."""
    points = rng.choice([[0, 0], [1, 1], [1, 1], [0, 2], [1, 2]])
    segments = rng.choice([[2, 2], [3, 4], [4, 4], [4, 6], [6, 8]])
    polygons = rng.choice([[0, 0], [0, 0], [1, 1], [1, 2], [0, 2]])
    if points == polygons == [0, 0]:
        points = [1, 1]
    job['sizes'] = [points, segments, polygons, [3, rng.choice([4, 5])],
                    [0, 0], [3, lib.NO_MAX]]
    # grids of points have a prime size, at least 5
    need = max(points[0], 1) + 2 * segments[0] + 5 * max(polygons[0], 1)
    if polygons == [0, 0]:
        need -= 5
    job['x'], job['y'] = (
        lib.finite(range(max(need, segments[1] + 1) + rng.choice([0, 1, 3, 3])))
        for _ in range(2))
    plans.as_integers(job['x'], job['y'])


def carved_deep(job, rng):
    """Polygons whose border is carved a long way in between several holes."""
    border, holes = rng.randint(7, 11), rng.choice([2, 2, 2, 3])
    job['sizes'] = [
        [border, rng.choice([lib.NO_MAX, lib.NO_MAX, border + 6])],
        [holes, rng.choice([lib.NO_MAX, lib.NO_MAX, holes, holes + 1])],
        [3, rng.choice([lib.NO_MAX, lib.NO_MAX, 4, 6])]]
    job['x'], job['y'] = plans.random_domains(
        rng, plans.least('polygons', job['sizes']), wild=0,
        slack=rng.choice([8, 24]))
    plans.as_integers(job['x'], job['y'])


def main():
    prop, seed, worker, seconds, out = sys.argv[1:6]
    seconds = float(seconds)
    limit = int(sys.argv[6]) if len(sys.argv) > 6 else 10 ** 9
    lib.guard_process()
    rng = Random('%s/%s/%s' % (prop, seed, worker))
    until = time.monotonic() + seconds
    files = {False: open(out + '.narrow.ndjson', 'w'),
             True: open(out + '.wide.ndjson', 'w')}
    notes = open(out + '.notes.ndjson', 'w')
    counts = {'draws': 0, 'values': 0, 'refused': 0, 'raised': 0,
              'distinct': 0, 'wide': 0, 'wide_work': 0, 'long': 0, 'jobs': 0, 'kinds': {}}
    handle = 0
    while time.monotonic() < until and counts['draws'] < limit:
        job = job_for(prop, rng)
        handle += 1
        counts['jobs'] += 1
        emitted = set()
        seen = set()

        def emit(wide, event):
            if wide not in emitted:
                emitted.add(wide)
                files[wide].write(json.dumps(
                    {'op': 'build', 'h': handle, 'kind': job['kind'],
                     'sizes': job['sizes']}) + '\n')
            files[wide].write(json.dumps(event) + '\n')

        notes.write(json.dumps({'h': handle, 'job': job}) + '\n')
        try:
            with lib.warnings.catch_warnings():
                lib.warnings.simplefilter('ignore')
                marks = (marked(job) if prop == 'C04' and rng.random() < .5
                         else {})
                strategy = lib.build(job, **marks)
        except Exception as error:
            counts['raised'] += 1
            emit(False, {'op': 'raise', 'h': handle, 'c': -1,
                         'what': 'building: %r' % (error,)})
            continue
        xs, ys = dom_lists(job)
        span = lib.domain_span(job['x']), lib.domain_span(
            job['x'] if job['y'] in (None, 'same') else job['y'])
        rounds = rng.choice([20, 40, 80])
        kept = []
        deadline = time.monotonic() + 6
        for _ in range(rounds):
            if time.monotonic() > min(until, deadline):
                break
            choice_seed = rng.getrandbits(60)
            counts['draws'] += 1
            note = {'h': handle, 'seed': choice_seed, 'choices': None}
            if kept and rng.random() < .25:
                note['choices'] = lib.mutated(rng.choice(kept), rng)
                what, value, choices = lib.redraw(strategy, note['choices'],
                                                  choice_seed)
            else:
                what, value, choices = lib.draw(strategy, choice_seed)
            if what == 'value' and len(kept) < 20:
                kept.append(choices)
            if what == 'refused':
                counts['refused'] += 1
                continue
            if what == 'raised':
                counts['raised'] += 1
                emit(False, {'op': 'raise', 'h': handle, 'c': counts['draws'],
                             'what': value})
                notes.write(json.dumps(note | {'c': counts['draws'],
                                               'what': value}) + '\n')
                continue
            counts['values'] += 1
            try:
                tree = lib.parts(job['kind'], value)
                key = repr(tree)
                if key in seen:
                    continue
                seen.add(key)
                extra = ((), ())
                if prop == 'C04':
                    extra = (xs or [], ys or [])
                    extra = tuple(
                        [*e, *[s for s in span[k] if s is not None]]
                        for k, e in enumerate(extra))
                wide, v, number = lib.abstract(tree, extra=extra)
                event = {'op': 'draw', 'h': handle, 'c': counts['draws'],
                         'v': v}
                if prop == 'C04':
                    event['dom'] = domain_event(tree, xs, ys, span, number,
                                                bool(marks))
            except Exception as error:
                counts['raised'] += 1
                emit(False, {'op': 'raise', 'h': handle, 'c': counts['draws'],
                             'what': 'malformed value: %r' % (error,)})
                notes.write(json.dumps(note | {
                    'c': counts['draws'],
                    'what': 'malformed value: %r' % (error,)}) + '\n')
                continue
            if wide:
                counts['wide'] += 1
                counts['wide_work'] += work(v)
                if counts['wide'] > seconds * 2 or (
                        counts['wide_work'] > seconds * 6000):
                    continue
            elif prop == 'C02' and job['kind'] == 'star_contours' and (
                    not small(v['rng'][0])):
                # the centroid of these takes long numbers to judge
                counts['long'] += len(v['rng'][0])
                if counts['long'] > seconds * 8:
                    continue
            counts['distinct'] += 1
            counts['kinds'][job['kind']] = counts['kinds'].get(job['kind'],
                                                               0) + 1
            emit(wide, event)
            notes.write(json.dumps(note | {'c': counts['draws'],
                                           'value': repr(value)}) + '\n')
    for file in (*files.values(), notes):
        file.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump(counts, file)


def work(v):
    """Roughly what deciding a value of long numbers takes."""
    rings = [*v['rng'], *(r for p in v['pol'] for r in (p['b'], *p['h']))]
    points = [*v['pt'], *(p for r in (*rings, *v['seg']) for p in r)]
    limbs = max((len(c) for p in points for c in p), default=1)
    return (len(points) * limbs) ** 2


def small(ring):
    """SmallRing of spec/Values.tla."""
    m = 60 if len(ring) <= 8 else 40
    return len(ring) <= 40 and all(
        abs(p[k] - ring[0][k]) <= m for p in ring for k in (0, 1))


def dom_lists(job):
    xs = lib.domain_values(job['x'])
    ys = xs if job['y'] in (None, 'same') else lib.domain_values(job['y'])
    return xs, ys


def domain_event(tree, xs, ys, span, number, marks):
    """The domain of a draw in the numbers of its trace line."""
    result = {}
    mine = {0: [], 1: []}
    for axis, value in lib.coordinates(tree):
        mine[axis].append(F(value))
    for axis, (name, values) in enumerate((('x', xs), ('y', ys))):
        lo, hi = span[axis]
        lo = min(mine[axis], default=F(0)) if lo is None else lo
        hi = max(mine[axis], default=F(0)) if hi is None else hi
        result[name + 'span'] = [number(axis, lo), number(axis, hi)]
        for suffix, part in (('', tree | {'seg': []}),
                             ('seg', {**EMPTY, 'seg': tree['seg']})):
            result[name + 'marks' + suffix] = sorted({
                MARKS.get(type(value), 'none')
                for a, value in lib.coordinates(part) if a == axis
            }) if marks else []
        result[name + 's'] = [number(axis, v) for v in values or ()]
    return result


if __name__ == '__main__':
    main()
