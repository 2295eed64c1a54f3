"""Records how draws end, for spec/OutcomeTrace.tla.

usage: record_outcomes.py SEED WORKER WORKERS SECONDS OUT
"""

from __future__ import annotations

import json
import sys
import time
from random import Random

import lib
import plans
from lib import NO_MAX
from record_history import KINDS, Recorder

WEIGHTS = [{'points': .1, 'segments': .3, 'boxes': .2,
            'triangular_contours': .5, 'rectangular_contours': .2,
            'contours': 1.5, 'star_contours': 1.5, 'polygons': 2}.get(k, 1)
           for k in KINDS]
PATIENCE = 400
LARGE = list(range(10, 60))


def large_job(rng):
    """Sizes the usual tests do not get to."""
    kind = rng.choice(['multipoints', 'multisegments', 'contours',
                       'convex_contours', 'star_contours', 'concave_contours',
                       'multicontours', 'polygons', 'multipolygons', 'mixes',
                       'contours', 'star_contours', 'polygons'])
    n = rng.choice(LARGE)
    top = rng.choice([n, n, n + 2, NO_MAX])
    sizes = {
        'multicontours': lambda: [[3, 5], [max(n // 5, 3), NO_MAX]],
        'polygons': lambda: [[min(n, 30), NO_MAX], [0, 2], [3, NO_MAX]],
        'multipolygons': lambda: [[2, 3], [max(n // 5, 3), NO_MAX], [0, 0],
                                  [3, NO_MAX]],
        'mixes': lambda: [[n // 2, n // 2], [n // 4, NO_MAX], [0, 1],
                          [3, NO_MAX], [0, 0], [3, NO_MAX]],
        'concave_contours': lambda: [[max(min(n, 24), 4), NO_MAX]],
    }.get(kind, lambda: [[n, top]])()
    need = plans.least(kind, sizes)
    x, y = plans.random_domains(rng, need, wild=0)
    return {'kind': kind, 'sizes': sizes, 'x': x, 'y': y, 'explicit': True}


def tight_job(rng):
    """Bounds close to each other, and not many coordinates to spare."""
    def close(lo):
        return [lo, lo + rng.choice([0, 0, 1, 2])]

    kind = rng.choice(['polygons', 'polygons', 'polygons', 'multipolygons',
                       'mixes', 'multicontours', 'contours'])
    border = [rng.choice([3, 3, 4]), 0]
    border[1] = border[0] + rng.choice([1, 2, 3])
    holes, hole = close(rng.choice([1, 1, 2])), close(rng.choice([3, 3, 4]))
    sizes = {
        'polygons': lambda: [border, close(rng.choice([1, 2, 2, 3])), hole],
        'multipolygons': lambda: [close(2), border, holes, hole],
        'mixes': lambda: [close(rng.choice([0, 1])), close(rng.choice([0, 1])),
                          close(1), border, holes, hole],
        'multicontours': lambda: [close(rng.choice([2, 3])),
                                  close(rng.choice([3, 4]))],
        'contours': lambda: [close(rng.choice([3, 4, 5, 6]))],
    }[kind]()
    x, y = plans.random_domains(rng, plans.least(kind, sizes), wild=0,
                                slack=rng.choice([0, 4, 12]))
    plans.as_integers(x, y)
    return {'kind': kind, 'sizes': sizes, 'x': x, 'y': y, 'explicit': True}


def count(dom):
    values = lib.domain_values(dom)
    return (len(values) if values is not None
            else dom['hi'] - dom['lo'] + 1 if dom['t'] == 'integers'
            else NO_MAX)


def session(rec, rng, until):
    mode = rng.random()
    large = mode < .2
    job = (large_job(rng) if large else tight_job(rng) if mode < .45 else
           plans.random_job(rng.choices(KINDS, WEIGHTS)[0], rng,
                            big=rng.random() < .3, wild=.1))
    size = count(job['x'])
    if job['y'] not in (None, 'same'):
        size = min(size, count(job['y']))
    rec.handle += 1
    h = rec.handle
    event = {'op': 'open', 'h': h, 'kind': job['kind'], 'sizes': job['sizes'],
             'x': 1, 'y': 0, 'ctx': 0, 'size': min(size, NO_MAX), 'error': ''}
    try:
        with lib.warnings.catch_warnings():
            lib.warnings.simplefilter('ignore')
            strategy = lib.build(job)
    except Exception as error:
        rec.emit(event | {'error': '%s: %s' % (type(error).__name__, error)},
                 job=job)
        return
    rec.emit(event, job=job)
    rec.counts['requests'] += 1
    wanted = rng.choice([6, 12, 25]) if large else rng.choice([15, 30, 60])
    kept = []
    tries = served = 0
    deadline = time.monotonic() + 8
    while (tries < wanted or not served) and tries < PATIENCE:
        if time.monotonic() > min(until, deadline):
            break
        tries += 1
        choice_seed, choices = rng.getrandbits(60), None
        mode = rng.random()
        if kept and mode < .3:
            choices = lib.mutated(rng.choice(kept), rng)
        elif mode < .4:
            # the smallest choices first, as when shrinking
            choices = (0,) * rng.choice([1, 5, 20, 60])
        if choices is None:
            what, value, done = lib.draw(strategy, choice_seed)
        else:
            what, value, done = lib.redraw(strategy, choices, choice_seed)
        rec.counts['draws'] += 1
        rec.counts['values'] += what == 'value'
        rec.counts['refused'] += what == 'refused'
        rec.counts['large_values'] += large and what == 'value'
        served += what == 'value'
        if what == 'value' and len(kept) < 20:
            kept.append(done)
        if what == 'raised':
            rec.emit({'op': 'outcome', 'h': h, 'what': value}, job=job,
                     seed=choice_seed, choices=repr(choices))
        else:
            rec.emit({'op': 'outcome', 'h': h, 'what': what})
    rec.counts['unserved'] += not served
    rec.emit({'op': 'close', 'h': h}, job=job)


def main():
    seed, worker, workers, seconds, out = sys.argv[1:6]
    lib.guard_process()
    rng = Random('outcomes/%s/%s' % (seed, worker))
    until = time.monotonic() + float(seconds)
    rec = Recorder(out)
    rec.counts.update(requests=0, large_values=0, unserved=0)
    while time.monotonic() < until:
        session(rec, rng, until)
    rec.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump(rec.counts, file)


if __name__ == '__main__':
    main()
