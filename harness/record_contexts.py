"""Draws with contexts that have classes of their own, several at a time, for
spec/ContextTrace.tla.

usage: record_contexts.py SEED WORKER WORKERS SECONDS OUT
"""

from __future__ import annotations

import json
import math
import sys
import time
from fractions import Fraction as F
from random import Random

from ground.context import Context

import lib
import plans
from record_history import WEIGHTS, Recorder
from record_history import KINDS as SIZED

KINDS = [*SIZED, 'empty_geometries']


class Classes:
    """Numbers classes, so that those of the same name can be told apart."""

    def __init__(self):
        self.known = {}
        self.kept = []

    def __call__(self, cls):
        if id(cls) not in self.known:
            self.kept.append(cls)
            self.known[id(cls)] = '%s@%d' % (cls.__name__, len(self.known))
        return self.known[id(cls)]


def make_context(rng, base):
    own = {}
    share = rng.choice([1, 1, 1, .5])
    for role in lib.ROLES:
        name = role.lower() + '_cls'
        parent = getattr(base, name)
        if rng.random() < share:
            own[name] = type(role, (parent,), {'__slots__': (),
                                               '__module__': parent.__module__})
    return Context(coordinate_factory=F, sqrt=math.sqrt, **own)


PLACES = ('points', 'vertices', 'segments', 'start', 'end', 'border', 'holes',
          'polygons', 'discrete', 'linear', 'shaped')


def nodes(value, number):
    result = []

    def walk(place, node):
        if isinstance(node, (list, tuple)):
            for child in node:
                walk('items' if place == 'root' else place, child)
            return
        result.append([place, number(type(node))])
        for name in PLACES:
            if hasattr(node, name):
                walk(name, getattr(node, name))

    walk('root', value)
    # a place with the same class is told once
    return [list(n) for n in sorted({tuple(n) for n in result})]


def session(rec, rng, until, number):
    base = lib.CONTEXT
    contexts = [base] + [make_context(rng, base)
                         for _ in range(rng.choice([1, 2, 3]))]
    first = session.next
    session.next += len(contexts)
    for k, context in enumerate(contexts):
        rec.emit({'op': 'context', 'ctx': first + k, 'classes': {
            role: number(getattr(context, role.lower() + '_cls'))
            for role in lib.ROLES}})
    opened = []
    for kind in rng.choices(KINDS, [*WEIGHTS, .2], k=2):
        job = plans.random_job(kind, rng, wild=0)
        name = rec.handle * 10 + 1
        for k, context in enumerate(contexts):
            rec.handle += 1
            x, y = lib.domain_strategy(job['x']), None
            if job['y'] is not None:
                y = x if job['y'] == 'same' else lib.domain_strategy(job['y'])
            try:
                with lib.warnings.catch_warnings():
                    lib.warnings.simplefilter('ignore')
                    strategy = lib.build(job, context=context, x=x, y=y)
            except Exception:
                rec.counts['not_built'] += 1
                continue
            rec.emit({'op': 'open', 'h': rec.handle, 'kind': kind,
                      'sizes': job['sizes'], 'x': name,
                      'y': 0 if y is None else name if y is x else -name,
                      'ctx': first + k}, job=job)
            opened.append((rec.handle, strategy, job))
    kept = []
    for c in range(1, rng.choice([12, 24])):
        if time.monotonic() > until or not opened:
            break
        h, strategy, job = rng.choice(opened)
        mode = rng.random()
        choice_seed, choices = rng.getrandbits(60), None
        if kept and mode < .3:
            # choices another context was given
            choices = rng.choice(kept)
            what, value, done = lib.redraw(strategy, choices, choice_seed)
        else:
            what, value, done = lib.draw(strategy, choice_seed)
        rec.counts['draws'] += 1
        if what != 'value':
            continue
        kept.append(done)
        rec.counts['values'] += 1
        rec.emit({'op': 'nodes', 'h': h, 'c': c,
                  'nodes': nodes(value, number)},
                 seed=choice_seed, choices=repr(choices), value=repr(value))


def main():
    seed, worker, workers, seconds, out = sys.argv[1:6]
    lib.guard_process()
    rng = Random('contexts/%s/%s' % (seed, worker))
    until = time.monotonic() + float(seconds)
    rec = Recorder(out)
    number = Classes()
    session.next = 1
    while time.monotonic() < until:
        session(rec, rng, until, number)
    rec.counts['contexts'] = session.next
    rec.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump(rec.counts, file)


if __name__ == '__main__':
    main()
