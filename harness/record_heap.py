"""Records sessions in which the caller changes the lists of returned values,
for spec/HeapTrace.tla.

usage: record_heap.py SEED WORKER WORKERS SECONDS OUT
"""

from __future__ import annotations

import json
import sys
import time
from random import Random

import lib
import plans
from record_history import KINDS, WEIGHTS, Recorder, answer_text

MULTI = [0 if k in ('points', 'segments', 'boxes') else w
         for k, w in zip(KINDS, WEIGHTS)]


def containers(value):
    """The lists a value consists of, in the order they are met."""
    result, path = [], []

    def walk(node):
        if isinstance(node, list):
            result.append(node)
            if id(node) in path or len(result) > 500:
                return  # a value that holds itself
            path.append(id(node))
            for child in node:
                walk(child)
            path.pop()
            return
        for name in ('points', 'vertices', 'segments', 'border', 'holes',
                     'polygons', 'discrete', 'linear', 'shaped'):
            if hasattr(node, name):
                walk(getattr(node, name))

    walk(value)
    return result


LEAVES = ('Point', 'Segment')


class Session:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.alive = []      # keeps everything met, so that ids stay apart
        self.numbers = {}
        self.values = {}

    def number(self, thing):
        if id(thing) not in self.numbers:
            self.alive.append(thing)
            self.numbers[id(thing)] = len(self.numbers) + 1
        return self.numbers[id(thing)]

    def items(self, container):
        return [repr(item) if type(item).__name__ in LEAVES
                else '%s %d' % (type(item).__name__, self.number(item))
                for item in container]

    def receive(self, h, c, value, **note):
        w = len(self.values) + 1
        lists = containers(value)
        self.values[w] = lists
        self.rec.emit({'op': 'receive', 'h': h, 'c': c, 'w': w,
                       'ids': [self.number(k) for k in lists],
                       'items': [self.items(k) for k in lists],
                       'text': repr(value)}, **note)

    def change(self):
        rng = self.rng
        w = rng.choice(list(self.values))
        if not self.values[w]:
            return
        k = rng.randrange(len(self.values[w]))
        container = self.values[w][k]
        how = rng.random()
        if how < .3:
            container.clear()
        elif how < .5:
            container.reverse()
        elif how < .75 and container:
            container.append(container[0])
        elif how < .9 and container:
            container.pop()
        else:
            # leaves only: a value must not get to hold itself
            donors = [d for lists in self.values.values() for d in lists
                      if d and type(d[-1]).__name__ in LEAVES]
            if donors:
                container.insert(0, rng.choice(donors)[-1])
        self.rec.emit({'op': 'change', 'w': w, 'k': k + 1,
                       'items': self.items(container)})
        self.rec.counts['changes'] += 1

    def observe(self):
        for w, lists in self.values.items():
            self.rec.emit({'op': 'observe', 'w': w,
                           'items': [self.items(k) for k in lists]})
            self.rec.counts['observations'] += 1


def session(rec, rng, until):
    jobs = []
    for kind in rng.choices(KINDS, MULTI, k=rng.choice([1, 2, 2])):
        job = plans.random_job(kind, rng, wild=0)
        jobs.append((job, rec.handle * 10 + 1 + len(jobs)))
    opened = {}
    for job, name in jobs:
        built = rec.build(job, name)
        if built:
            opened[name] = (job, *built)
    kept = []
    c = 0
    for name, (job, h, strategy) in opened.items():
        for _ in range(4):
            if time.monotonic() > until:
                break
            c += 1
            choice_seed = rng.getrandbits(60)
            what, value, choices = lib.draw(strategy, choice_seed)
            rec.counts['draws'] += 1
            if what != 'value':
                continue
            # let go at once: the memory is of untouched answers
            rec.emit({'op': 'answer', 'h': h, 'c': c, 'text': repr(value)},
                     seed=choice_seed)
            kept.append((name, c, choices))
            del value
    mine = Session(rec, rng)
    order = kept * 2
    rng.shuffle(order)
    for name, c, choices in order:
        if time.monotonic() > until:
            break
        job, h, strategy = opened[name]
        if rng.random() < .2:
            built = rec.build(job, name)
            if built:
                h, strategy = built
                opened[name] = job, h, strategy
        what, value, _ = lib.redraw(strategy, choices)
        rec.counts['draws'] += 1
        if what == 'value':
            rec.counts['values'] += 1
            mine.receive(h, c, value, choices=repr(choices))
        else:
            text = answer_text(what, value)
            if text:
                rec.emit({'op': 'answer', 'h': h, 'c': c, 'text': text})
        for _ in range(rng.choice([0, 1, 2])):
            if mine.values:
                mine.change()
        if rng.random() < .4:
            mine.observe()
    mine.observe()
    rec.forget()


def main():
    seed, worker, workers, seconds, out = sys.argv[1:6]
    lib.guard_process()
    rng = Random('heap/%s/%s' % (seed, worker))
    until = time.monotonic() + float(seconds)
    rec = Recorder(out)
    rec.counts.update(changes=0, observations=0)
    while time.monotonic() < until:
        session(rec, rng, until)
    rec.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump(rec.counts, file)


if __name__ == '__main__':
    main()
