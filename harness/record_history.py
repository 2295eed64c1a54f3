"""Records histories of building strategies and drawing from them with choices
drawn before: spec/HistoryTrace.tla tells whether equal requests answer equal
choices alike.

usage: record_history.py MODE SEED WORKER WORKERS SECONDS OUT
       record_history.py again PLAN OUT

MODE is 'replay' (same choices to old and new strategies, interleaved, mixed
and in another process) or 'axes' (the y-coordinates left out or given).
"""

from __future__ import annotations

import gc
import json
import os
import subprocess
import sys
import time
import warnings
from random import Random

from hypothesis import strategies as st

import lib
import plans

KINDS = [k for k in lib.KINDS if k != 'empty_geometries']
WEIGHTS = [{'mixes': .6, 'multipolygons': .7}.get(k, 1) for k in KINDS]


class Recorder:
    def __init__(self, out):
        self.file = open(out + '.ndjson', 'w')
        self.notes = open(out + '.notes.ndjson', 'w')
        self.handle = 0
        self.counts = {'builds': 0, 'not_built': 0, 'draws': 0, 'values': 0, 'refused': 0,
                       'replays': 0, 'mixed': 0, 'other_process': 0}

    def emit(self, event, **note):
        self.file.write(json.dumps(event) + '\n')
        self.notes.write(json.dumps({**event, **note}) + '\n')

    def build(self, job, name, y='own'):
        """(handle, strategy) of a newly built strategy."""
        self.handle += 1
        self.counts['builds'] += 1
        x = lib.domain_strategy(job['x'])
        if job['y'] is None and y == 'given':
            y_strategy = x
        elif job['y'] is None:
            y_strategy = None
        elif job['y'] == 'same':
            y_strategy = x
        else:
            y_strategy = lib.domain_strategy(job['y'])
        error, strategy = '', None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                strategy = lib.build(job, x=x, y=y_strategy)
            except Exception as failure:
                error = '%s: %s' % (type(failure).__name__, failure)
        event = {'op': 'build', 'h': self.handle, 'kind': job['kind'],
                 'sizes': job['sizes'], 'x': name,
                 'y': (0 if y_strategy is None
                       else name if y_strategy is x else -name), 'ctx': 0}
        if error:
            # whether requests are accepted is decided by other checks
            self.counts['not_built'] += 1
            return None
        self.emit(event | {'op': 'open'}, job=job)
        return self.handle, strategy

    def answer(self, h, c, what, value, **note):
        self.counts['draws'] += 1
        self.counts['values' if what == 'value' else 'refused'] += 1
        text = answer_text(what, value)
        if text:
            self.emit({'op': 'answer', 'h': h, 'c': c, 'text': text}, **note)

    def forget(self):
        self.emit({'op': 'forget'})

    def close(self):
        self.file.close()
        self.notes.close()


def answer_text(what, value):
    """An exception is an answer as well; only time does not repeat."""
    return (repr(value) if what == 'value'
            else 'refused' if what == 'refused'
            else '' if value.startswith('no answer')
            else 'raised ' + value.split()[0])


def packed(choices):
    """Choices as JSON and back."""
    return [['b', c] if isinstance(c, bool) else
            ['i', str(c)] if isinstance(c, int) else
            ['f', c.hex()] if isinstance(c, float) else
            ['s', c] if isinstance(c, str) else ['y', list(c)]
            for c in choices]


def unpacked(items):
    return tuple({'b': bool, 'i': int, 's': str, 'y': bytes,
                  'f': float.fromhex}[t](v) for t, v in items)


def replay_session(rec, rng, until, out):
    """One episode: some strategies, their first draws, then replays."""
    size = rng.choice([2, 3, 3, 4])
    kinds = rng.choices(KINDS, WEIGHTS, k=size)
    if rng.random() < .4:
        kinds[1] = kinds[0]
    jobs = [plans.random_job(k, rng) for k in kinds]
    if kinds[1] == kinds[0] and rng.random() < .5:
        # alike but for the bounds, or but for the coordinates
        if rng.random() < .5:
            jobs[1] = {**jobs[1], 'x': jobs[0]['x'], 'y': jobs[0]['y']}
        else:
            jobs[1] = {**jobs[1], 'sizes': jobs[0]['sizes']}
    name = rec.handle * 10 + 1
    opened = []
    for k, job in enumerate(jobs):
        built = rec.build(job, name + k)
        if built:
            opened.append((name + k, job, *built))
    if not opened:
        return
    kept = []
    c = 0
    for _ in range(rng.choice([3, 6, 10])):
        for name_k, job, h, strategy in opened:
            if time.monotonic() > until:
                break
            c += 1
            choice_seed = rng.getrandbits(60)
            what, value, choices = lib.draw(strategy, choice_seed)
            rec.answer(h, c, what, value, seed=choice_seed)
            if what != 'raised':
                kept.append((name_k, job, c, choices, what))
    live = {name_k: (h, strategy) for name_k, job, h, strategy in opened}
    order = kept * 2
    rng.shuffle(order)
    previous = None
    for name_k, job, c, choices, what in order:
        if time.monotonic() > until:
            break
        mode = rng.random()
        if mode < .25:
            # built anew, the old one let go
            live.pop(name_k, None)
            if rng.random() < .2:
                gc.collect()
            built = rec.build(job, name_k)
            if built is None:
                continue
            live[name_k] = built
        h, strategy = live[name_k]
        if (mode > .8 and previous is not None and previous[4] == 'value'
                and what == 'value'):
            # both at once, the choices one after another
            other_h, other = live[previous[0]]
            what2, value2, _ = lib.redraw(
                st.tuples(other, strategy), (*previous[3], *choices))
            rec.counts['mixed'] += 1
            values = value2 if what2 == 'value' else (value2, value2)
            rec.answer(other_h, previous[2], what2, values[0], how='tuple')
            rec.answer(h, c, what2, values[1], how='tuple')
        else:
            what2, value2, _ = lib.redraw(strategy, choices)
            rec.answer(h, c, what2, value2, how='replay')
        rec.counts['replays'] += 1
        previous = (name_k, job, c, choices, what)
    if rng.random() < .35 and kept and time.monotonic() < until:
        again(rec, rng, kept, out)
    rec.forget()


def again(rec, rng, kept, out):
    """The same draws in a new process."""
    plan = [{'name': n, 'job': job, 'c': c, 'choices': packed(choices)}
            for n, job, c, choices, _ in kept]
    rng.shuffle(plan)
    with open(out + '.plan.json', 'w') as file:
        json.dump({'first': rec.handle + 1, 'plan': plan}, file)
    subprocess.run([sys.executable, '-P', __file__, 'again',
                    out + '.plan.json', out + '.again'], check=True,
                   env={**os.environ,
                        'PYTHONHASHSEED': str(rng.randint(1, 4294967295))})
    for path, file in (('.again.ndjson', rec.file),
                       ('.again.notes.ndjson', rec.notes)):
        file.write(open(out + path).read())
    with open(out + '.again.counts.json') as file:
        done = json.load(file)
    rec.handle = done['handle']
    rec.counts['other_process'] += done['draws']
    rec.counts['draws'] += done['draws']


def run_again(plan_path, out):
    plan = json.load(open(plan_path))
    rec = Recorder(out)
    rec.handle = plan['first'] - 1
    live = {}
    for item in plan['plan']:
        if item['name'] not in live:
            live[item['name']] = rec.build(item['job'], item['name'])
        if live[item['name']] is None:
            continue
        h, strategy = live[item['name']]
        what, value, _ = lib.redraw(strategy, unpacked(item['choices']))
        rec.answer(h, item['c'], what, value, how='process')
    rec.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump({'handle': rec.handle, 'draws': rec.counts['draws']}, file)


def axes_session(rec, rng, until, out):
    """Leaving y-coordinates out is giving the x-coordinates twice."""
    kind = rng.choices(KINDS, WEIGHTS)[0]
    job = plans.random_job(kind, rng, wild=.1) | {'y': None}
    name = rec.handle + 1
    pair = [rec.build(job, name), rec.build(job, name, 'given')]
    if None in pair:
        return
    for c in range(1, rng.choice([6, 12])):
        if time.monotonic() > until:
            break
        choice_seed = rng.getrandbits(60)
        for h, strategy in pair:
            what, value, _ = lib.draw(strategy, choice_seed)
            rec.answer(h, c, what, value, seed=choice_seed)
            rec.counts['replays'] += 1
    rec.forget()


def main():
    if sys.argv[1] == 'again':
        lib.guard_process()
        return run_again(*sys.argv[2:4])
    mode, seed, worker, workers, seconds, out = sys.argv[1:7]
    lib.guard_process()
    rng = Random('history/%s/%s/%s' % (mode, seed, worker))
    until = time.monotonic() + float(seconds)
    rec = Recorder(out)
    session = {'replay': replay_session, 'axes': axes_session}[mode]
    while time.monotonic() < until:
        session(rec, rng, until, out)
    rec.close()
    with open(out + '.counts.json', 'w') as file:
        json.dump(rec.counts, file)


if __name__ == '__main__':
    main()
