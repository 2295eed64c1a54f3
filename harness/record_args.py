"""Makes the requests TLC enumerated (spec/Args.tla) and records the replies,
then draws from raised requests and the requests they amount to with the same
choices.

usage: record_args.py TABLE SEED WORKER WORKERS SECONDS OUT
"""

from __future__ import annotations

import json
import re
import sys
import time
import warnings
from random import Random

import lib
import plans
from record_history import answer_text
from lib import HypothesisWarning


def mentioned(kind, text):
    names = {name for p in lib.PAIRS[kind] for name in p[:2]}
    return [n for n in re.findall(r'\w+', text) if n in names]


def attempt(kind, sizes, rng, x, y):
    """(strategy or None, error, named, warned)."""
    strategy, error, named = None, '', []
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        try:
            strategy = lib.build({'kind': kind, 'sizes': sizes,
                                  'explicit': rng.random() < .5}, x=x, y=y)
        except Exception as failure:
            error = type(failure).__name__
            named = list(dict.fromkeys(mentioned(kind, str(failure))))
    warned = [(mentioned(kind, str(w.message)) or ['?'])[0] for w in log
              if issubclass(w.category, HypothesisWarning)]
    return strategy, error, named, warned


def main():
    table, seed, worker, workers, seconds, out = sys.argv[1:7]
    worker, workers = int(worker), int(workers)
    lib.guard_process()
    rng = Random('args/%s/%d' % (seed, worker))
    until = time.monotonic() + float(seconds)
    requests = [json.loads(t) for t in open(table)][worker::workers]
    file = open(out + '.ndjson', 'w')
    notes = open(out + '.notes.ndjson', 'w')
    counts = {'requests': 0, 'accepted': 0, 'rejected': 0, 'warned': 0,
              'paired_draws': 0, 'paired_values': 0}
    handle = 0
    raised = []

    def request(kind, sizes, x, y, dom):
        nonlocal handle
        handle += 1
        strategy, error, named, warned = attempt(kind, sizes, rng, x, y)
        file.write(json.dumps({
            'op': 'build', 'h': handle, 'kind': kind, 'sizes': sizes,
            'x': dom[0], 'y': dom[1], 'ctx': 0, 'error': error,
            'named': named, 'warned': warned}) + '\n')
        notes.write(json.dumps({'h': handle, 'kind': kind, 'sizes': sizes,
                                'error': error, 'named': named,
                                'warned': warned}) + '\n')
        counts['requests'] += 1
        counts['rejected' if error else 'accepted'] += 1
        counts['warned'] += bool(warned)
        return strategy, warned

    plain = lib.domain_strategy({'t': 'integers', 'lo': -50, 'hi': 50})
    for r in requests:
        strategy, warned = request(r['kind'], r['sizes'], plain,
                                   rng.choice([None, plain]), (1, 0))
        if strategy is not None and any(
                lo < floor for (lo, _), (_, _, floor)
                in zip(r['sizes'], lib.PAIRS[r['kind']])):
            raised.append(r)
    rng.shuffle(raised)
    # every kind gets its turn, however many requests the table has for it
    by_kind = {}
    for r in raised:
        by_kind.setdefault(r['kind'], []).append(r)
    domain = 1
    while time.monotonic() < until and any(by_kind.values()):
        for kind, rest in by_kind.items():
            if not rest or time.monotonic() > until:
                continue
            r = rest.pop()
            effective = [[max(lo, floor), hi] for (lo, hi), (_, _, floor)
                         in zip(r['sizes'], lib.PAIRS[kind])]
            x, _ = plans.random_domains(rng, plans.least(kind, effective),
                                        wild=0)
            domain += 1
            xs = lib.domain_strategy(x)
            pairs = []
            for sizes in (r['sizes'], effective):
                strategy, _ = request(kind, sizes, xs, None, (domain, 0))
                pairs.append((strategy, handle))
            if any(s is None for s, _ in pairs):
                continue
            for c in range(4):
                choice_seed = rng.getrandbits(60)
                for strategy, h in pairs:
                    what, value, _ = lib.draw(strategy, choice_seed)
                    counts['paired_draws'] += 1
                    counts['paired_values'] += what == 'value'
                    event = {'op': 'answer', 'h': h, 'c': c,
                             'text': answer_text(what, value)}
                    if not event['text']:
                        continue
                    file.write(json.dumps(event) + '\n')
                    notes.write(json.dumps(event | {
                        'seed': choice_seed, 'domain': x}) + '\n')
            if rng.random() < .2:
                file.write('{"op": "forget"}\n')
                notes.write('{"op": "forget"}\n')
    file.close()
    notes.close()
    with open(out + '.counts.json', 'w') as f:
        json.dump(counts, f)


if __name__ == '__main__':
    main()
