"""What each check runs."""

from __future__ import annotations

import json
import re

import driver


def clauses(text):
    """Clause names of a printed TLA+ set of strings."""
    return sorted(re.findall(r'\\?"([^"\\]+)\\?"', text)) or [text]


def values(check, seconds):
    """Draws recorded from the public API, validated against Session.tla."""
    outs = [check.scratch / ('values%d' % w) for w in range(driver.CORES)]
    check.parallel([
        (lambda w=w, out=out: check.python(
            'record_values.py', check.prop, check.seed, w, seconds, out,
            # what holds must hold without the library's assertions as well
            timeout=seconds * 3 + 200, asserts=w % 2 == 0),)
        for w, out in enumerate(outs)])
    total = {}
    for out in outs:
        for key, n in json.load(open(str(out) + '.counts.json')).items():
            if isinstance(n, dict):
                for k, m in n.items():
                    name = 'values_of_' + k
                    total[name] = total.get(name, 0) + m
            else:
                total[key] = total.get(key, 0) + n
    check.coverage['draws'] = total
    if not total['values']:
        check.violation(['vacuous'], {'input': 'no value was ever returned'})

    def validate(out, width):
        config = 'SessionTrace%s.cfg' % ('Wide' if width == 'wide' else '')
        path = '%s.%s.ndjson' % (out, width)
        return out, path, check.trace('SessionTrace', config, path)

    results = check.parallel([(validate, out, width) for out in outs
                              for width in ('narrow', 'wide')])
    for out, path, faults in results:
        if not faults:
            continue
        lines = open(path).read().splitlines()
        notes, jobs = {}, {}
        for text in open(str(out) + '.notes.ndjson'):
            note = json.loads(text)
            if 'job' in note:
                jobs[note['h']] = note['job']
            else:
                notes[note['h'], note['c']] = note
        for number, text in faults[:20]:
            event = json.loads(lines[number - 1])
            note = notes.get((event['h'], event['c']), {})
            check.violation(clauses(text), {
                'replay': 'value', 'job': jobs[event['h']],
                'seed': note.get('seed'), 'choices': note.get('choices'),
                'what': event.get('what'), 'value': note.get('value'),
                'input': [jobs[event['h']], note.get('seed'),
                          note.get('choices')]})
    for out in outs:
        with open(str(out) + '.notes.ndjson') as file:
            for text in file:
                note = json.loads(text)
                if 'value' in note:
                    check.sample(note['value'][:400])
                    if len(note['value']) > 200:
                        break


def value_check(check):
    values(check, 120 if check.thorough else 22)


def holes(check):
    values(check, 200 if check.thorough else 34)


def merged(check, name, outs):
    """Sums the counts recorders left behind."""
    total = {}
    for out in outs:
        for key, n in json.load(open(str(out) + '.counts.json')).items():
            if isinstance(n, dict):
                for k, m in n.items():
                    sub = total.setdefault(key, {})
                    sub[k] = sub.get(k, 0) + m
            elif isinstance(n, list):
                total[key] = sorted({*total.get(key, []), *n})
            else:
                total[key] = total.get(key, 0) + n
    check.coverage[name] = total
    return total


def history(check, script, seconds, *args, workers=driver.CORES,
            module='HistoryTrace', name='history', extra=()):
    """Histories recorded by a script, one trace per worker.

    Line k of a worker's notes tells how line k of its trace came about.
    """
    outs = [check.scratch / ('%s%d' % (name, w)) for w in range(workers)]

    def one(w, out):
        check.python(script, *args, check.seed, w, workers, seconds, out, *extra,
                     timeout=seconds * 3 + 200)
        return check.trace(module, module + '.cfg', '%s.ndjson' % out)

    results = check.parallel([(one, w, out) for w, out in enumerate(outs)])
    total = merged(check, name, outs)
    for out, faults in zip(outs, results):
        if not faults:
            continue
        notes = open('%s.notes.ndjson' % out).read().splitlines()
        for number, text in faults[:20]:
            note = json.loads(notes[number - 1])
            check.violation(clauses(text), {
                'replay': script, 'note': note, 'input': note})
    return total


def arguments(check):
    config = 'ArgsDeep.cfg' if check.thorough else 'Args.cfg'
    table = check.scratch / 'table.ndjson'
    check.model('Args', config, env={'TABLE': str(table)})
    total = history(check, 'record_args.py', 150 if check.thorough else 15,
                    table, name='arguments')
    if not total['paired_values']:
        check.violation(['vacuous'], {'input': 'no value was ever returned'})
    check.sample('%(requests)d requests: %(accepted)d accepted, '
                 '%(rejected)d rejected, %(warned)d warned about; '
                 '%(paired_draws)d draws from raised and plain requests'
                 % total)


def repeatable(check):
    total = history(check, 'record_history.py', 180 if check.thorough else 25,
                    'replay')
    for name in ('replays', 'mixed', 'other_process', 'values'):
        if not total[name]:
            check.violation(['vacuous'], {'input': 'no ' + name})
    check.sample('%(draws)d draws, %(replays)d replays of choices, %(mixed)d '
                 'of them two at once, %(other_process)d in other processes'
                 % total)


CHECKS = {prop: value_check for prop in
          ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09')}
def origins(check):
    values(check, 100 if check.thorough else 20)
    history(check, 'record_history.py', 40 if check.thorough else 7, 'axes')


CHECKS['C04'] = origins
CHECKS['C05'] = holes
CHECKS['C10'] = arguments
CHECKS['C12'] = repeatable


def independent(check):
    check.model('Independence')
    if check.thorough:
        check.refuted('Independence', 'IndependenceShared.cfg')
    total = history(check, 'record_heap.py', 150 if check.thorough else 20,
                    module='HeapTrace')
    for name in ('changes', 'observations', 'values'):
        if not total[name]:
            check.violation(['vacuous'], {'input': 'no ' + name})
    check.sample('%(values)d values kept, %(changes)d changes of their lists, '
                 '%(observations)d observations' % total)


CHECKS['C15'] = independent


def contextual(check):
    total = history(check, 'record_contexts.py',
                    120 if check.thorough else 20, module='ContextTrace')
    if not total['values']:
        check.violation(['vacuous'], {'input': 'no value was ever returned'})
    check.sample('%(values)d values drawn in %(contexts)d contexts' % total)


CHECKS['C14'] = contextual


def outcomes(check):
    total = history(check, 'record_outcomes.py',
                    200 if check.thorough else 28, module='OutcomeTrace')
    if not total['values']:
        check.violation(['vacuous'], {'input': 'no value was ever returned'})
    check.sample('%(requests)d requests, %(draws)d draws, %(values)d values '
                 '(%(large_values)d of large sizes), %(refused)d refusals; '
                 '%(unserved)d requests pinned too tightly got none' % total)


CHECKS['C11'] = outcomes


def arrangements(check):
    """What has to occur among the values of requests with room."""
    scale = 4 if check.thorough else 1
    outs = [check.scratch / ('features%d' % w) for w in range(driver.CORES)]
    check.parallel([
        (lambda w=w, out=out: check.python(
            'record_features.py', check.seed, w, len(outs), scale, out,
            timeout=800 if not check.thorough else 3000),)
        for w, out in enumerate(outs)])
    total = merged(check, 'features', outs)
    table = json.loads(check.python('features_table.py'))
    draws = {}
    for out in outs:
        for text in open('%s.ndjson' % out):
            draws.setdefault(json.loads(text)['h'], []).append(text)

    def one(row):
        path = check.scratch / ('request%d.ndjson' % row['h'])
        mine = draws.get(row['h'], ())
        with open(path, 'w') as file:
            file.write(json.dumps({'op': 'open', **row}) + '\n')
            file.writelines(mine)
            file.write(json.dumps({'op': 'close', **row}) + '\n')
        seen = []
        faults = check.trace('FeatureTrace', 'FeatureTrace.cfg', path,
                             seen=seen)
        return faults, seen, len(mine)

    for row, (faults, seen, n) in zip(table, check.parallel(
            [(one, row) for row in table])):
        check.coverage.setdefault('requests', []).append(
            {'kind': row['kind'], 'sizes': row['sizes'], 'values': n,
             'seen': seen})
        for _, text in faults:
            check.violation(clauses(text), {
                'replay': 'features', 'request': row, 'values': n,
                'seen': seen, 'input': [row['kind'], row['sizes']]})
    check.sample('%(draws)d draws, %(values)d values' % total)


CHECKS['C13'] = arrangements


def rows(out):
    """The lines a model printed as ROW <json>."""
    for text in re.findall(r'^"ROW (.*)"$', out, re.M):
        yield re.sub(r'\\(["\\])', r'\1', text)


def meshes(check):
    """Quad-edges, triangulations and how contours are carved from them."""
    def edges():
        config = 'QuadEdgeDeep.cfg' if check.thorough else 'QuadEdgeMC.cfg'
        out = check.model('QuadEdgeMC', config, workers=4, heap='6g',
                          timeout=3000)
        path = check.scratch / 'table.ndjson'
        n = 0
        with open(path, 'w') as file:
            for n, text in enumerate(rows(out), 1):
                file.write(text + '\n')
        if not n:
            raise driver.Broken('no transition of QuadEdgeMC was written')
        check.coverage['transitions_to_replay'] = n
        return path

    def carving():
        check.model('Carve', 'CarveDeep.cfg' if check.thorough
                    else 'CarveMid.cfg', workers=4, heap='6g', timeout=3000)

    path, _ = check.parallel([(edges,), (carving,)])
    if check.thorough:
        check.refuted('QuadEdgeMC', 'QuadEdgeSlip.cfg')
        check.refuted('Carve', 'CarveLoose.cfg')
    total = history(check, 'record_mesh.py', 120 if check.thorough else 12,
                    module='MeshTrace', name='mesh', extra=[path])
    if total['unbound']:
        check.notes.append('the quad-edge structure was not found in the '
                           'library: %s' % total['unbound'])
    elif not total['triangulations'] or not total['replayed_transitions']:
        check.violation(['vacuous'], {'input': 'nothing was recorded'})
    check.sample('%(replayed_transitions)d transitions replayed, '
                 '%(triangulations)d triangulations, %(deletes)d edges '
                 'opened, %(flips)d flipped' % total)


CHECKS['C16'] = meshes
