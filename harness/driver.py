"""Running recorders and TLC, collecting verdicts, writing evidence."""

from __future__ import annotations

import concurrent.futures as futures
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
SPEC = VERIF / 'spec'
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
CLASSPATH = ('/opt/veriftools/tla/tla2tools.jar'
             ':/opt/veriftools/tla/CommunityModules-deps.jar')
CORES = min(8, os.cpu_count() or 1)


class Broken(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.started = time.monotonic()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix='vp-%s-' % prop))
        self.replays = VERIF / 'evidence' / 'replay'
        self.states = self.transitions = self.traces = 0
        self.coverage = {}
        self.samples = []
        self.violations = []
        self.notes = []

    # --- processes ---------------------------------------------------------

    def python(self, script, *args, env=(), timeout=800, cwd=None,
               asserts=True):
        """Runs a recorder against the library in REPO."""
        environment = dict(os.environ)
        environment.update(PYTHONPATH='%s:%s' % (REPO, VERIF / 'harness'),
                           PYTHONDONTWRITEBYTECODE='1',
                           PYTHONHASHSEED='0')
        environment.update(env)
        done = subprocess.run(
            [PYTHON, '-P', *([] if asserts else ['-O']), str(VERIF / 'harness' / script), *map(str, args)],
            env=environment, cwd=str(cwd or self.scratch), timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if done.returncode != 0:
            raise Broken('%s %s exited with %d:\n%s' % (
                script, ' '.join(map(str, args)), done.returncode,
                done.stdout[-3000:]))
        return done.stdout

    def parallel(self, calls, workers=CORES):
        with futures.ThreadPoolExecutor(workers) as pool:
            return [f.result() for f in [pool.submit(*c) for c in calls]]

    def tlc(self, module, config, *, env=(), timeout=800, workers=1,
            heap='2g', deadlock=False):
        """Runs TLC, returns its output; TLC's own errors raise Broken."""
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        environment = dict(os.environ)
        environment.update(env)
        command = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m',
                   '-Djava.io.tmpdir=' + meta, '-cp', CLASSPATH,
                   'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
                   '-noGenerateSpecTE', '-config', str(SPEC / config)]
        if deadlock:
            command.append('-deadlock')
        command.append(str(SPEC / (module + '.tla')))
        try:
            done = subprocess.run(command, env=environment, cwd=meta,
                                  timeout=timeout, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise Broken('TLC on %s exceeded %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        found = re.findall(r'(\d+) states generated, (\d+) distinct states',
                           done.stdout)
        if found:
            self.transitions += int(found[-1][0])
            self.states += int(found[-1][1])
        return done.returncode, done.stdout

    # --- stages ------------------------------------------------------------

    def model(self, module, config=None, **options):
        """An exhaustive design model; it has to hold."""
        config = config or module + '.cfg'
        started = time.monotonic()
        before = self.states
        code, out = self.tlc(module, config, **options)
        if code != 0:
            raise Broken('design model %s (%s) fails:\n%s' % (
                module, config, out[-4000:]))
        if 'No error has been found' not in out:
            raise Broken('TLC did not finish %s:\n%s' % (module, out[-2000:]))
        self.coverage.setdefault('design_models', []).append(
            {'module': module, 'config': config,
             'distinct_states': int(re.findall(
                 r'(\d+) distinct states', out)[-1]),
             'seconds': round(time.monotonic() - started, 1)})
        return out

    def refuted(self, module, config, **options):
        """A model made wrong on purpose; TLC has to find it out."""
        code, out = self.tlc(module, config, **options)
        if not re.search(r'(Invariant|Action property|property) \S+ '
                         r'(is|was) violated|properties were violated', out):
            raise Broken('%s with %s should fail:\n%s' % (module, config,
                                                          out[-3000:]))
        self.coverage.setdefault('refuted_controls', []).append(
            {'module': module, 'config': config})

    def models(self, names):
        names = [n if isinstance(n, tuple) else (n,) for n in names]
        return self.parallel([(lambda n=n: self.model(*n),) for n in names])

    def trace(self, module, config, path, *, env=(), timeout=800,
              seen=None):
        """Validates a trace file; returns [(line number, text)]."""
        lines = sum(1 for _ in open(path))
        if not lines:
            return []
        code, out = self.tlc(module, config, timeout=timeout,
                             env=dict(env, TRACE=str(path),
                                      PROPERTY=self.prop))
        done = re.search(r'CONSUMED (\d+) OF (\d+)', out)
        if code != 0 or not done or done[1] != done[2] or int(
                done[2]) != lines:
            raise Broken('trace validation of %s with %s failed (%s of %d '
                         'lines):\n%s' % (path, module, done and done[1],
                                          lines, out[-4000:]))
        self.traces += lines
        if seen is not None:
            seen += [dict((k, int(n)) for k, n in re.findall(
                r'([\w+=-]+)\\?"? (?:\|->|:>) (\d+)', text))
                for text in re.findall(r'"SEEN \d+ (.*)"', out)]
        return [(int(n), text) for n, text in
                re.findall(r'"FAULT (\d+) (.*)"', out)]

    # --- verdicts ----------------------------------------------------------

    def violation(self, clauses, replay):
        """Registers a violation with what is needed to see it again."""
        self.violations.append((clauses, replay))

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text)

    def finish(self, level='model_checking', assumptions=()):
        known = [entry for entry in known_findings()
                 if entry.get('property') == self.prop]
        new, listed = [], set()
        for clauses, replay in self.violations:
            key = finding_key(clauses, replay)
            hit = [k for k in known if k['key'] == key]
            if hit:
                listed.add(hit[0]['key'] + ' ' + hit[0].get('what', ''))
            else:
                new.append((clauses, replay))
        for what in sorted(listed):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        paths = []
        if new:
            self.replays.mkdir(parents=True, exist_ok=True)
        for number, (clauses, replay) in enumerate(new[:10]):
            path = self.replays / ('%s-%d.json' % (self.prop, number))
            path.write_text(json.dumps({'property': self.prop,
                                        'clauses': clauses, **replay},
                                       indent=1, default=str))
            paths.append(path)
            print('  %s: %s' % (clauses, json.dumps(replay, default=str)[:600]))
        wall = time.monotonic() - self.started
        evidence = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': level,
            'coverage': {'states': self.states,
                         'transitions': self.transitions,
                         'traces_validated_against_impl': self.traces,
                         'samples': self.samples, **self.coverage},
            'assumptions': list(assumptions), 'wall_s': round(wall, 1),
            'violations': len(new)}
        if self.notes:
            evidence['coverage']['notes'] = self.notes
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / (self.prop + '.json')).write_text(
            json.dumps(evidence, indent=1, default=str) + '\n')
        for path in paths:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if len(new) > len(paths):
            print('%d more not listed' % (len(new) - len(paths)))
        print('%s %s: %d states, %d trace lines, %d violations, %.0f s' % (
            self.prop, self.tier, self.states, self.traces, len(new), wall))
        return 1 if new else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_findings():
    """Entries 'finding: property=<id> key=<...> <what>' of the findings file.

    'fixed:' entries are a record only and suppress nothing.
    """
    path = VERIF / 'known_findings.txt'
    result = []
    for text in path.read_text().splitlines() if path.exists() else ():
        found = re.match(r'finding: property=(\w+) key=(\S+) (.*)', text)
        if found:
            result.append({'property': found[1], 'key': found[2],
                           'what': found[3]})
    return result


def finding_key(clauses, replay):
    """Identifies the failing input, not just the clause."""
    import hashlib
    text = json.dumps([sorted(clauses) if isinstance(clauses, (list, set))
                       else clauses, replay.get('input')], default=str,
                      sort_keys=True)
    return hashlib.sha256(text.encode()).hexdigest()[:16]
