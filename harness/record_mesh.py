"""Runs the library's own quad-edge structure and triangulations.

usage: record_mesh.py SEED WORKER WORKERS SECONDS OUT [TABLE]

With TABLE, the transitions of spec/QuadEdgeMC.tla are replayed first: the
operations of a row on real edges, whose links are then compared with the
ones the specification gives.  After that triangulations of small point sets
and the steps of carving them are recorded for spec/MeshTrace.tla.

All of this is inside the library, so the classes are looked up by name and
tried on three points; a tree without them is reported as "unbound" and left
to the checks of what is made from them.
"""

from __future__ import annotations

import importlib
import itertools
import json
import pkgutil
import sys
import time
from fractions import Fraction as F
from random import Random

import hypothesis_geometry

import lib

POINT = lib.CONTEXT.point_cls


def find(name):
    """An object of the library, wherever it lives."""
    for info in pkgutil.walk_packages(hypothesis_geometry.__path__,
                                      'hypothesis_geometry.'):
        try:
            module = importlib.import_module(info.name)
        except ImportError:
            continue
        value = vars(module).get(name)
        if value is not None and value.__module__ == info.name:
            return module, value
    return None, None


class Unbound(Exception):
    pass


def bind():
    """The classes at work, or Unbound when they are not what they were."""
    try:
        edges, mesh = find('QuadEdge')[1], find('Triangulation')[1]
        a, b, c = POINT(F(0), F(0)), POINT(F(2), F(0)), POINT(F(0), F(1))
        edge = edges.from_endpoints(a, b, context=lib.CONTEXT)
        other = edges.from_endpoints(b, c, context=lib.CONTEXT)
        for name in ('connect', 'delete', 'flip', 'splice'):
            getattr(edges, name)
        for name in ('left_from_start', 'rotated', 'opposite', 'start', 'end',
                     'left_from_end', 'right_from_start', 'right_from_end'):
            getattr(edge, name) if name not in ('start', 'end') else None
        del other
        found = mesh.delaunay([a, b, c], lib.CONTEXT)
        found.left_side.start
        mesh.delete
        return edges, mesh
    except (AttributeError, TypeError, ImportError) as error:
        raise Unbound(repr(error))


# --- the table --------------------------------------------------------------

def replay(edges, row):
    """Performs the operations of a row; gives the links they leave."""
    darts = []

    def add(edge):
        for _ in range(4):
            darts.append(edge)
            edge = edge.rotated

    for op in [*row['path'], row['op']]:
        if op['op'] == 'make':
            add(edges.from_endpoints(POINT(F(op['a']), F(0)),
                                     POINT(F(op['b']), F(0)),
                                     context=lib.CONTEXT))
        elif op['op'] == 'connect':
            add(darts[op['a']].connect(darts[op['b']]))
        elif op['op'] == 'delete':
            darts[op['a']].delete()
        elif op['op'] == 'flip':
            darts[op['a']].flip()
        elif op['op'] == 'splice':
            darts[op['a']].splice(darts[op['b']])
    index = {id(d): i for i, d in enumerate(darts)}
    after = [index.get(id(d.left_from_start), -1) for d in darts]
    origins = [int(d.start.x) for d in darts[::2]]
    turn = [index.get(id(d.rotated), -1) for d in darts]
    around = [[index.get(id(getattr(d, name)), -1) for name in (
        'left_from_end', 'right_from_start', 'right_from_end', 'opposite')]
        for d in darts]
    ends = [int(d.end.x) for d in darts[::2]]
    return after, origins, turn, around, ends


def derived(after, origins):
    """The other links by their definitions in spec/QuadEdge.tla."""
    def rot(d, k=1):
        return d // 4 * 4 + (d + k) % 4
    darts = range(len(after))
    return ([rot(d) for d in darts],
            [[rot(after[rot(d, 3)]), rot(after[rot(d)]), after[rot(d, 2)],
              rot(d, 2)] for d in darts],
            [origins[rot(d, 2) // 2] for d in darts[::2]])


def replay_table(edges, path, worker, workers, file, notes, counts):
    for number, text in enumerate(open(path)):
        if number % workers != worker:
            continue
        row = json.loads(text)
        counts['replayed_transitions'] += 1
        try:
            after, origins, turn, around, ends = replay(edges, row)
            wrong = []
            if after != row['next']:
                wrong.append('links')
            if origins != row['org']:
                wrong.append('origins')
            if (turn, around, ends) != derived(after, origins):
                wrong.append('neighbours')
        except Exception as error:
            wrong = ['raised %s' % type(error).__name__]
        if wrong:
            emit(file, notes, {'op': 'step', 'wrong': wrong}, row)


# --- triangulations ----------------------------------------------------------

def stars(start):
    """The ends met around every vertex, in the order of left_from_start."""
    result, seen, todo = [], set(), [start]
    while todo:
        edge = todo.pop()
        if edge in seen:
            continue
        ends, cursor = [], edge
        while cursor not in seen:
            seen.add(cursor)
            ends.append(cursor.end)
            todo.append(cursor.opposite)
            if cursor.start != edge.start:
                raise ValueError('edges of different origins in a star')
            cursor = cursor.left_from_start
        if cursor is not edge:
            raise ValueError('a star does not close')
        result.append((edge.start, ends))
        if len(seen) > 2000:
            raise ValueError('endless')
    return result, seen


def walk(start):
    result, cursor = [], start
    while True:
        result.append(cursor.start)
        cursor = cursor.right_from_end
        if cursor is start:
            return result
        if len(result) > 2000:
            raise ValueError('a walk does not close')


class Watcher:
    """Takes down what happens to triangulations."""

    LIMIT = 90

    def __init__(self, edges, mesh, file, notes, counts):
        self.file, self.notes, self.counts = file, notes, counts
        self.edges, self.mesh = edges, mesh
        self.depth = 0
        self.handle = 0
        self.open = []
        self.input = None
        self.max_points = 12
        self._wrap()

    def forget(self):
        self.open = []

    def _wrap(self):
        mesh, edges, me = self.mesh, self.edges, self
        delaunay = mesh.__dict__['delaunay'].__func__
        delete, flip = mesh.delete, edges.flip

        def watched_delaunay(cls, points, *args, **kwargs):
            points = list(points)
            me.depth += 1
            try:
                result = delaunay(cls, points, *args, **kwargs)
            finally:
                me.depth -= 1
            if me.depth == 0:
                me.made(points, result)
            return result

        def watched_delete(self, edge, *args, **kwargs):
            return me.step('delete', self, edge,
                           lambda: delete(self, edge, *args, **kwargs))

        def watched_flip(self, *args, **kwargs):
            return me.step('flip', None, self,
                           lambda: flip(self, *args, **kwargs))

        mesh.delaunay = classmethod(watched_delaunay)
        mesh.delete = watched_delete
        edges.flip = watched_flip

    def xy(self, point):
        result = [point.x * self.unit - self.origin[0],
                  point.y * self.unit - self.origin[1]]
        return [int(c) if c.denominator == 1 else None for c in result]

    def state(self, mesh):
        around, _ = stars(mesh.left_side)
        return {'stars': sorted([self.xy(p), [self.xy(q) for q in qs]]
                                for p, qs in around),
                'walk': [self.xy(p) for p in walk(mesh.left_side)]}

    def fits(self, points):
        """Whether the points can be told in small integers."""
        numbers = [F(c) for p in points for c in (p.x, p.y)]
        unit = 1
        for n in numbers:
            unit = lib.math.lcm(unit, n.denominator)
        self.unit = unit
        self.origin = (min(p.x for p in points) * unit,
                       min(p.y for p in points) * unit)
        return (len(points) <= self.max_points
                and all(c is not None and 0 <= c <= self.LIMIT
                        for p in points for c in self.xy(p)))

    def made(self, points, mesh):
        if len(points) < 3 or not self.fits(points):
            return
        flat = len({(q.x, q.y) for q in points}) < 3 or all(
            (points[1].x - points[0].x) * (q.y - points[0].y)
            == (points[1].y - points[0].y) * (q.x - points[0].x)
            for q in points[2:])
        if flat:
            return
        self.handle += 1
        self.input = [self.xy(p) for p in points]
        event = {'op': 'delaunay', 'h': self.handle, 'pts': self.input}
        try:
            event['post'] = self.state(mesh)
        except Exception as error:
            event = {'op': 'step', 'wrong': ['delaunay: %s' % error]}
        self.counts['triangulations'] += 1
        emit(self.file, self.notes, event, {'points': self.input})
        self.open = [(self.handle, mesh, (self.unit, self.origin),
                      self.input), *self.open[:3]]

    def step(self, op, mesh, edge, do):
        self.depth += 1
        entry = before = ends = None
        try:
            if self.depth == 1:
                for candidate in self.open:
                    if mesh is candidate[1] or (
                            mesh is None and self.holds(candidate[1], edge)):
                        entry = candidate
                        break
                if entry is not None:
                    self.unit, self.origin = entry[2]
                    before = self.state(entry[1])
                    ends = [self.xy(edge.start), self.xy(edge.end)]
            result = do()
        finally:
            self.depth -= 1
        if entry is not None:
            event = {'op': op, 'h': entry[0], 'edge': ends, 'pre': before}
            try:
                event['post'] = self.state(entry[1])
            except Exception as error:
                event = {'op': 'step', 'wrong': ['%s: %s' % (op, error)]}
            self.counts[op + 's'] += 1
            emit(self.file, self.notes, event,
                 {'points': entry[3], 'edge': ends})
        return result

    @staticmethod
    def holds(mesh, edge):
        try:
            return edge in stars(mesh.left_side)[1]
        except Exception:
            return False


def emit(file, notes, event, note):
    file.write(json.dumps(event) + '\n')
    notes.write(json.dumps(note) + '\n')


def subsets(rng):
    """Point sets: small grids one by one, then at random."""
    grid = list(itertools.product(range(3), repeat=2))
    for n in range(3, 10):
        for points in itertools.combinations(grid, n):
            yield points
    for columns, rows, sizes in ((4, 3, (3, 4, 5)), (5, 2, (3, 4, 5, 6))):
        grid = list(itertools.product(range(columns), range(rows)))
        for n in sizes:
            for points in itertools.combinations(grid, n):
                yield points
    while True:
        width = rng.choice([3, 4, 4, 5, 5, 6, 8, 30])
        height = rng.choice([2, 3, 4, 5, 6, 8, 30])
        grid = list(itertools.product(range(width), range(height)))
        yield rng.sample(grid, min(rng.randint(4, 12), len(grid)))


def main():
    seed, worker, workers, seconds, out = sys.argv[1:6]
    worker, workers = int(worker), int(workers)
    lib.guard_process()
    rng = Random('mesh/%s/%d' % (seed, worker))
    file = open(out + '.ndjson', 'w')
    notes = open(out + '.notes.ndjson', 'w')
    counts = {'replayed_transitions': 0, 'triangulations': 0, 'deletes': 0,
              'flips': 0, 'draws': 0, 'unbound': []}
    try:
        edges, mesh = bind()
    except Unbound as error:
        counts['unbound'].append(str(error))
    else:
        if len(sys.argv) > 6:
            replay_table(edges, sys.argv[6], worker, workers, file, notes,
                         counts)
        record(edges, mesh, rng, worker, workers, float(seconds), file, notes,
               counts)
    file.close()
    notes.close()
    with open(out + '.counts.json', 'w') as f:
        json.dump(counts, f)


def record(edges, mesh, rng, worker, workers, seconds, file, notes, counts):
    _, carve = find('to_vertex_sequence')
    watcher = Watcher(edges, mesh, file, notes, counts)
    strategies = []
    for kind, sizes, n in (('contours', [[5, 9]], 26),
                           ('concave_contours', [[5, 8]], 26),
                           ('polygons', [[3, 8], [0, 2], [3, 5]], 40),
                           ('polygons', [[4, 7], [1, 2], [3, 4]], 40)):
        with lib.warnings.catch_warnings():
            lib.warnings.simplefilter('ignore')
            strategies.append(lib.build(
                {'kind': kind, 'sizes': sizes, 'y': None, 'explicit': True,
                 'x': lib.finite(range(n))}))
    until = time.monotonic() + seconds
    limit = seconds * 250

    def room():
        return (time.monotonic() < until
                and counts['triangulations'] + counts['deletes']
                + counts['flips'] < limit)

    for number, points in enumerate(subsets(rng)):
        if not room():
            break
        if number < 3000 and number % workers != worker:
            continue
        points = list(points)
        rng.shuffle(points)
        points = [POINT(F(x), F(y)) for x, y in points]
        watcher.forget()
        try:
            if carve is None or rng.random() < .4:
                mesh.delaunay(points, lib.CONTEXT)
            else:
                carve(points, rng.randint(3, len(points)),
                      context=lib.CONTEXT)
        except TypeError as error:
            if 'argument' not in str(error):
                raise
            carve = None
        except Exception as error:
            emit(file, notes, {'op': 'step', 'wrong': [
                'raised %s: %s' % (type(error).__name__, error)]},
                {'points': [[int(p.x), int(p.y)] for p in points]})
        if number % 4 == 0:
            watcher.forget()
            counts['draws'] += 1
            lib.draw(rng.choice(strategies), rng.getrandbits(60))


if __name__ == '__main__':
    main()
