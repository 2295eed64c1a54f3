"""Draws from the requests whose arrangements are to be seen, for
spec/FeatureTrace.tla.

usage: record_features.py SEED WORKER WORKERS SCALE OUT

The number of draws is fixed, not the time, so that what is seen does not
depend on the machine.
"""

from __future__ import annotations

import json
import sys
from random import Random

import lib
from lib import NO_MAX

ANY = NO_MAX
#: kind, sizes, values per axis, draws, features not to wait for
TABLE = [
    ('multipoints', [[1, 5]], 12, 600, []),
    ('multipoints', [[0, ANY]], 12, 500, []),
    ('segments', [], 6, 500, []),
    ('multisegments', [[2, 7]], 24, 1400, []),
    ('multisegments', [[3, ANY]], 24, 1000, []),
    ('contours', [[3, 7]], 24, 1300, []),
    ('contours', [[3, ANY]], 24, 800, []),
    ('contours', [[5, 8]], 24, 1600, []),
    ('convex_contours', [[3, 8]], 24, 1000, ['vertices=8']),
    ('convex_contours', [[5, 6]], 24, 500, []),
    ('convex_contours', [[3, ANY]], 24, 800, []),
    ('concave_contours', [[4, 8]], 24, 1600, []),
    ('concave_contours', [[5, 6]], 24, 700, []),
    ('concave_contours', [[4, ANY]], 24, 1200, []),
    ('star_contours', [[3, 7]], 24, 1500, ['vertices=3']),
    ('star_contours', [[5, 6]], 24, 1000, []),
    ('star_contours', [[3, ANY]], 24, 1200, ['vertices=3']),
    ('multicontours', [[2, 4], [3, 5]], 40, 700, []),
    ('multicontours', [[2, ANY], [3, ANY]], 40, 700, []),
    ('polygons', [[3, 7], [0, 2], [3, 5]], 40, 1700, []),
    ('polygons', [[3, ANY], [0, ANY], [3, ANY]], 40, 1200,
     ['holes-touching', 'hole-vertices=5']),
    ('polygons', [[4, 6], [1, 3], [3, 4]], 40, 1000, []),
    ('polygons', [[3, 6], [0, 0], [3, ANY]], 24, 1200, []),
    ('multipolygons', [[2, 4], [3, 5], [0, 1], [3, 4]], 48, 800,
     ['hole-vertices=4']),
    ('multipolygons', [[2, ANY], [3, ANY], [0, ANY], [3, ANY]], 48, 700,
     ['holes-touching', 'holes-apart', 'holes=2', 'hole-vertices=4',
      'hole-vertices=5']),
    ('multipolygons', [[2, 3], [4, ANY], [1, 2], [3, ANY]], 48, 600,
     ['touching']),
    ('mixes', [[0, 3], [0, 3], [0, 3], [3, ANY], [0, 0], [3, ANY]], 40, 1700,
     []),
    ('mixes', [[0, ANY], [0, ANY], [0, ANY], [3, ANY], [0, ANY], [3, ANY]],
     40, 1300, ['Empty+Multisegment+Multipolygon']),
    ('mixes', [[0, 0], [0, 2], [0, 2], [3, 5], [0, 1], [3, 4]], 40, 700, []),
    ('mixes', [[1, 2], [0, 2], [0, 0], [3, 5], [0, 0], [3, 4]], 40, 600, []),
    ('mixes', [[1, 4], [1, 4], [0, 0], [3, ANY], [0, 0], [3, ANY]], 40, 800,
     []),
]


def main():
    seed, worker, workers, scale, out = sys.argv[1:6]
    worker, workers = int(worker), int(workers)
    lib.guard_process()
    file = open(out + '.ndjson', 'w')
    counts = {'draws': 0, 'values': 0}
    for h, (kind, sizes, values, draws, _) in enumerate(TABLE, 1):
        rng = Random('features/%s/%d/%d' % (seed, worker, h))
        job = {'kind': kind, 'sizes': sizes, 'explicit': False,
               'x': lib.finite(range(values)), 'y': None}
        try:
            with lib.warnings.catch_warnings():
                lib.warnings.simplefilter('ignore')
                strategy = lib.build(job)
        except Exception:
            continue
        for c in range(max(int(draws * float(scale)) // workers, 1)):
            what, value, _ = lib.draw(strategy, rng.getrandbits(60))
            counts['draws'] += 1
            if what != 'value':
                continue
            counts['values'] += 1
            try:
                wide, v, _ = lib.abstract(lib.parts(kind, value))
            except Exception:
                continue
            if not wide:
                file.write(json.dumps({'op': 'draw', 'h': h, 'v': v}) + '\n')
    file.close()
    with open(out + '.counts.json', 'w') as f:
        json.dump(counts, f)


if __name__ == '__main__':
    main()
