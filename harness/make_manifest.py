"""Writes MANIFEST.json from the table below."""
import json
import pathlib

NOTES = {
    'C01': ('TLA+ contract checked by TLC on recorded draws; exhaustive TLC models of carving and compression',
            'every distinct recorded contour is decided exactly (rational coordinates) by TLC against spec/Values.tla; sampled requests, domains and choices'),
    'C02': ('TLA+ contract checked by TLC on recorded draws; exhaustive TLC models of Valtr and star loops',
            'shape clauses decided exactly by TLC, centroid visibility in limb arithmetic; sampled requests and choices'),
    'C03': ('TLA+ contract checked by TLC on recorded draws',
            'all counts of every recorded value against the effective bounds of spec/Requests.tla; sampled requests and choices'),
    'C04': ('TLA+ contract checked by TLC on recorded draws from known finite domains',
            'membership of every coordinate in the domain of its axis, decided by TLC; sampled domains and choices'),
    'C05': ('TLA+ contract checked by TLC on recorded polygons',
            'exact containment and disjointness of holes decided by TLC; sampled requests and choices'),
    'C06': ('TLA+ contract checked by TLC on recorded multicontours and multipolygons; TLC models of packing and strips',
            'exact interior disjointness decided by TLC; sampled requests and choices'),
    'C07': ('TLA+ contract checked by TLC on recorded mixes; TLC model of strip allocation',
            'all pairwise relations of components decided exactly by TLC; sampled requests and choices'),
    'C08': ('TLA+ contract checked by TLC on recorded segments',
            'all pairs of segments decided exactly by TLC; sampled requests and choices'),
    'C09': ('TLA+ contract checked by TLC on recorded draws of every kind',
            'kinds, classes and elementary clauses of every recorded value; sampled requests and choices'),
    'C10': ('TLA+ model of argument validation explored exhaustively by TLC; every transition replayed into the library and its answers validated',
            'all combinations of small, equal, negative, absent and huge bounds of every strategy; the table TLC writes is executed against the real functions'),
    'C11': ('TLA+ trace specification of the outcomes of draws',
            'outcomes of sampled requests and choices, with time limits; refusals are judged by long runs of them only'),
    'C12': ('TLA+ history specification (a draw is a function of request and choices) checked by TLC on recorded histories',
            'replays, interleavings, rebuilt strategies and other processes, sampled'),
    'C13': ('TLA+ specification of the arrangements to be reached, checked by TLC against recorded draws of fixed requests',
            'fixed table of requests with room; absence is judged statistically (features that are missed with a chance below 1e-5)'),
    'C14': ('TLA+ trace specification of contexts and classes checked by TLC on recorded histories',
            'classes at every depth of every recorded value, several contexts in use at once; sampled'),
    'C15': ('TLA+ model of independence explored by TLC with a refuted shared variant; heap traces of the library validated against it',
            'sampled values, changes and observations'),
    'C16': ('TLA+ models of quad-edges and of carving explored exhaustively by TLC; transitions replayed into the library, recorded triangulations and carving steps validated by TLC',
            'quad-edge transitions up to the bounds of the model, all small point sets, random larger ones; looks the classes up by name and says so when they are gone'),
}
ALL = ['C%02d' % i for i in range(1, 17)]
manifest = {
    'version': 1,
    'setup_cmd': 'bash harness/setup.sh',
    'checks': [
        {'property': p,
         'quick_cmd': 'python3 harness/check.py %s quick' % p,
         'thorough_cmd': 'python3 harness/check.py %s thorough' % p,
         'technique': NOTES[p][0], 'level': 'model_checking',
         'level_note': NOTES[p][1]}
        for p in ALL if p in NOTES],
    'not_applicable': [{'property': p, 'reason': 'check under construction'}
                       for p in ALL if p not in NOTES],
    'notes': 'TLA+ with TLC; see DESIGN.md. No hooks are needed in /repo.',
}
pathlib.Path(__file__).resolve().parent.parent.joinpath(
    'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
