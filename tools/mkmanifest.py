"""Writes /verif/MANIFEST.json."""
import json
import os
T = {
 'C01': 'differential runtime monitor: every read of a constructed object vs the given coordinates',
 'C02': 'runtime snapshot monitor over random histories of the whole API, with write probes and a thread-switching scheduler',
 'C03': 'trace checking: edit histories vs an executable list-of-tuples model',
 'C04': 'trace checking: parameter values through edit histories vs a list model',
 'C05': 'runtime monitor: queries vs list semantics under the documented equality',
 'C06': 'runtime monitor: results vs coordinate-wise definitions and metric laws',
 'C07': 'runtime monitor: lengths vs definitions, plus metamorphic laws',
 'C08': 'runtime monitor: derivatives and frames vs independent finite differences and Gram-Schmidt',
 'C09': 'runtime monitor: curvature/torsion vs defining formulas and analytic curves, metamorphic',
 'C10': 'trace checking: interleaved view reads vs rows of an independent twin curve',
 'C11': 'runtime monitor: predicates vs exact rational arithmetic, metamorphic',
 'C12': 'runtime monitor: distances vs exact rational minima, metamorphic',
 'C13': 'runtime monitor: parametrization and overlap vs exact rational arithmetic',
 'C14': 'runtime monitor: intersections vs exact rational arithmetic, metamorphic',
 'C15': 'runtime monitor: result lists vs exact all-pairs enumeration (exactly-once, ordering)',
 'C16': 'runtime monitor: result lists vs exact pairwise distances and chain components',
 'C17': 'runtime monitor: interpolants vs independent formulas of each method',
 'C18': 'runtime monitor: grids vs their specification',
 'C19': 'runtime monitor: smoothed curves vs explicit filters, metamorphic',
 'C20': 'trace checking: registry histories vs an executable model, spies as methods',
 'C21': 'runtime monitor: cleaned/oriented curves vs list definitions',
 'C22': 'runtime monitor: generated curves vs equations evaluated independently',
 'C24': 'runtime monitor: predicates at ladders of tolerances vs exact sines and singular values; monotonicity',
 'C25': 'runtime monitor: numbers and fields parsed back out of repr/str vs the coordinates, under random ambient print settings',
 'C23': 'runtime monitor of the matplotlib artists created for random plot chains',
}
NOTE = ('Real code (PyPy 3.9, /repo working tree) driven by seeded random workloads; every observation is judged by a deterministic '
        'oracle. Says "held on the executions observed" (counts in the evidence file), not more.')
checks = [dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='python3 run.py %s --tier thorough' % p,
               evidence_file='evidence/%s.json' % p, technique=t, level='exploration', level_note=NOTE) for p, t in sorted(T.items())]
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import skcurve, matplotlib, scipy, csaps\" && python3 run.py --list",
         checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
