"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 'C01': 'seeded simulation of chains of applies on a simulated MySQL server; catalog compared with a reference model of the declared schema, then quiescence of a further plan and apply',
 'C02': 'seeded crash/fault injection at I/O points of one to three applies, then undisturbed applies; refinement against the reference model of structure and rows',
 'C03': 'seeded simulation: every planned statement executed in order by a server that enforces foreign key, index and existence rules, also from crashed states',
 'C04': 'seeded simulation with fault injection; server log and digests of catalog, rows and files before and after',
 'C05': 'seeded simulation; the statements plan shows against the server log of apply and what apply reports',
 'C06': 'seeded crash and schedule exploration with concurrent application writers; rows against a shadow copy of committed application writes',
 'C07': 'seeded simulation with row tampering and interrupted runs; row contents against the declared rows, then quiescence',
 'C08': 'seeded fault injection at every kind of point of the row phase with observing sessions under a seeded scheduler; snapshots must be all-before or all-after',
 'C09': 'seeded disk fault injection (list, stat, open, read errors, short reads, truncation, damage) while declarations are read; server log and database digest',
 'C10': 'seeded simulation of schemas damaged in many ways, also with faults; status, reported errors and server log',
 'C11': 'seeded perturbation of listing order, file split, formatting, process history and hash seed; equality of plans and of their simulated effect',
 'C12': 'seeded fault injection at every kind of I/O point, commit included; reported outcome against server state',
 'C13': 'seeded fault injection on caller-supplied connections; probing of the session and commit by the caller afterwards',
 'C14': 'seeded scheduling of several migrators and applications with faults on one simulated server; history checks and convergence after the others stop',
 'C15': 'seeded fault injection at introspection requests and answers, concurrent drops; no plan and no write may follow',
 'C16': 'seeded simulation over random directory trees and configurations with decoys and disk/network faults; connections made and files opened',
 'C17': 'seeded simulation of export, adoption of the exported text and re-plan; reference model of the live database',
 'C18': 'seeded simulation with mostly matching databases and application locks; server log and lock waits',
 'C19': 'seeded simulation of declarations in the less common forms of SQL, executed both by mygrations and, as they are, by the simulated server; refinement, quiescence, and refusal of what neither means; also interrupted',
}
N = ('Seeded random sampling of the real code over a simulated server, file system, network and clock, within the dialect of DESIGN.md; '
     'it finds violations, it does not prove their absence.')
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest',
     'checks': [{'property': p, 'quick_cmd': '/opt/venv/bin/python check.py %s' % p, 'thorough_cmd': '/opt/venv/bin/python check.py %s' % p,
                 'technique': 'deterministic simulation with fault injection: ' + t, 'level': 'exploration', 'level_note': N} for p, t in sorted(T.items())],
     'not_applicable': []}
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
