"""Writes MANIFEST.json: the checks that exist are claimed, the other properties are listed as not claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'default': ('runtime monitoring of randomized executions against an independent reference model',
             'The real code runs on randomly generated, hostile and edge-case inputs; every result is judged by an independent model. Holds for what was executed; trusts numpy, netCDF4 and the Python 3 translation that the build uses.'),
 'C01': ('round-trip monitor on randomly generated object graphs and catalogues',
         'Every value saved is compared with the value loaded, on generated catalogues; trusts netCDF4 and json.'),
 'C02': ('recorded event log of run modules checked offline for exactly-once execution with the right inputs and outputs',
         'Run modules record each execution and its parameters; the log is compared with the schedule computed from the definition. Holds for the definitions, batch sizes and command sequences executed.'),
 'C03': ('monitor of search and checksum results under injected delays, failures and listing orders',
         'Directory order, thread count, delays of cksum and file changes are injected; each record is compared with what is known of the file made.'),
 'C04': ('monitor of conversions against exact integer calendar arithmetic, in Python and C++ under several time zones',
         'Random and special dates; trusts the datetime module of the Python standard library.'),
 'C07': ('AddressSanitizer, UndefinedBehaviorSanitizer and leak checks on the compiled code under hostile inputs',
         'Every compiled part is built with sanitizers and driven with edge-case arrays and damaged files; a report or a crash is a violation.'),
}
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, absent = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        technique, note = NOTE.get(i, NOTE['default'])
        checks.append({'property': i, 'quick_cmd': 'bash run.sh %s quick' % i, 'thorough_cmd': 'bash run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': technique, 'level': 'exploration', 'level_note': note})
    else:
        absent.append({'property': i, 'reason': 'no check has been built yet'})
manifest = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': absent,
            'notes': 'No hooks in /repo: the monitors drive the public interfaces and replace collaborators at run time. run.sh builds from /repo into build/ (ignored by git).'}
json.dump(manifest, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(absent), 'not')
