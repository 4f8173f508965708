'''Rewrites MANIFEST.json from properties.jsonl and the checks that exist.'''
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = 'deterministic simulation with fault injection (seeded search, shrinking, exact replay)'

NA = {
    'C21': 'Serialization of one in-memory value: a pure function of its argument, with no '
           'schedule, clock, I/O, randomness or second party for a simulator to control. (Its '
           'stream side, which meets short reads and errors, is decided under C10.)',
    'C22': 'Pure function of one script; no source of nondeterminism or fault to simulate.',
    'C23': 'Pure function of one script; no source of nondeterminism or fault to simulate.',
    'C24': 'Pure integer arithmetic on one argument; nothing to schedule or fail. (Its use in '
           'difficulty rules is exercised under C01, C03 and C09.)',
    'C25': 'Fault-free conversion is a pure function; the part with an environment (text damaged '
           'in transit) is C15.',
    'C26': 'Pure arithmetic on one or two keys; no environment to simulate.',
    'C27': 'Pure conversion of one byte string; no environment to simulate.',
    'C28': 'Pure function of phrase and passphrase; generation, which draws entropy, is C12.',
}

NOTES = {
    'default': 'Seeded search over simulated histories against an independent reference; no '
               'proof: assurance grows with the number of distinct runs reported in evidence. '
               'Trusts the simulated environment and the reference model.',
}


def main():
    checks = []
    na = []
    with open(f'{HERE}/properties.jsonl') as f:
        props = [json.loads(line) for line in f]
    for p in props:
        pid = p['id']
        path = f'{HERE}/sim/checks/{pid.lower()}.py'
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
        elif os.path.exists(path):
            mod = importlib.import_module(f'sim.checks.{pid.lower()}')
            checks.append({
                'property': pid,
                'quick_cmd': f'./check {pid}',
                'thorough_cmd': f'./check {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json',
                'technique': TECH,
                'level': 'exploration',
                'level_note': getattr(mod, 'LEVEL_NOTE', NOTES['default']),
            })
        else:
            na.append({'property': pid, 'reason': 'Check not built yet.'})
    manifest = {
        'version': 1,
        'setup_cmd': './setup',
        'hooks': {
            'guard': 'none',
            'enable': 'No hooks in /repo: every seam (files, memory maps, entropy, HMAC, clocks, '
                      'threads, streams) is interposed from outside by sim/seam.py and '
                      'sim/loader.py when a check loads the library.',
            'source_commits': [],
        },
        'checks': checks,
        'not_applicable': na,
        'notes': 'See DESIGN.md. ./check ID [--tier thorough] [--seed N]; ./replay FILE.',
    }
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
