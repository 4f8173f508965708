'''Replays a violation file, or prints run digests (for determinism checks).'''

import json
import sys

from . import runner, seam
from .core import canon


def main():
    seam.install()
    args = sys.argv[1:]
    if args and args[0] == '--digests':
        _, prop, tier, seed, indices = args
        check = runner.load_check(prop)
        if hasattr(check, 'prepare'):
            check.prepare()
        for i in map(int, indices.split(',')):
            res = runner.isolated(check, runner.make_plan(check, tier, int(seed), i))
            print('DIGEST', i, res['log_digest'])
        return 0
    path = args[0]
    with open(path) as f:
        data = json.load(f)
    check = runner.load_check(data['property'])
    if hasattr(check, 'prepare'):
        check.prepare()
    steps = runner.STEP_BUDGET if data['violation'][0] == 'no-progress' else None
    res = runner.isolated(check, data['plan'], steps=steps, keep_log=True)
    if '--json' in args:
        res.pop('log', None)
        print(json.dumps(res))
        return 0
    for line in (res.get('log') or [])[-60:]:
        print('  ', line)
    print(canon({'ops': data['plan'].get('ops')})[:4000])
    if res.get('violation'):
        cls, msg = res['violation']
        print(f'violation class={cls}: {msg}')
        print('event log', 'identical' if res['log_digest'] == data['log_digest'] else 'differs')
        print(f'VIOLATION property={data["property"]} replay={path}')
        return 1
    print('no violation', res.get('error') or '')
    return 0


if __name__ == '__main__':
    sys.exit(main())
