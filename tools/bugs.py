'''bugs.py [DIR] [IDS...] [--workers=N]: run each planted bug's check on a scratch copy of /repo,
and print a line of the table of catches per bug.'''
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    root = args.pop(0) if args and os.path.isdir(args[0]) else os.path.join(HERE, 'seeded')
    ids = args or sorted(os.listdir(root))
    extra = [f for a in sys.argv[1:] if a.startswith('--workers=') for f in a.split('=')]
    for name in ids:
        prop = json.load(open(f'{root}/{name}/meta.json'))['property']
        work = tempfile.mkdtemp(prefix='bug-')
        try:
            repo = work + '/repo'
            shutil.copytree('/repo', repo, symlinks=True)
            subprocess.run(['git', 'apply', f'{root}/{name}/patch.diff'], cwd=repo, check=True)
            r = subprocess.run([HERE + '/check', prop, '--no-evidence', '--no-shrink', *extra],
                               cwd=HERE, env=dict(os.environ, VERIF_REPO=repo),
                               capture_output=True, text=True, timeout=900)
            lines = [x for x in r.stdout.splitlines() if x.startswith('violation class')]
            word = 'CAUGHT' if r.returncode == 1 else f'MISSED({r.returncode})'
            print(word, name, (lines or [r.stderr[-300:]])[0][:150], flush=True)
        finally:
            shutil.rmtree(work)


if __name__ == '__main__':
    main()
