'''Core vocabulary of the simulator: violations, the per-run context, seeds, digests.

Nothing here reads a real clock or draws from a PRNG: logging never perturbs a run.
'''

import hashlib
import json
import random


class Violation(Exception):
    '''The property under test is broken.  cls is the stable class used when shrinking.'''

    def __init__(self, cls, message):
        super().__init__(f'{cls}: {message}')
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    '''The machinery itself is at fault (never reported as a violation).'''


class NoProgress(BaseException):
    '''A run exceeded its budget.'''


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))


def digest(text, size=8):
    if isinstance(text, str):
        text = text.encode()
    return hashlib.blake2b(text, digest_size=size).hexdigest()


def seed_for(prop, verif_seed, index):
    '''The one integer that decides run number index of a check.'''
    h = hashlib.sha256(f'{prop}:{verif_seed}:{index}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(seed):
    return random.Random(seed)


def stream(*parts):
    '''Deterministic byte-stream generator seeded by parts.'''
    return hashlib.shake_256('|'.join(str(p) for p in parts).encode())


def det_bytes(n, *parts):
    return stream(*parts).digest(n)


class Ctx:
    '''What one run records: fault counts, probes, states, an event log digest.'''

    def __init__(self, keep_log=False):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.steps = 0
        self.nontrivial = False
        self.known = []          # ids of known findings that were hit
        self._h = hashlib.blake2b(digest_size=16)
        self.keep = [] if keep_log else None
        self.cur_op = None
        self.recorded = []       # scheduling decisions, where a scheduler made them

    def fault(self, kind, n=1):
        self.nontrivial = True
        self.background(kind, n)

    def background(self, kind, n=1):
        '''A fault that shaped the schedule, but does not by itself make a run count.'''
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(digest('|'.join(map(str, parts))))

    def log(self, *parts):
        text = ' '.join(str(p) for p in parts)
        self._h.update(text.encode())
        self._h.update(b'\n')
        if self.keep is not None:
            self.keep.append(text)

    def step(self):
        self.steps += 1

    def log_digest(self):
        return self._h.hexdigest()


def check(cond, cls, message):
    if not cond:
        raise Violation(cls, message() if callable(message) else message)


def short(obj, n=300):
    text = repr(obj)
    return text if len(text) <= n else text[:n] + '...'


def describe(exc):
    return f'{type(exc).__name__}: {short(str(exc), 200)}'
