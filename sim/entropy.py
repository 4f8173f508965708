'''The simulated entropy source: every draw is decided by the plan and recorded.'''

from . import ec
from .core import NoProgress, det_bytes


class EntropyFailure(Exception):
    pass


class EntropyOSError(OSError):
    pass


class EntropyValueError(ValueError):
    pass


class EntropyInterrupt(KeyboardInterrupt):
    pass


ERRORS = (EntropyOSError, EntropyFailure, EntropyValueError, NotImplementedError,
          EntropyInterrupt, MemoryError, AssertionError, EOFError, KeyError,
          TypeError, OverflowError, RuntimeError)
# What a real system source can raise
SYSTEM_ERRORS = (EntropyOSError, NotImplementedError, MemoryError, EntropyInterrupt)
MAX_DRAWS = 3000


def number(n, size):
    return n.to_bytes(32, 'big') + det_bytes(size - 32, 'tail', n) if size >= 32 else \
        (n % (1 << 8 * size)).to_bytes(size, 'big')


class Entropy:
    '''draws: list of specs, consumed one per draw; afterwards ordinary random draws.'''

    def __init__(self, seed, draws=(), errors=ERRORS):
        self.seed = seed
        self.pending = [list(d) for d in draws]
        self.errors = errors
        self.count = 0
        self.record = []        # (requested size, bytes)
        self.raised = None
        self.fired = []

    def __call__(self, n):
        return self.draw(n)

    def good(self, n):
        return det_bytes(n, 'entropy', self.seed, self.count)

    def draw(self, n):
        self.count += 1
        if self.count > MAX_DRAWS:
            raise NoProgress()
        spec = self.pending.pop(0) if self.pending else ['good']
        kind = spec[0]
        if kind == 'err':
            self.raised = self.errors[spec[1] % len(self.errors)]('simulated entropy failure')
            self.fired.append('entropy error')
            raise self.raised
        if kind == 'good':
            data = self.good(n)
        elif kind == 'zero':
            data = bytes(n)
        elif kind == 'ones':
            data = b'\xff' * n
        elif kind == 'order':
            data = number(ec.N + spec[1], n)
        elif kind == 'small':
            data = number(1 + spec[1], n)
        elif kind == 'value':
            data = (spec[1] % (1 << 8 * n)).to_bytes(n, 'big')
        elif kind == 'short':
            data = self.good(n)[:spec[1] % n if n else 0]
        elif kind == 'long':
            data = self.good(n + 1 + spec[1])
        elif kind == 'part':
            # A stretch of one byte value within an ordinary draw
            data = bytearray(self.good(n))
            start = spec[1] % n if n else 0
            stretch = data[start: start + spec[2]]
            data[start: start + len(stretch)] = bytes([spec[3]]) * len(stretch)
            data = bytes(data)
        elif kind == 'twin':
            # The second half is the same as the first
            half = self.good(n)[:(n + 1) // 2]
            data = (half + half)[:n]
        elif kind == 'repeat':
            data = self.record[-1][1] if self.record else self.good(n)
            if len(data) != n:
                data = self.good(n)
        else:
            raise AssertionError(kind)
        if kind != 'good':
            self.fired.append('draw ' + kind)
        self.record.append((n, data))
        return data
