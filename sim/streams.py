'''Simulated byte streams: a connection that ends early, delivers short reads or fails.'''


class InjectedError(Exception):
    pass


class InjectedOSError(ConnectionResetError):
    pass


class InjectedTimeout(TimeoutError):
    pass


class InjectedStop(KeyboardInterrupt):
    pass


ERRORS = (InjectedError, InjectedOSError, InjectedTimeout, EOFError, InjectedStop,
          ValueError, IndexError, MemoryError, KeyError, AssertionError, NotImplementedError)


class SimStream:
    '''read(n) over data.  fault: {'call': k, 'do': 'short'|'err', ...} acts at the k-th read
    that asks for at least one byte.'''

    def __init__(self, data, pos=0, end=None, fault=None, kind=bytes):
        self.data = data
        self.pos = pos
        self.end = len(data) if end is None else end
        self.fault = dict(fault) if fault else None
        self.calls = 0
        self.kind = kind
        self.fired = None
        self.error = None
        self.log = []

    def read(self, n=-1):
        avail = self.end - self.pos
        want = avail if n is None or n < 0 else n
        k = min(want, avail)
        f = self.fault
        if want > 0:
            self.calls += 1
            if f is not None and self.calls - 1 == f['call']:
                if f['do'] == 'err':
                    self.fault = None
                    self.error = ERRORS[f['pick'] % len(ERRORS)]('injected')
                    self.fired = 'stream error'
                    raise self.error
                if f['do'] == 'short' and k > 0:
                    self.fault = None
                    unit = f.get('unit', 1)
                    if k > unit > 1:
                        k = (1 + f['pick'] % ((k - 1) // unit)) * unit
                    else:
                        k = f['pick'] % k
                    self.fired = 'short read'
        data = self.data[self.pos: self.pos + k]
        self.pos += k
        if k < want and self.fired is None:
            self.fired = 'end of stream'
        return self.kind(data)
