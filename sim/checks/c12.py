'''C12: generated mnemonics and seeds faithfully encode the entropy drawn.'''

from .. import words as W
from ..core import check, describe, det_bytes, digest, short
from ..entropy import SYSTEM_ERRORS, Entropy
from ..loader import Installation
from ..seam import WORLD

ID = 'C12'
RUNS = {'quick': 8500, 'thorough': 100000}
RULE = ('one run = a sequence of mnemonic and seed generations from a simulated system entropy '
        'source giving ordinary, boundary and repeated draws or failing; every result is decoded '
        'independently and compared with the recorded draws, and the search of new-style '
        'mnemonics is replayed; non-trivial: a fault fired or three generations; distinct by '
        'digest of the event log')
COMPONENTS = {'real': ['BIP39Mnemonic.generate/is_valid', 'ElectrumMnemonic.generate_new/'
                       'generate_old_seed/hex_seed_to_old/old_to_hex_seed/is_valid_*',
                       'Wordlists'],
              'stub': ['the system entropy source']}
STATE_MEASURE = 'distinct (generator, parameters, draw kinds, outcome)'
MUST_PROBE = ('bip39', 'old seed', 'new', 'searched down', 'searched up', 'old-style skipped',
              'old-style kept', 'error propagated', 'bad arguments refused', 'draw discarded')
LISTS = W.BIP39 + ('synthetic', 'oldish', 'synthetic3000', 'oldish2500', 'hex', 'composed', 'upper2600')


def wordlist(name):
    if name in W.SIZES:
        return W.words_of(name)
    size = int(''.join(c for c in name if c.isdigit()) or 2048)
    if name.startswith('oldish'):
        base = list(W.words_of('electrum_old.txt'))
        return base + [f'zz{k}' for k in range(size - len(base))]
    if name == 'hex':
        return [f'{k:04x}' for k in range(size)]
    if name == 'composed':
        return [f'{chr(0xe0 + k % 23)}{k}\ufb01' for k in range(size)]
    if name.startswith('upper'):
        return [f'W{k}\u00c9' for k in range(size)]
    return [f'w{k}x' for k in range(size)]


def generate(rng, tier, index):
    ops = []
    for _ in range(rng.choice((1, 2, 5))):
        what = rng.choice(('bip39', 'bip39', 'old', 'new', 'new', 'new'))
        draws = []
        op = {'op': what, 'sticky': rng.random() < 0.1}
        if what == 'bip39':
            op['list'] = rng.choice(W.BIP39 + ('synthetic',))
            op['bits'] = rng.choice((None, 128, 160, 192, 224, 256))
            if rng.random() < 0.05:
                op['bits'] = rng.choice((0, 1, 64, 96, 129, 512, -128))
        elif what == 'old':
            op['count'] = rng.choice((None, 12, 24, 24))
            if rng.random() < 0.05:
                op['count'] = rng.choice((0, 13, 18, 36))
        else:
            op['list'] = rng.choice(LISTS)
            op['prefix'] = rng.choice((None, '01', '01', '', '0', '100', '101', '2', 'f', '100'))
            op['bits'] = rng.choice((None, None, 132, 133, 143, 144, 160, 165, 200, 264, 265, 300))
            op['skip'] = rng.choice((None, True, True, False))
            if rng.random() < 0.04:
                op['bits'] = rng.choice((131, 0, 11))
        for _ in range(rng.choice((0, 1, 1, 2, 4))):
            r = rng.random()
            if rng.random() < 0.2 and what != 'new':
                draws.append(['part', rng.choice((0, 0, 0, 8, rng.randrange(32))),
                              rng.choice((1, 1, 2, 3, 8, 15, 16, 31)),
                              rng.choice((0, 0, 0, 255, 0x11))])
            elif r < 0.1:
                draws.append(['zero'])
            elif r < 0.2:
                draws.append(['ones'])
            elif r < 0.3:
                draws.append(['repeat'])
            elif r < 0.4:
                draws.append(['err', rng.getrandbits(8)])
            elif r < 0.85 and what == 'new':
                size = len(wordlist(op['list']))
                count = count_for(size, max(op['bits'] or 132, 132))
                lo, hi = size ** (count - 1), size ** count
                base = rng.choice((lo, lo, hi, (lo + hi) // 2, 0))
                m = (base + rng.choice((-2, -1, 0, 1, 2, 3, rng.randint(-400, 400)))) % hi
                draws.append(['value', m + hi * rng.choice((0, 1, 2, 30))])
            else:
                draws.append(['good'])
        op['draws'] = draws
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


def count_for(size, bits):
    count = 1
    while size ** count < 1 << bits:
        count += 1
    return count


def execute(plan, ctx):
    bx = Installation().bx
    seen = {}
    done = 0
    for k, op in enumerate(plan['ops']):
        ctx.step()
        draws = op['draws']
        if op['sticky'] and draws and draws[-1][0] == 'err':
            draws = draws + [draws[-1]] * 50
        source = Entropy(f'{plan["seed"]}/{k}', draws, SYSTEM_ERRORS)
        what = op['op']
        bad = False
        kwargs = {}
        if what == 'bip39':
            words = list(wordlist(op['list']))
            if op['bits'] is not None:
                kwargs['bits'] = op['bits']
            bad = op['bits'] not in (None, 128, 160, 192, 224, 256)

            def call():
                return bx.BIP39Mnemonic.generate(words, **kwargs)
        elif what == 'old':
            if op['count'] is not None:
                kwargs['word_count'] = op['count']
            bad = op['count'] not in (None, 12, 24)

            def call():
                return bx.ElectrumMnemonic.generate_old_seed(**kwargs)
        else:
            words = list(wordlist(op['list']))
            for name, arg in (('prefix', 'prefix'), ('bits', 'bits'), ('skip', 'skip_old')):
                if op[name] is not None:
                    kwargs[arg] = op[name]
            bad = op['bits'] is not None and op['bits'] < 132

            def call():
                return bx.ElectrumMnemonic.generate_new(words, **kwargs)
        WORLD.entropy = source
        try:
            result = call()
        except BaseException as e:
            WORLD.entropy = None
            if bad and isinstance(e, ValueError):
                ctx.probe('bad arguments refused')
                continue
            if source.raised is None:
                raise
            check(e is source.raised, 'error-replaced',
                  lambda: f'{describe(source.raised)} came out as {describe(e)}')
            ctx.probe('error propagated')
            result = None
        else:
            WORLD.entropy = None
            check(not bad, 'bad-arguments', lambda: f'{op} gave {result}')
            check(source.raised is None, 'error-swallowed',
                  lambda: f'{what} returned although the source raised')
        for name in source.fired:
            ctx.fault(name)
        drawn = [d for _, d in source.record]
        ctx.state(what, sorted((a, str(b)) for a, b in op.items() if a != 'draws'),
                  [d[0] for d in draws[:source.count]], result is None)
        ctx.log(what, kwargs, [digest(d) for d in drawn], result and digest(result))
        if result is None:
            continue
        done += 1
        check(drawn, 'no-entropy', f'{what} drew nothing')
        if what == 'bip39':
            bip39(bx, op, words, drawn, result, ctx)
            key = (op['list'], result)
            check(seen.setdefault(key, drawn) == drawn, 'not-distinct',
                  lambda: f'{result} was generated from two different draws')
        elif what == 'old':
            old(bx, op, drawn, result, ctx)
            check(seen.setdefault(result, drawn) == drawn, 'not-distinct', lambda: result)
        else:
            new(bx, op, words, drawn, result, ctx)
    if done >= 3:
        ctx.nontrivial = True


def bip39(bx, op, words, drawn, result, ctx):
    bits = op['bits'] or 128
    entropy = b''.join(drawn)
    check(len(entropy) * 8 == bits, 'wrong-amount',
          lambda: f'{len(entropy)} bytes drawn for {bits} bits')
    check(result.split(' ') == W.bip39_words(entropy, words), 'wrong-mnemonic',
          lambda: f'{short(result)} does not encode the entropy {entropy.hex()}')
    check(W.bip39_entropy(result, words) == entropy, 'wrong-mnemonic', 'does not decode')
    check(bx.BIP39Mnemonic.is_valid(result, words), 'wrong-mnemonic',
          lambda: f'{short(result)} is reported invalid')
    ctx.probe('bip39')


def old(bx, op, drawn, result, ctx):
    E = bx.ElectrumMnemonic
    size = (op['count'] or 12) * 4 // 3
    check(result == b''.join(drawn).hex() and len(result) == 2 * size, 'wrong-seed',
          lambda: f'seed {result} from {[d.hex() for d in drawn]}')
    text = E.hex_seed_to_old(result)
    check(text == W.old_words(bytes.fromhex(result)), 'wrong-words',
          lambda: f'{result} became {text}')
    check(len(text.split()) == (op['count'] or 12), 'wrong-words', lambda: text)
    check(E.old_to_hex_seed(text) == result, 'wrong-seed',
          lambda: f'{result} came back as {E.old_to_hex_seed(text)}')
    check(E.is_valid_old(text) and E.is_valid_old(result), 'wrong-validity', lambda: result)
    ctx.probe('old seed')


def new(bx, op, words, drawn, result, ctx):
    E = bx.ElectrumMnemonic
    prefix = '01' if op['prefix'] is None else op['prefix']
    bits = op['bits'] or 132
    skip = op['skip'] is not False
    size = len(words)
    index = {w: k for k, w in enumerate(words)}
    parts = result.split(' ')
    check(all(p in index for p in parts), 'wrong-mnemonic', lambda: result)
    count = count_for(size, bits)
    check(len(parts) == count, 'wrong-word-count',
          lambda: f'{len(parts)} words for {bits} bits of {size} words: {result}')

    def good(n):
        phrase = W.electrum_phrase(n, words)
        if not W.is_new(phrase, prefix):
            return False
        if W.is_old(phrase):
            ctx.probe('old-style skipped' if skip else 'old-style kept')
            return not skip
        return True

    m = W.electrum_number(result, index, size)
    check(good(m), 'wrong-mnemonic', lambda: f'{result} is not a seed with prefix {prefix}' + (
        ' or is also an old-style seed' if skip else ''))
    check(E.is_valid_new(result, prefix), 'wrong-validity', lambda: result)
    check(E.is_valid_old(result) == W.is_old(result), 'wrong-validity', lambda: result)
    modulus = size ** count
    check(len(drawn[-1]) * 8 >= bits, 'wrong-amount',
          lambda: f'{len(drawn[-1])} bytes drawn for {bits} bits')
    d = int.from_bytes(drawn[-1], 'big') % modulus
    limit = 5000 + 5 * 60 * 16 ** len(prefix)
    check(abs(m - d) <= limit, 'not-drawn',
          lambda: f'{result} is not near the entropy drawn {drawn[-1].hex()}')
    step = 1 if m > d else -1
    n = d
    while n != m:
        check(not good(n), 'search-skipped',
              lambda: f'{W.electrum_phrase(n, words)} is acceptable and nearer the entropy')
        n += step
    if len(drawn) > 1:
        ctx.probe('draw discarded')
    ctx.probe('searched up' if m > d else 'searched down' if m < d else 'drawn at once')
    ctx.probe('new')
