'''C17: word lists load exactly or fail cleanly, in any locale and under I/O faults.'''

from .. import words as W
from ..core import check, describe, det_bytes, digest, short
from ..disk import SimDisk
from ..entropy import Entropy
from ..loader import Installation
from ..seam import WORLD

ID = 'C17'
RUNS = {'quick': 14000, 'thorough': 20000}
RULE = ('one run = a process in some locale loading and using the shipped word lists, in any '
        'order and repeatedly, from a simulated disk where any system call may fail, reads may '
        'be short and files may be truncated, damaged, replaced or missing for a while; every '
        'load is compared with an independent reading of the shipped file; non-trivial: at '
        'least one fault or a locale other than UTF-8; distinct by digest of the event log')
COMPONENTS = {'real': ['Wordlists', 'ElectrumMnemonic old-seed conversion', 'Python text I/O'],
              'stub': ['disk holding the data files', 'locale encoding', 'entropy source']}
STATE_MEASURE = 'distinct (list, locale, fault, outcome, loaded before)'
MUST_PROBE = ('loaded', 'loaded again', 'error raised', 'loaded after error',
              'other locale', 'damaged refused', 'short read survived', 'wrong size refused')
LOCALES = ('utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'cp932', 'gbk', 'koi8-r', 'utf-16',
           'cp437', 'utf-8-sig', 'utf-7')
LISTS = tuple(W.SIZES)


def generate(rng, tier, index):
    ops = []
    names = rng.sample(LISTS, rng.choice((1, 2, 3)))
    for _ in range(rng.choice((2, 4, 8))):
        op = {'op': rng.choice(('load', 'load', 'load', 'use', 'misuse')),
              'name': rng.choice(names), 'v': rng.getrandbits(20)}
        r = rng.random()
        if r < 0.25:
            op['fault'] = {'at': rng.choice((0, 0, 1, 2, 3, 5)), 'do': 'err',
                           'pick': rng.getrandbits(10)}
        elif r < 0.35:
            op['fault'] = {'at': rng.choice((0, 0, 1, 2)), 'do': 'short', 'kind': 'read',
                           'pick': rng.getrandbits(20)}
        elif r < 0.65:
            op['damage'] = [rng.choice(('trunc', 'trunc', 'flip', 'zero', 'dupline', 'dropline',
                                        'empty', 'missing', 'swap', 'append', 'space', 'tail',
                                        'latin', 'blank')), rng.getrandbits(30)]
        ops.append(op)
    return {'cfg': {'locale': rng.choice(LOCALES)}, 'ops': ops}


def damage(name, data, kind, a):
    if kind == 'trunc':
        return data[:a % len(data)]
    if kind == 'tail':
        return data[:len(data) - 1 - a % 12]
    if kind == 'empty':
        return b''
    if kind == 'missing':
        return None
    if kind == 'swap':
        others = [n for n in LISTS if n != name]
        return W.raw_file(others[a % len(others)])
    if kind == 'append':
        return data + (b'\nextra\n', b'extra', b'\n\n\n', b'# comment\n', b'\x00')[a % 5]
    i = a % len(data)
    if kind == 'flip':
        return data[:i] + bytes([data[i] ^ 1 << (a >> 20) % 8]) + data[i + 1:]
    if kind == 'zero':
        return data[:i] + bytes(len(data[i:i + 512])) + data[i + 512:]
    if kind == 'latin':
        return data[:i] + b'\xe9' + data[i:]
    lines = data.split(b'\n')
    j = a % (len(lines) - 1)
    if kind == 'dupline':
        lines.insert(j, lines[j])
    elif kind == 'dropline':
        del lines[j]
    elif kind == 'space':
        lines[j] = lines[j][:1] + b' ' + lines[j][1:]
    elif kind == 'blank':
        lines.insert(j, b'')
    return b'\n'.join(lines)


def meaning(name, data):
    '''The words damaged data would hold, or None if that is not a list of the right size.'''
    if data is None:
        return None
    try:
        words = W.parse(data)
    except UnicodeDecodeError:
        return None
    if len(words) != W.SIZES[name] or any(' ' in w for w in words):
        return None
    return words


def execute(plan, ctx):
    bx = Installation().bx
    disk = SimDisk('data', ctx)
    disk.locale = plan['cfg']['locale']
    WORLD.data_disk = disk
    WORLD.entropy = Entropy(plan['seed'])
    if disk.locale != 'utf-8':
        ctx.fault('locale ' + disk.locale)
    for name in LISTS:
        disk.put_file(disk.root + name, W.raw_file(name))
    loaded = {}
    failed = set()
    for k, op in enumerate(plan['ops']):
        ctx.step()
        name, what = op['name'], op['op']
        if what == 'misuse':
            # The old list is no BIP39 list, whatever was loaded before
            try:
                got = bx.Wordlists.bip39_wordlist('electrum_old.txt')
            except Exception as e:
                ctx.log(k, 'misuse', type(e).__name__)
                ctx.probe('wrong size refused')
            else:
                check(False, 'wrong-size', lambda: f'bip39_wordlist of the old list gave '
                                                   f'{len(got)} words')
            continue
        if what == 'use':
            name = 'electrum_old.txt'
        path = disk.root + name
        data = allowed = None
        if 'damage' in op:
            data = damage(name, W.raw_file(name), *op['damage'])
            allowed = meaning(name, data)
            if data is None:
                del disk.names[disk.key(path)]
            else:
                disk.put_file(path, data)
            ctx.fault('file ' + op['damage'][0])
            if data is not None and data == W.raw_file(name):
                allowed = W.words_of(name)
        right = loaded.get(name, W.words_of(name))

        def call():
            if what == 'use':
                seed = det_bytes(16 + op['v'] % 2 * 16, 'old', op['v'])
                return seed, bx.ElectrumMnemonic.hex_seed_to_old(seed.hex())
            if name == 'electrum_old.txt':
                return bx.Wordlists.original_electrum_wordlist()
            return bx.Wordlists.bip39_wordlist(name)
        disk.begin_op(op.get('fault'))
        err = None
        if data is None and 'damage' in op:
            # the seam would fall back to the shipped file: keep it missing
            disk.missing = {disk.key(path)}
        try:
            got = call()
        except Exception as e:
            got, err = None, e
        fired = disk.end_op()
        disk.missing = set()
        disk.put_file(path, W.raw_file(name))
        cause = fired and fired[0] or op.get('damage', [None])[0]
        if err is not None:
            check(fired is not None and fired[0] != 'short' or 'damage' in op, 'refused',
                  lambda: f'loading {name} in locale {disk.locale} raised {describe(err)}')
            check(not ('damage' in op and allowed is not None and not fired and
                       allowed == W.words_of(name) and name not in loaded), 'refused',
                  lambda: f'{name} holding the right words was refused: {describe(err)}')
            ctx.probe('error raised')
            if 'damage' in op:
                ctx.probe('damaged refused')
            failed.add(name)
        elif what == 'use':
            seed, text = got
            if allowed is not None and name not in loaded:
                # it may hold the damaged words now
                now = list(bx.Wordlists.original_electrum_wordlist())
                check(now in (allowed, right), 'wrong-words', lambda: f'{name} under {cause}')
                right = now
            check(right != W.words_of(name) or text == W.old_words(seed), 'wrong-words',
                  lambda: f'{seed.hex()} became {text}')
        else:
            got = list(got)
            if name not in loaded and allowed is not None and got == allowed:
                right = allowed
            check(got == right, 'wrong-words',
                  lambda: f'{name} in locale {disk.locale} under {cause} loaded as '
                          f'{len(got)} words {short(got[:4])}, should be {len(right)} '
                          f'{short(right[:4])}')
            ctx.probe('loaded again' if name in loaded else 'loaded')
            if name in failed:
                ctx.probe('loaded after error')
            if disk.locale != 'utf-8':
                ctx.probe('other locale')
            if fired and fired[0] == 'short':
                ctx.probe('short read survived')
        if err is None and name not in loaded:
            loaded[name] = right
        if fired:
            ctx.fault('disk ' + fired[0])
        ctx.state(name, disk.locale, fired and fired[:2], cause, err is None, name in loaded)
        ctx.log(k, what, name, cause, err is None)
    # With everything repaired the lists are there
    for name in LISTS:
        if name not in loaded:
            try:
                got = (bx.Wordlists.original_electrum_wordlist() if name == 'electrum_old.txt'
                       else bx.Wordlists.bip39_wordlist(name))
            except Exception as e:
                check(False, 'refused', lambda: f'loading {name} in locale {disk.locale} after '
                                                f'the faults raised {describe(e)}')
            check(list(got) == W.words_of(name), 'wrong-words', lambda: f'{name} at the end')
    ctx.log('end', digest(repr(sorted(loaded))))
