'''The published difficulty rules, written from their description in terms of a function
get(height) -> (timestamp, bits) over one branch.  Independent of the library.'''

from .model import compact, target_of, work_of

FORTNIGHT = 14 * 24 * 3600
LIMIT = 0x1d00ffff


def fortnightly(get, height, limit):
    '''Every 2016 blocks the target is scaled by the time the previous 2016 took.'''
    last_ts, last_bits = get(height - 1)
    if height % 2016 != 0:
        return last_bits
    first_ts, _ = get(height - 2016)
    span = last_ts - first_ts
    if span < FORTNIGHT // 4:
        span = FORTNIGHT // 4
    if span > FORTNIGHT * 4:
        span = FORTNIGHT * 4
    target = target_of(last_bits) * span // FORTNIGHT
    return limit if target > target_of(limit) else compact(target)


def mtp(get, height):
    stamps = sorted(get(h)[0] for h in range(max(0, height - 10), height + 1))
    return stamps[len(stamps) // 2]


def emergency(get, height, limit):
    '''If the last six blocks took twelve hours or more of median time, a quarter easier.'''
    bits = fortnightly(get, height, limit)
    if height % 2016 == 0:
        return bits
    if mtp(get, height - 1) - mtp(get, height - 7) < 12 * 3600:
        return bits
    target = target_of(bits)
    target += target >> 2
    return limit if target > target_of(limit) else compact(target)


def suitable(get, height):
    '''The block of height-2..height whose timestamp is the median, by the published
    three-exchange sort (which decides ties).'''
    b = [height - 2, height - 1, height]
    ts = {h: get(h)[0] for h in b}
    if ts[b[0]] > ts[b[2]]:
        b[0], b[2] = b[2], b[0]
    if ts[b[0]] > ts[b[1]]:
        b[0], b[1] = b[1], b[0]
    if ts[b[1]] > ts[b[2]]:
        b[1], b[2] = b[2], b[1]
    return b[1]


def daa144(get, height, limit):
    last = suitable(get, height - 1)
    first = suitable(get, height - 1 - 144)
    work = sum(work_of(get(h)[1]) for h in range(first + 1, last + 1))
    span = get(last)[0] - get(first)[0]
    span = min(max(span, 72 * 600), 288 * 600)
    work = work * 600 // span
    target = ((1 << 256) - work) // work
    return limit if target > target_of(limit) else compact(target)


def mainnet(get, height, ts, limit=LIMIT):
    if height < 478558:
        return fortnightly(get, height, limit)
    if height <= 504031:
        return emergency(get, height, limit)
    return daa144(get, height, limit)


def with_minimum(get, height, ts, limit, daa_height, minimum_after):
    slow = ts > get(height - 1)[0] + 20 * 60
    if height > daa_height:
        if minimum_after and slow:
            return limit
        return daa144(get, height, limit)
    if height % 2016 == 0:
        return fortnightly(get, height, limit)
    if slow:
        return limit
    h = height - 1
    while h % 2016 != 0 and get(h)[1] == limit:
        h -= 1
    return get(h)[1]


def testnet(get, height, ts, limit=LIMIT):
    return with_minimum(get, height, ts, limit, 1188697, True)


def scaling(get, height, ts, limit=LIMIT):
    return with_minimum(get, height, ts, limit, 2200, False)


RULES = {'Bitcoin': mainnet, 'BitcoinTestnet': testnet, 'BitcoinScalingTestnet': scaling,
         'BitcoinRegtest': testnet}

# Heights at which something changes
EDGES = {
    'Bitcoin': (478557, 478558, 478559, 504030, 504031, 504032, 504033, 504180, 479808, 504000,
                506016, 30240, 4032, 2016),
    'BitcoinTestnet': (1188696, 1188697, 1188698, 1188699, 1188850, 1187424, 1189440, 4032, 2016,
                       2015, 30000),
    'BitcoinScalingTestnet': (2199, 2200, 2201, 2202, 2350, 2016, 4032, 6048, 10000),
    'BitcoinRegtest': (1188697, 1188698, 2016, 2017, 4032, 12000),
}
