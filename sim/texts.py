'''Texts in which characters that look, sort or fold alike occur, and ways of respelling them.'''

import unicodedata

PIECES = ('a', 'A', 'b', ' ', '  ', '\t', '\n', '\r\n', '\r', '\0', '.', '1', 'é', 'e\u0301', '\u00c5',
          '\u212b', 'A\u030a', '\ufb01', 'fi', '\u2460', '\u00a0', '\u200b', '\ufeff', 'ß', 'ss',
          '\u0130', 'i\u0307', 'ſ', 's', '\u1e9b\u0323', '日', '\u3000', '\uac00',
          '\u1100\u1161', '\U0001f600', '\U0001f468\u200d\U0001f469', '\u0661', '%', '%20', '&amp;',
          '&', "'", '"', '\u2019', '\\n', '\\', '?', '\ufffd')
HOWS = ('NFC', 'NFD', 'NFKC', 'NFKD', 'lower', 'upper', 'casefold', 'strip', 'collapse', 'newline',
        'crlf', 'add newline', 'add space', 'lead space', 'add nul', 'bom', 'drop nul', 'drop last',
        'double', 'unescape', 'zero width', 'ascii', 'bytes', 'latin-1', 'utf-16')


def gen_text(rng):
    return [rng.randrange(len(PIECES)) for _ in range(rng.choice((1, 2, 3, 6)))]


def text(pieces):
    return ''.join(PIECES[k % len(PIECES)] for k in pieces)


def gen_how(rng):
    return rng.randrange(len(HOWS))


def respell(s, how):
    '''Return another text (str or bytes) that somebody may take for s.'''
    how = HOWS[how % len(HOWS)]
    if how.startswith('NF'):
        return unicodedata.normalize(how, s)
    if how in ('lower', 'upper', 'casefold', 'strip'):
        return getattr(s, how)()
    if how == 'collapse':
        return ' '.join(s.split())
    if how == 'newline':
        return s.replace('\r\n', '\n').replace('\r', '\n')
    if how == 'crlf':
        return s.replace('\r\n', '\n').replace('\n', '\r\n')
    if how == 'unescape':
        return s.replace('\\n', '\n').replace('%20', ' ').replace('&amp;', '&')
    if how == 'zero width':
        return s.replace('\u200b', '').replace('\ufeff', '').replace('\u200d', '')
    if how == 'ascii':
        return s.encode('ascii', 'replace').decode()
    if how == 'bytes':
        return s.encode()
    if how == 'latin-1':
        return s.encode('latin-1', 'replace')
    if how == 'utf-16':
        return s.encode('utf-16')
    return {'add newline': s + '\n', 'add space': s + ' ', 'lead space': ' ' + s,
            'add nul': s + '\0', 'bom': '\ufeff' + s, 'drop nul': s.replace('\0', ''),
            'drop last': s[:-1], 'double': s + s}[how]


def unencodable(s):
    '''Texts that no bytes can stand for, which somebody may take for s.'''
    yield s + '\ud800'
    yield '\udfff' + s
    yield s + '\udc80'
    for old in ('?', '\ufffd', 'a', '\U0001f600'):
        if old in s:
            yield s.replace(old, '\ud83d' if old != 'a' else '\udc61', 1)
