"""Independent model of the five notations and of the plain listings.

A syllable is a five-letter code (initial, second consonant, vowel, final,
tone); plain text is ('(', text) shaped by the notations as "(text)"."""

INIT = 'kcgjJydtTnbpPfmrlwsh?'
SECOND = '_rlw'
VOWEL = 'aAiIvVuUeExXyYzZtToOcCwW'
FINAL = '_ktpgnmyw'
TONE = '01234'
SHORT = 'aivuexyztocw'

_ROMAN_INIT = dict(zip(INIT, 'k kh ng ch ch y d t th n b p ph f m r l w s h'.split() + ['']))
_ROMAN_VOWEL = {}
for _p, _s in (('aA', 'a'), ('iI', 'i'), ('vV', 'ue'), ('uU', 'u'), ('eE', 'e'), ('xX', 'ae'), ('yY', 'ia'),
               ('zZ', 'uea'), ('tT', 'ua'), ('oO', 'o'), ('cC', 'o'), ('wW', 'oe')):
    for _c in _p:
        _ROMAN_VOWEL[_c] = _s
_ROMAN_FINAL = dict(zip(FINAL, ['', 'k', 't', 'p', 'ng', 'n', 'm', 'i', 'o']))
_PHON_VOWEL = dict(zip(VOWEL, 'ah aa ih iy ueh uee uh uw eh ey aeh aee iah iaa ueah ueaa uah uaa oh ow aoh aow oeh oee'.split()))
_PHON_FINAL = dict(_ROMAN_FINAL, y='y', w='w')
_SEC = {'_': '', 'r': 'r', 'l': 'l', 'w': 'w'}

_MID = {'k': 'ก', 'j': 'จ', 'd': 'ด', 't': 'ต', 'b': 'บ', 'p': 'ป', '?': 'อ'}
# initial -> spelling in high class, spelling in low class
_HILO = {'c': 'ขค', 'J': 'ฉช', 'T': 'ถท', 'P': 'ผพ', 'f': 'ฝฟ', 's': 'สซ', 'h': 'หฮ'}
_SONORANT = {'g': 'ง', 'y': 'ย', 'n': 'น', 'm': 'ม', 'r': 'ร', 'l': 'ล', 'w': 'ว'}
_END = {'_': '', 'k': 'ก', 't': 'ด', 'p': 'บ', 'g': 'ง', 'n': 'น', 'm': 'ม', 'y': 'ย', 'w': 'ว'}
_MARK = ['', '่', '้', '๊', '๋']


def roman(c):
    return _ROMAN_INIT[c[0]] + _SEC[c[1]] + _ROMAN_VOWEL[c[2]] + _ROMAN_FINAL[c[3]]


def phonetic(c):
    i = 'j' if c[0] == 'j' else _ROMAN_INIT[c[0]]
    return i + _SEC[c[1]] + _PHON_VOWEL[c[2]] + _PHON_FINAL[c[3]] + c[4]


_GROUPS = None


def soundex(c):
    return ('l' if c[0] == 'r' else c[0]) + c[2].lower() + c[3]


def is_dead(short, final):
    return final in 'ktp' if final != '_' else short


def _onset(c, short):
    """Consonant letters and tone mark that give initial and tone in a
    syllable of this shape."""
    tone = int(c[4])
    dead = is_dead(short, c[3])
    sec = '' if c[1] == '_' else 'ฺ' + {'r': 'ร', 'l': 'ล', 'w': 'ว'}[c[1]]
    if c[0] in _MID:
        mark = _MARK[tone]
        if dead and tone == 1:
            mark = ''
        return _MID[c[0]] + sec, mark
    if c[0] in _HILO:
        high, low = _HILO[c[0]]
    else:
        high, low = 'หฺ' + _SONORANT[c[0]], _SONORANT[c[0]]
    if not dead:
        use, mark = [(low, ''), (high, '่'), (low, '่'), (low, '้'), (high, '')][tone]
    elif short:
        use, mark = [(low, ''), (high, ''), (low, '่'), (low, ''), (low, '๋')][tone]
    else:
        use, mark = [(low, ''), (high, ''), (low, ''), (low, '้'), (low, '๋')][tone]
    return use + sec, mark


def thai(c):
    v, f = c[2], c[3]
    short = v in SHORT
    end = _END[f]
    open_ = f == '_'
    if v in 'yzw' and not open_:
        # no closed short ia, uea, oe in the script: written long
        v, short = v.upper(), False
    i, t = _onset(c, short)
    if v == 'a':
        if open_:
            return i + t + 'ะ'
        if f == 'w':
            return 'เ' + i + t + 'า'
        return i + 'ั' + t + end
    if v == 'A':
        return i + t + 'า' + end
    if v in 'iIvuU':
        return i + {'i': 'ิ', 'I': 'ี', 'v': 'ึ', 'u': 'ุ', 'U': 'ู'}[v] + t + end
    if v == 'V':
        return i + 'ื' + t + (end or 'อ')
    if v in 'ex':
        lead = 'เ' if v == 'e' else 'แ'
        return lead + i + t + 'ะ' if open_ else lead + i + (t or '็') + end
    if v in 'EXO':
        return {'E': 'เ', 'X': 'แ', 'O': 'โ'}[v] + i + t + end
    if v == 'o':
        return 'โ' + i + t + 'ะ' if open_ else i + t + end
    if v in 'yY':
        return 'เ' + i + 'ี' + t + 'ย' + ('ะ' if short else end)
    if v in 'zZ':
        return 'เ' + i + 'ื' + t + 'อ' + ('ะ' if short else end)
    if v in 'tT':
        if open_:
            return i + 'ั' + t + 'ว' + ('ะ' if short else '')
        return i + (t or ('็' if short else '')) + 'ว' + end
    if v in 'cC':
        if short and open_:
            return 'เ' + i + t + 'าะ'
        return i + (t or ('็' if short else '')) + 'อ' + end
    if v in 'wW':
        if open_:
            return 'เ' + i + t + 'อ' + ('ะ' if short else '')
        if f == 'y':
            return 'เ' + i + t + 'ย'
        return 'เ' + i + 'ิ' + t + end
    raise ValueError(c)


RENDER = {'w': lambda c: c, 'r': roman, 't': thai, 'p': phonetic, 's': soundex}
DELIM = {'w': ',', 't': '-', 'p': ' ', 's': '-'}


def parse_raw(tok):
    """'k_A_0@2' -> ('k_A_0', 2); '(text)@3' -> ('(text)', 3); else None."""
    body, at, pos = tok.rpartition('@')
    if not at:
        return None
    try:
        p = int(pos)
    except ValueError:
        return None
    if body.startswith('('):
        return (body, p) if body.endswith(')') and len(body) > 2 else None
    if len(body) == 5 and body[0] in INIT and body[1] in SECOND and body[2] in VOWEL \
            and body[3] in FINAL and body[4] in TONE:
        return body, p
    return None


def render(tok, notation):
    """Expected text of a raw token in a notation."""
    body, _ = parse_raw(tok)
    if notation == 'w':
        return tok
    if body.startswith('('):
        return body
    return RENDER[notation](body)


BLANK = ' '


def line(toks, notation):
    """Expected plain line of one reading given its raw tokens (BLANK allowed)."""
    out = ''
    if notation == 'r':
        prev_open, begin = False, True
        for k, t in enumerate(toks):
            if t == BLANK:
                out += ' '
                begin, prev_open = True, True
                continue
            body, _ = parse_raw(t)
            lit = body.startswith('(')
            if not begin and not lit and (body[0] == '?' or (body[0] == 'g' and prev_open)):
                out += '-'
            out += render(t, 'r')
            prev_open = lit or body[3] == '_'
            begin = False
        return out
    begin = True
    for t in toks:
        if t == BLANK:
            out += ' '
            begin = True
        else:
            out += ('' if begin else DELIM[notation]) + render(t, notation)
            begin = False
    return out
