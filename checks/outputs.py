"""Checks of notations, listings and JSON, through the program and through
the output classes."""

import json
import os
from concurrent.futures import ThreadPoolExecutor

import notation as N
import parsing
import vlib
from graphs import driver
from vlib import HarnessError, build, cli, run

NOTATIONS = 'wrtps'


def corpus(chk, n, awkward=True):
    """Words with a limited number of readings (they are all listed)."""
    r, real, out = chk.rng, vlib.real_words(), []
    keys = list(vlib.shipped_dict())
    while len(out) < n:
        x = r.random()
        if x < .35 and real:
            w = r.choice(real)
        elif x < .6:
            w = vlib.gen_word(r, r.choice([1, 2, 2, 3]))
        elif x < .7:
            w = vlib.mutate(r, vlib.gen_word(r, 2))
        elif x < .75 and keys:
            w = r.choice(keys)
        elif x < .8:
            w = r.choice(real or ['กา']) + r.choice(real or ['กา'])
        else:
            w = vlib.mixed_text(r, real)
        if awkward and r.random() < .15:
            i = r.randrange(len(w) + 1)
            w = w[:i] + r.choice(['"', '\\', '\x01', '\x1f', '\t', '\x7f', ' ', '😀', '\\u0041', '\x08', '{}', '[]', ',', '\u0080', '/', '﻿', '\U0010ffff']) + w[i:]
        if w and len(w) <= 26 and '\n' not in w and not w.startswith('-'):
            out.append(w)
    return out


def batches(words, k):
    return [words[i:i + k] for i in range(0, len(words), k)]


def run_batches(chk, b, args, words, parse, nouts, size=400, timeout=120):
    """Run the program over word batches; returns [(word, outputs)] or None
    for batches that misbehaved (reported)."""
    res = []

    def one(ws):
        return ws, cli(b, args, ws, timeout=timeout)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for ws, r in ex.map(one, batches(words, size)):
            if r.timed_out:
                chk.violation('hang', {'args': args, 'words': ws[:3]}, 'no end with %s' % args)
                continue
            if r.crash():
                last = r.out.rfind(b':\n')
                w = r.out[:last].rsplit(b'\n', 1)[-1].decode('utf-8', 'replace')
                chk.violation('crash', {'args': args, 'word': w}, 'crash near %r with %s: %s' % (w, args, r.crash()))
                continue
            p = parse(r.out, ws, nouts)
            if p is None or r.rc != 0:
                bad = None
                for w in ws:      # find the word
                    r1 = cli(b, args, [w], timeout=timeout)
                    if r1.rc != 0 or parse(r1.out, [w], nouts) is None:
                        bad = w
                        break
                chk.violation('shape', {'args': args, 'word': bad}, 'output of %r with %s is not of the promised form (status %s)' % (bad, args, r.rc))
                continue
            res += list(zip(ws, p))
    return res


def decode(chk, kind, word, raw):
    try:
        return json.loads(raw.decode('utf-8'), strict=True)
    except (UnicodeDecodeError, ValueError) as e:
        chk.violation(kind, {'word': word}, 'not JSON for %r: %s: %r' % (word, e, raw[:200]))
        return None


def is_flat(x):
    return isinstance(x, list) and all(isinstance(r, list) and r and all(isinstance(t, str) for t in r) for r in x)


# ---------------------------------------------------------------- C07 notations

def c07(chk):
    b = build('rel', ('sylout',))
    r = run([os.path.join(b, 'sylout'), '--all'], timeout=120)
    if r.crash():
        chk.violation('crash', {'stage': 'all'}, r.crash())
        return chk.finish(1, 1, 'cut short')
    lines = [l.split('\t') for l in r.out.decode('utf-8', 'replace').split('\n') if '\t' in l]
    want_n = len(N.INIT) * len(N.SECOND) * len(N.VOWEL) * len(N.FINAL) * len(N.TONE)
    if r.rc or len(lines) != want_n:
        raise HarnessError('driver printed %d syllables, rc %d' % (len(lines), r.rc))
    seen = {'raw': {}, 'phonetic': {}}
    for code, w, ro, th, ph, sx in lines:
        for name, got, want in (('raw', w, code + '@7'), ('roman', ro, N.roman(code)), ('thai', th, N.thai(code)),
                                ('phonetic', ph, N.phonetic(code)), ('soundex', sx, N.soundex(code))):
            if got != want:
                chk.violation('notation', {'notation': name, 'code': code}, '%s of %s is %r, expected %r' % (name, code, got, want))
        if code[0] == '?' and code[1] != '_':
            continue        # no such cluster
        for name, got in (('raw', w), ('phonetic', ph)):
            other = seen[name].setdefault(got, code)
            if other != code:
                chk.violation('ambiguous', {'notation': name, 'codes': [other, code]}, '%s and %s are both %r in %s' % (other, code, got, name))
    # whole program: all notations of every reading of every word agree
    words = [w for w in corpus(chk, chk.n(3500, 25000), awkward=False) if len(w) <= 20]
    chk.samples += words[:8]
    args = ['-n', '-j'] + ['-' + c for c in NOTATIONS]
    toks, readings, codes = 0, 0, set()
    for brk in (['-n'], []):
        for word, outs in run_batches(chk, b, brk + args[1:], words, vlib.parse_json_output, 5):
            ds = [decode(chk, 'json', word, o) for o in outs]
            if any(d is None or not is_flat(d) for d in ds):
                if not any(d is None for d in ds):
                    chk.violation('json', {'word': word}, 'not a list of readings for %r' % word)
                continue
            raw = ds[0]
            for d, c in zip(ds[1:], NOTATIONS[1:]):
                if [len(x) for x in d] != [len(x) for x in raw]:
                    chk.violation('disagree', {'word': word, 'notation': c}, 'notations %s and raw list different readings for %r' % (c, word))
                    break
                for x, y in zip(d, raw):
                    for t, rt in zip(x, y):
                        p = N.parse_raw(rt)
                        if p is None:
                            chk.violation('raw', {'word': word, 'token': rt}, 'bad raw code %r for %r' % (rt, word))
                        elif t != N.render(rt, c):
                            chk.violation('disagree', {'word': word, 'notation': c, 'token': rt}, '%r in notation %s is %r, raw %r' % (word, c, t, rt))
                        else:
                            toks += 1
                            codes.add(p[0])
            readings += len(raw)
    return chk.finish(len(lines) * 5 + toks, len(lines) + len(codes), 'a distinct syllable rendered by the classes, plus distinct syllables met in program output',
                      syllables=len(lines), program_tokens=toks, program_readings=readings, program_words=2 * len(words), exhaustive=True)


# --------------------------------------------------------------------- C08 JSON

def c08(chk):
    b = build('rel', ())
    words = corpus(chk, chk.n(5000, 40000))
    # every single control and ASCII character, and a spread of others, in a word
    words += ['กา%sมา' % chr(c) for c in list(range(1, 0x250)) if c != 10]
    words += ['%s' % chr(c) for c in list(range(0x20, 0x7f)) if chr(c) != '-'] + ['กา%s' % chr(c) for c in range(0x2000, 0x2070)]
    words += ['ก' + chr(c) for c in (0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff)]
    chk.samples += [repr(w) for w in words[:8]]
    n, distinct, multi, empty = 0, set(), 0, 0
    opts = ['-' + c for c in NOTATIONS]
    for brk in ([], ['-n']):
        js = run_batches(chk, b, brk + ['-j'] + opts, words, vlib.parse_json_output, 5)
        flat = run_batches(chk, b, brk + opts, words, vlib.parse_list_output, 5)
        fl = dict(flat)
        for word, outs in js:
            if word not in fl:
                continue
            for c, o, lines in zip(NOTATIONS, outs, fl[word]):
                d = decode(chk, 'json', word, o)
                if d is None:
                    continue
                n += 1
                if not is_flat(d):
                    chk.violation('json', {'word': word, 'notation': c}, 'not a list of lists of strings for %r: %r' % (word, o[:200]))
                    continue
                if len(d) != len(lines):
                    chk.violation('count', {'word': word, 'notation': c}, '%r: %d readings in JSON, %d in the list' % (word, len(d), len(lines)))
                    continue
                for x, l in zip(d, lines):
                    if not same_reading(x, l, c):
                        chk.violation('reading', {'word': word, 'notation': c}, '%r: JSON %r against line %r' % (word, x, l))
                        break
                distinct.add(o)
                multi += len(d) > 1
                empty += not d
                # plain text carried through the encoding
                for x in d:
                    for t in x:
                        body = t.rpartition('@')[0] if c == 'w' else t
                        if body.startswith('(') and body[1:-1] not in word:
                            chk.violation('text', {'word': word, 'notation': c}, 'text %r of %r altered' % (t, word))
    if not chk.viol and (multi < 100 or empty < 20):
        raise HarnessError('too few readings observed')
    return chk.finish(n, len(distinct), 'a JSON document not seen before, decoded and compared with the plain listing',
                      with_several_readings=multi, unreadable=empty)


def same_reading(toks, line, c):
    """Does a plain line spell these syllables? (the delimiter may also occur
    inside plain text, so compare by consuming)"""
    if c in N.DELIM:
        return line == N.DELIM[c].join(toks)
    pos = 0
    for k, t in enumerate(toks):
        if k and line[pos:pos + 1] == '-' and not line.startswith(t, pos):
            pos += 1
        elif k and line[pos:pos + 1] == '-' and t.startswith('-') is False and line.startswith('-' + t, pos):
            pos += 1
        if not line.startswith(t, pos):
            return False
        pos += len(t)
    return pos == len(line)


# ------------------------------------------------------------------ C09 grouping

def expand(latt):
    out = set()
    for chain in latt:
        acc = [()]
        for frac in chain:
            acc = [a + tuple(s) for a in acc for s in frac]
            if len(acc) > 200000:
                return None
        out.update(acc)
    return out


def is_grouped(x):
    return isinstance(x, list) and all(
        isinstance(c, list) and c and all(
            isinstance(f, list) and f and all(
                isinstance(s, list) and s and all(isinstance(t, str) for t in s) for s in f) for f in c) for c in x)


def strip_pos(reading):
    return tuple(t.rpartition('@')[0] for t in reading)


def c09(chk):
    b = build('rel', ('graphs',))
    words = corpus(chk, chk.n(6000, 40000), awkward=False) + ['']
    real = vlib.real_words()
    words += [w for w in real if len(w) <= 20][::max(1, len(real) // chk.n(4000, 20000))]
    chk.samples += words[:6]
    n, distinct, grouped_n = 0, set(), 0
    opts = ['-' + c for c in NOTATIONS]
    for brk in ([], ['-n']):
        gj = run_batches(chk, b, brk + ['-g'] + opts, words, vlib.parse_json_output, 5)
        fl = {w: o for w, o in run_batches(chk, b, brk + ['-j'] + opts, words, vlib.parse_json_output, 5)}
        for word, outs in gj:
            if word not in fl:
                continue
            for c, o, f in zip(NOTATIONS, outs, fl[word]):
                g, flat = decode(chk, 'json', word, o), decode(chk, 'json-flat', word, f)
                if g is None or flat is None:
                    continue
                n += 1
                if not is_grouped(g):
                    chk.violation('shape', {'word': word, 'notation': c}, 'grouped form of %r: %r' % (word, o[:200]))
                    continue
                e = expand(g)
                if e is None:
                    continue
                f2 = {tuple(x) for x in flat}
                if c == 'w':
                    e, f2 = {strip_pos(x) for x in e}, {strip_pos(x) for x in f2}
                if e != f2:
                    chk.violation('expansion', {'word': word, 'notation': c},
                                  '%r in %s: lost %s, invented %s' % (word, c, sorted(f2 - e)[:2], sorted(e - f2)[:2]))
                if c == 'w':
                    check_endpoints(chk, word, g)
                distinct.add(o)
                grouped_n += any(len(fr) > 1 for ch in g for fr in ch)
    st = driver(chk, b, 'graphs', [['--group', str(chk.rng.getrandbits(40)), str(chk.n(15000, 120000))] for _ in range(8)])
    if not chk.viol and (grouped_n < 100 or st.stat.get('groups-multi', 0) < 1000):
        raise HarnessError('too few groups observed')
    return chk.finish(n + st.stat.get('graphs', 0), len(distinct) + len(st.shapes),
                      'a grouped document or random graph not seen before, expanded and compared with the flat readings',
                      documents=n, documents_with_groups=grouped_n, random_graphs=st.stat.get('graphs', 0),
                      random_graph_readings=st.stat.get('readings', 0))


def check_endpoints(chk, word, g):
    """Alternatives of one group end at the same position."""
    for chain in g:
        for frac in chain:
            ends = {s[-1].rpartition('@')[2] for s in frac}
            if len(ends) > 1:
                chk.violation('endpoints', {'word': word}, 'group of %r mixes end points %s' % (word, sorted(ends)))


# ------------------------------------------------------------------- C22 listing

def c22(chk):
    b = build('rel', ('sylout', 'rawlist'))
    # sequences of syllables, plain text and blanks through the output classes
    r = chk.rng
    pool = ['k_a_1', '?_A_0', 'g_om0', 'n_og0', '?_og3', 'g_A_0', 'krag1', 'm_Cn0', '(a)', '(-)', '(ก)']
    seqs = []
    import itertools
    for n in (0, 1, 2, 3):
        seqs += list(itertools.product(pool + [N.BLANK], repeat=n))
    for _ in range(chk.n(20000, 100000)):
        seqs.append([r.choice(pool + [N.BLANK, N.BLANK]) if r.random() < .5 else parsing.rand_syl(r) for _ in range(r.randint(1, 7))])
    # long readings
    for _ in range(chk.n(200, 800)):
        few = [parsing.rand_syl(r) for _ in range(r.choice([1, 3, 30]))] + r.choice([[], pool])
        seqs.append([r.choice(few) for _ in range(r.choice([30, 70, 140, 300, 700]))])
    # long plain text
    for k in [100, 300, 600, 1100, 2500, 5000, 9000, 33000, 66000]:
        for c in 'aé中':
            seqs.append(['k_a_1', '(%s)' % (c * (k + r.randint(0, 30))), 'm_Cn0'])
    reqs = []
    for s in seqs:
        p, items = 0, []
        for t in s:
            if t == N.BLANK:
                items.append(t)
            else:
                p += r.randint(1, 3)
                items.append('%s@%d' % (t, p))
        # a blank first: romanization of it is undefined in the notation, skip
        if items and items[0] == N.BLANK:
            continue
        reqs.append(items)
    res = run([os.path.join(b, 'sylout'), '--strings'], ''.join('|'.join(i) + '\n' for i in reqs).encode('utf-8'), timeout=120)
    if res.crash():
        chk.violation('crash', {'stage': 'strings'}, res.crash())
        return chk.finish(1, 1, 'cut short')
    text = res.out.decode('utf-8', 'replace')
    if res.rc or not text.endswith('\nDONE\n'):
        raise HarnessError('driver failed: %s' % res.err[-500:])
    body, _, rest = text.partition('LIST-RAW\n')
    lines = body.split('\n')[:-1]
    if len(lines) != len(reqs):
        raise HarnessError('driver answered %d of %d' % (len(lines), len(reqs)))
    distinct = set()
    for items, l in zip(reqs, lines):
        got = l.split('\t')
        want = [N.line(items, c) for c in 'wtpsr']
        for c, g, w in zip('wtpsr', got, want):
            if g != w:
                chk.violation('line', {'reading': items, 'notation': c}, 'reading %s in %s is %r, expected %r' % ('|'.join(items), c, g, w))
        cap = want[4][:1].upper() + want[4][1:] if want[4][:1].isascii() else want[4]
        if got[7:] != [cap]:
            chk.violation('line', {'reading': items, 'notation': 'capitalized'}, 'reading %s capitalized is %r, expected %r' % ('|'.join(items), got[7:], cap))
        distinct.add(l)
    lr, _, rest = rest.partition('LIST-ROMAN\n')
    lro, _, lj = rest.partition('LIST-JSON\n')
    if lr != ''.join(N.line(i, 'w') + '\n' for i in reqs) or lro != ''.join(N.line(i, 'r') + '\n' for i in reqs):
        chk.violation('list', {'stage': 'list'}, 'a list of readings is not one line per reading')
    # the program's listings, from raw tokens in JSON
    words = corpus(chk, chk.n(6000, 18000), awkward=False)
    # words rich in hyphen contexts
    words += [vlib.gen_syllable(r) + r.choice(['อา', 'งา', 'อิน', 'งู', 'เอก', 'แง', 'อ', 'ง']) + vlib.gen_syllable(r) for _ in range(chk.n(3000, 9000))]
    chk.samples += words[:6]
    words += ['กา%sมา' % (c * (k + r.randint(1, 30))) for k in (300, 1100, 5000, 33000) for c in ' xé']
    opts = ['-' + c for c in NOTATIONS]
    n_lines, hyph, most = 0, 0, 0
    for brk in ([], ['-n']):
        raw = dict((w, o[0]) for w, o in run_batches(chk, b, brk + ['-j', '-w'], words, vlib.parse_json_output, 1))
        for word, outs in run_batches(chk, b, brk + opts, words, vlib.parse_list_output, 5):
            d = decode(chk, 'json', word, raw.get(word, b'[]'))
            if d is None or not is_flat(d) or any(N.parse_raw(t) is None for x in d for t in x):
                continue
            for c, got in zip(NOTATIONS, outs):
                want = [N.line(x, c) for x in d]
                if got != want:
                    chk.violation('listing', {'word': word, 'notation': c}, '%r in %s: %r, expected %r' % (word, c, got[:3], want[:3]))
                n_lines += len(got)
                if c == 'r':
                    hyph += sum('-' in g for g in got)
                distinct.update(got)
        # texts with very many readings: all paths of the graph, walked by the driver
        amb = [(w, len(o.split(b'],['))) for w, o in raw.items() if 4 <= len(o.split(b'],[')) <= 40 and ' ' not in w and len(w) < 20]
        many = []
        for target in [300, 3000, 9000, 18000] * chk.n(1, 6) if amb else []:
            prod, parts = 1, []
            while prod < target:
                w, k = r.choice(amb)
                if prod * k > 22000:
                    break
                parts.append(w)
                prod *= k
            many.append(' '.join(parts))
        for w in many:
            wk = run([os.path.join(b, 'rawlist'), '--walk', '--dict', os.path.join(b, 'data', 'except.dic')] + ([] if brk else ['--break']),
                     (w + '\n').encode(), timeout=120)
            if wk.rc or not wk.out.endswith(b'DONE\n'):
                raise HarnessError('rawlist failed: %s %r' % (wk.crash(), wk.err[-300:]))
            paths = [l.split('\x1f') for l in wk.out.decode().partition('\x1e')[2].partition('\x1d')[0].split('\n') if l]
            if len(paths) > 150000 or any(N.parse_raw(t) is None for t in {t for x in paths for t in x}):
                continue
            most = max(most, len(paths))
            for word, outs in run_batches(chk, b, brk + opts, [w], vlib.parse_list_output, 5):
                for c, got in zip(NOTATIONS, outs):
                    n_lines += len(got)
                    if len(got) != len(paths):
                        chk.violation('count', {'word': word, 'notation': c}, '%r has %d readings, %d lines printed in %s' % (word, len(paths), len(got), c))
                    elif (c == 'w' or len(paths) < 3000) and sorted(got) != sorted(N.line(x, c) for x in paths):
                        chk.violation('listing', {'word': word, 'notation': c}, 'the lines of %r in %s are not its readings' % (word, c))
    if not chk.viol and hyph < 50:
        raise HarnessError('no hyphenated romanization observed')
    if not chk.viol and most < 5000:
        raise HarnessError('no text with thousands of readings observed')
    return chk.finish(len(reqs) * 5 + n_lines, len(distinct), 'a printed line not seen before', sequences=len(reqs), program_lines=n_lines,
                      hyphenated=hyph, most_readings=most)


# ------------------------------------------------------------------ C24 read back

IMPOSSIBLE = {'iy', 'Iy', 'Ey', 'oy', 'ow', 'ey', 'ty', 'tk', 'tt', 'tp', 'tg', 'tn', 'tm', 'tw'}


def c24(chk):
    b = build('rel', ('sylout',))
    r = run([os.path.join(b, 'sylout'), '--all'], timeout=120)
    if r.crash():
        chk.violation('crash', {'stage': 'all'}, r.crash())
        return chk.finish(1, 1, 'cut short')
    spell = {}
    for l in r.out.decode('utf-8', 'replace').split('\n'):
        f = l.split('\t')
        if len(f) == 6:
            spell[f[0]] = f[3]
    codes = []
    for c in sorted(spell):
        if c[1] != '_' or c[2:4] in IMPOSSIBLE:
            continue
        if N.is_dead(c[2] in N.SHORT, c[3]) and c[4] == '0':
            continue
        if c[0] in N._SONORANT and high_needed(c):
            continue
        codes.append(c)
    words = [spell[c] for c in codes]
    got = run_batches(chk, b, ['-n', '-w', '-d' + os.path.join(chk.scratch, 'none.dic')],
                      words, vlib.parse_list_output, 1, size=2000)
    got = dict((w, o[0]) for w, o in got)
    exact, loose = 0, 0
    for c, w in zip(codes, words):
        if w not in got:
            continue
        ones = [l.partition('@')[0] for l in got[w] if ',' not in l]
        marked = any(t in w for t in vlib.TONES)
        strict = c[3] == '_' or c[2] not in 'yzw' and not (c[2] in 'exc' and marked)
        if strict:
            exact += 1
            if c not in ones:
                chk.violation('read-back', {'code': c}, '%s is respelled %r, which reads %s' % (c, w, got[w][:4]))
        else:
            loose += 1
            if not any(o[0] == c[0] and o[2].lower() == c[2].lower() and o[3:] == c[3:] for o in ones):
                chk.violation('read-back', {'code': c}, '%s is respelled %r, which reads %s' % (c, w, got[w][:4]))
    # respelling what was read: idempotent over single-syllable readings of words
    chk.samples += ['%s %s' % x for x in list(zip(codes, words))[::max(1, len(codes) // 8)]]
    return chk.finish(exact + loose, len(set(words)), 'a distinct respelling read back', exact=exact, up_to_length=loose, exhaustive=True)


def high_needed(c):
    """Sonorants in high-class tones are written with a silent leading h,
    which the respelling marks and the reader does not take."""
    short = c[2] in N.SHORT and not (c[2] in 'yzw' and c[3] != '_')
    dead = N.is_dead(short, c[3])
    return c[4] == '1' or (c[4] == '4' and not dead)
