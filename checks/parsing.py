"""Checks judged by the online monitor around the parser."""

import os
import re

import vlib
from vlib import HarnessError, build, run_mon, MonStats

THAI = vlib.ALPHABET


def alpha_file(chk, letters, name='alpha'):
    p = os.path.join(chk.scratch, name)
    with open(p, 'w') as f:
        f.write(''.join(c + '\n' for c in letters))
    return p


def random_words(chk, n, real_share=.2):
    r, real, out = chk.rng, vlib.real_words(), []
    while len(out) < n:
        x = r.random()
        if real and x < real_share:
            w = r.choice(real)
            if r.random() < .3:
                w += r.choice(real)
            if r.random() < .3:
                w = vlib.mutate(r, w)
        elif x < .8:
            w = vlib.gen_word(r)
        elif x < .93:
            w = vlib.mutate(r, vlib.gen_word(r))
        else:
            w = ''.join(r.choice(THAI) for _ in range(r.randint(5, 9)))
        if w and '\n' not in w:
            out.append(w)
    return out


def texts(chk, n):
    """Mixed texts: words, abbreviations, plain text."""
    real = vlib.real_words()
    return [vlib.mixed_text(chk.rng, real) for _ in range(n)]


def rule_gaps(st):
    """Spelling rules of the reference model that no word has exercised."""
    with open(os.path.join(vlib.VERIF, 'harness', 'refmodel.h')) as f:
        names = set(re.findall(r'hit \("([^"]+)"', f.read()))
    names -= {'abbr-lone-period', 'literal', 'period-absorbed', 'except-inside-syllable'}
    return sorted(k for k in names if not st.rules.get(k))


def evidence_rules(st):
    return {'rules_hit': len([1 for v in st.rules.values() if v]), 'rule_hits': dict(sorted(st.rules.items()))}


def sample(chk, words, k=8):
    chk.samples += [w for w in words[:k]]


def need(cond, what):
    if not cond:
        raise HarnessError(what)


# ------------------------------------------------------------------- C02 cover

def c02(chk):
    b = build('rel', ('mon',), cli=False)
    st = MonStats()
    mixed = alpha_file(chk, vlib.MIXED)
    for n in range(0, 4):
        run_mon(chk, b, ['--cover', '--enum', str(n), '--alpha', mixed], stats=st)
    small = alpha_file(chk, list('กขงดนมรลวหอยสทะาิีุูเแโไัำ็่้์ฤ. aๆ'), 'small')
    run_mon(chk, b, ['--cover', '--enum', '4', '--alpha', small], stats=st)
    if chk.thorough:
        run_mon(chk, b, ['--cover', '--enum', '4', '--alpha', mixed], stats=st)
    ws = texts(chk, chk.n(60000, 400000)) + random_words(chk, chk.n(60000, 400000))
    long_ = [''.join(vlib.mixed_text(chk.rng, vlib.real_words()) for _ in range(chk.rng.randint(5, 25)))
             for _ in range(chk.n(1500, 8000))]
    sample(chk, ws)
    dic = ['--dict', os.path.join(b, 'data', 'except.dic'), os.path.join(b, 'data', 'except.tsv')]
    keys = list(vlib.shipped_dict())
    dws = [vlib.mixed_text(chk.rng, keys) for _ in range(chk.n(30000, 150000))]
    long_ += vlib.far(chk.rng, ws, chk.n(200, 1000)) + vlib.far_thai(chk.rng, ws, chk.n(100, 500))
    run_mon(chk, b, ['--cover'], ws + long_, st)
    run_mon(chk, b, ['--cover', '--break'], ws + long_, st)
    if dict_ok(b):
        run_mon(chk, b, ['--cover'] + dic, dws, st)
        run_mon(chk, b, ['--cover', '--break'] + dic, dws, st)
    s = st.stat
    need(s.get('cover-literals', 0) > 1000 or chk.viol, 'no plain text was observed')
    return chk.finish(s['words'], len(st.shapes),
                      'a word whose graph (edges with code, start, end) was not seen before; every edge of every graph judged',
                      words_with_reading=s.get('words-with-reading', 0), edges_judged=s.get('cover-edges', 0),
                      plain_text_edges=s.get('cover-literals', 0), unreadable=s.get('cover-empty', 0),
                      exhaustive_up_to_letters=chk.n(3, 4))


def dict_ok(b):
    import json
    with open(os.path.join(b, 'data', 'gen-status.json')) as f:
        return json.load(f)['rc'] == 0


# ---------------------------------------------------------------- C03 readings

SMALL5 = list('กขคงจดตนบรลวสหอย' 'ะาิึื็่้ัำ' 'เแโ' '์ฤ')


def c03(chk):
    b = build('rel', ('mon',), cli=False)
    st = MonStats()
    al = alpha_file(chk, THAI)
    for n in range(1, 5):
        run_mon(chk, b, ['--model', '--enum', str(n), '--alpha', al], stats=st, timeout=800)
    n_enum = st.stat['words']
    if chk.thorough:
        run_mon(chk, b, ['--model', '--enum', '5', '--alpha', alpha_file(chk, SMALL5, 'a5')], stats=st, timeout=850)
    ws = random_words(chk, chk.n(300000, 1200000))
    ws += [re.sub('[^ก-ฮะ-ฺเ-์]', '', vlib.long_text(chk.rng, vlib.real_words(), chk.rng.choice([5, 10, 20, 40])))
           for _ in range(chk.n(1500, 10000))]
    ws += vlib.far_thai(chk.rng, ws, chk.n(200, 1000))
    sample(chk, ws)
    run_mon(chk, b, ['--model'], ws, st)
    s = st.stat
    gaps = rule_gaps(st)
    if gaps and not chk.viol:
        raise HarnessError('spelling rules never exercised: %s' % gaps)
    return chk.finish(s['words'], len(st.shapes),
                      'a string whose graph of readings differs from all graphs seen before in this shard',
                      words_with_reading=s['words-with-reading'], edges_compared=s['edges'],
                      edges_expected=s['edges-expected'], enumerated=n_enum, generated=len(ws),
                      exhaustive_up_to_letters=4, **evidence_rules(st))


# -------------------------------------------------------------------- C04 tone

def c04(chk):
    b = build('rel', ('mon',), cli=False)
    st = MonStats()
    shapes = [('', ''), ('', 'ะ'), ('', 'า'), ('', 'ิ'), ('', 'ี'), ('', 'ึ'), ('', 'ือ'), ('', 'ุ'), ('', 'ู'), ('', 'ัว'),
              ('', 'ัวะ'), ('', 'อ'), ('', 'ำ'), ('', '็อ'), ('', 'ว'), ('', 'ร'), ('', 'รร'), ('', 'ั'), ('', 'ื'),
              ('เ', ''), ('เ', 'ะ'), ('เ', 'ีย'), ('เ', 'ียะ'), ('เ', 'ือ'), ('เ', 'ือะ'), ('เ', 'อ'), ('เ', 'อะ'),
              ('เ', 'า'), ('เ', 'าะ'), ('เ', 'ิ'), ('เ', '็'), ('เ', 'ย'), ('แ', ''), ('แ', 'ะ'), ('แ', '็'), ('โ', ''), ('โ', 'ะ'),
              ('ใ', ''), ('ไ', ''), ('ไ', 'ย'), ('', 'ฤ'), ('', 'ฤๅ')]
    above = 'ิีึืุูั็'
    words = []
    inits = vlib.CONS + [a + c for a in vlib.CONS for c in 'รลวงญณนมยฬ'] + ['บด', 'ทร', 'อย']
    fins = [''] + vlib.CONS
    for i in inits:
        single = len(i) == 1
        for lead, vow in shapes:
            for t in [''] + vlib.TONES:
                for f in (fins if single or chk.thorough else ['', 'ก', 'น', 'ย', 'ด']):
                    # the tone mark is typed after an above/below vowel
                    if vow and vow[0] in above:
                        words.append(lead + i + vow[0] + t + vow[1:] + f)
                    else:
                        words.append(lead + i + t + vow + f)
    n_grid = len(words)
    words += random_words(chk, chk.n(120000, 600000))
    words += vlib.far_thai(chk.rng, words, chk.n(200, 1000))
    chk.samples += words[:n_grid:n_grid // 6]
    run_mon(chk, b, ['--tone'], words, st)
    s = st.stat
    codes = set(st.syls)
    if not chk.viol:
        need(s.get('graphs-compared', 0) > 10000 and len(codes) > 2000, 'too few tones observed')
    by = {}
    for c in codes:
        by[c[4]] = by.get(c[4], 0) + 1
    return chk.finish(s['words'], len(codes), 'a distinct syllable (initial, cluster, vowel, final, tone) whose tone was compared',
                      grid_words=n_grid, graphs_compared=s.get('graphs-compared', 0),
                      structure_differs=s.get('structure-differs', 0), syllables_judged=sum(st.syls.values()),
                      distinct_syllables_by_tone=by)


# -------------------------------------------------------------- C05 dictionary

def rand_syl(r):
    import notation as N
    return r.choice(N.INIT) + r.choice('____rlw') + r.choice(N.VOWEL) + r.choice(N.FINAL) + r.choice(N.TONE)


def rand_pron(r, n):
    """A pronunciation for a key of n letters: syllables with increasing end
    positions; sometimes a double syllable goes through a negative position."""
    k = r.randint(1, min(3, n))
    cuts = sorted(r.sample(range(1, n), k - 1)) + [n]
    out, prev = [], 0
    for c in cuts:
        if c - prev >= 2 and r.random() < .3:
            out.append('%s@%d' % (rand_syl(r), -(prev * 100 + prev + 1)))
        out.append('%s@%d' % (rand_syl(r), c))
        prev = c
    return ','.join(out)


def rand_prons(r, n):
    """Sometimes several, sometimes as many as fit on a line."""
    out = rand_pron(r, n)
    for _ in range(r.choice([0, 0, 0, 1, 2, 5, 12, 30])):
        p = rand_pron(r, n)
        if len(out) + len(p) + 3 * n > 240:
            break
        if p not in out.split(';'):
            out += ';' + p
    return out


def make_dict(chk, bdir, entries, name):
    tsv = os.path.join(chk.scratch, name + '.tsv')
    dic = os.path.join(chk.scratch, name + '.dic')
    with open(tsv, 'w') as f:
        for k in sorted(entries):
            f.write('%s\t%s\n' % (k, entries[k]))
    r = vlib.run([os.path.join(bdir, 'gen-lookup-dict'), tsv, dic], timeout=60)
    if r.rc != 0 or not os.path.exists(dic):
        return None
    return dic, tsv


def gen_keys(r, real):
    keys = set()
    base = [r.choice(real) if real and r.random() < .5 else vlib.gen_word(r, r.choice([1, 2])) for _ in range(r.choice([3, 6, 12, 25]))]
    base = [''.join(c for c in k if vlib.is_token(c) and c != '.') for k in base]
    for k in base:
        if not k or len(k) > 14:
            continue
        keys.add(k)
        if r.random() < .6 and len(k) > 1:
            keys.add(k[:r.randint(1, len(k) - 1)])       # prefix of another key
        if r.random() < .3:
            keys.add(k + r.choice(base)[:6])                 # extension
        if r.random() < .2:
            keys.add(r.choice(vlib.CONS))                    # one letter
    if base and r.random() < .3:                             # longer than any word
        k = ''.join(r.choice(base) for _ in range(12))[:r.choice([18, 25, 33, 50, 58])]
        keys |= {k, k[:r.randint(1, len(k))] or k, k[:-1] or k}
    return sorted(k for k in keys if k)


def dict_texts(r, keys, n):
    out = []
    for _ in range(n):
        parts = []
        for _ in range(r.choice([1, 2, 2, 3, 4]) if r.random() < .98 else r.choice([10, 30])):
            x = r.random()
            if x < .6:
                k = r.choice(keys)
                if r.random() < .15 and len(k) > 1:
                    k = k[:r.randint(1, len(k))]
                parts.append(k)
            elif x < .85:
                parts.append(vlib.gen_syllable(r))
            elif x < .93:
                parts.append(r.choice(vlib.ALPHABET))
            else:
                parts.append(r.choice([' ', '.', 'a', '์', '-', '😀']))
        out.append(''.join(parts))
    return out


def c05(chk):
    b = build('rel', ('mon',), cli=False)
    st = MonStats()
    r, real = chk.rng, vlib.real_words()
    nd, built = chk.n(40, 160), 0
    # the shipped dictionary first
    jobs = []
    if dict_ok(b):
        keys = list(vlib.shipped_dict())
        jobs.append((os.path.join(b, 'data', 'except.dic'), os.path.join(b, 'data', 'except.tsv'), keys))
    for i in range(nd):
        keys = gen_keys(r, real)
        if not keys:
            continue
        d = make_dict(chk, b, {k: rand_prons(r, len(k)) for k in keys}, 'd%d' % i)
        if d:
            jobs.append(d + (keys,))
    if len(jobs) < nd // 2:
        raise HarnessError('dictionaries could not be compiled')
    from concurrent.futures import ThreadPoolExecutor
    work = [(dic, tsv, dict_texts(r, keys, chk.n(3000, 6000))) for dic, tsv, keys in jobs]
    for _, _, t in work[:chk.n(8, 30)]:
        t += vlib.far(r, t, chk.n(60, 120))
    chk.samples += [w for _, _, t in work[:4] for w in t[:3]]

    def one(j):
        dic, tsv, ws = j
        for brk in ([], ['--break']):
            run_mon(chk, b, ['--model', '--attr', 'dict', '--dict', dic, tsv] + brk, ws, st, shards=1)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(one, work))
    s = st.stat
    if not chk.viol:
        need(st.rules.get('dict-match', st.rules.get('dict', 1)) > 0, 'no dictionary match observed')
    return chk.finish(s['words'], len(st.shapes), 'a text whose graph of readings was not seen before with that dictionary set',
                      dictionaries=len(jobs), edges_compared=s['edges'],
                      attributed_elsewhere=s.get('attributed-elsewhere', 0),
                      dictionary_rules={k: v for k, v in st.rules.items() if 'dict' in k})


# ------------------------------------------------------------- C06 segmentation

def c06(chk):
    b = build('rel', ('mon',), cli=False)
    st, r, real = MonStats(), chk.rng, vlib.real_words()
    ws = []
    for _ in range(chk.n(80000, 400000)):
        x = r.random()
        if x < .03:
            w = vlib.long_text(r, real, r.choice([10, 20, 40, 80]))
        elif x < .5 and real:
            w = ''.join(r.choice(real) for _ in range(r.choice([1, 2, 3, 4])))
        elif x < .8:
            w = vlib.mixed_text(r, real)
        elif real:
            w = vlib.mutate(r, r.choice(real) + r.choice(real))
        else:
            w = vlib.gen_word(r)
        ws.append(w)
    sample(chk, ws)
    ws += vlib.far(r, ws, chk.n(400, 2000))
    run_mon(chk, b, ['--model', '--break', '--attr', 'brk'], ws, st)
    # dictionary matches must respect the breaks too
    if real:
        for i in range(chk.n(8, 30)):
            ks = set()
            for _ in range(12):
                w1, w2 = r.choice(real), r.choice(real)
                k = (w1 + w2[:r.randint(1, len(w2))])[:14]
                ks.add(k)
                ks.add(w1[:14])
            ks = sorted(k for k in ks if all(vlib.is_token(c) and c != '.' for c in k))
            d = make_dict(chk, b, {k: rand_pron(r, len(k)) for k in ks}, 's%d' % i)
            if d:
                t = [''.join(r.choice(ks) if r.random() < .6 else r.choice(real) for _ in range(r.choice([1, 2, 3, 30] if r.random() < .1 else [1, 2, 3])))
                     for _ in range(chk.n(3000, 8000))]
                run_mon(chk, b, ['--model', '--break', '--attr', 'dict', '--dict', d[0], d[1]], t, st)
    s = st.stat
    if not chk.viol:
        need(st.rules.get('segments', 1) > 0, 'no break observed')
    return chk.finish(s['words'], len(st.shapes), 'a text whose segmented graph of readings was not seen before',
                      words_with_reading=s['words-with-reading'], edges_compared=s['edges'],
                      attributed_elsewhere=s.get('attributed-elsewhere', 0), controls=s.get('controls', 0))


# ------------------------------------------------------------ C17 abbreviations

def c17(chk):
    b = build('rel', ('mon',), cli=False)
    st, r, real = MonStats(), chk.rng, vlib.real_words()
    # every short arrangement of a few consonants, a vowel, period, space, Latin
    few = alpha_file(chk, list('กขนรอา. a'), 'few')
    args = ['--model', '--attr', 'lit']
    for n in range(1, 7 if not chk.thorough else 8):
        run_mon(chk, b, args + ['--enum', str(n), '--alpha', few], stats=st)
    allc = alpha_file(chk, vlib.CONS + ['.', ' ', 'ฤ', 'ๆ'], 'allc')
    for n in range(1, 4):
        run_mon(chk, b, args + ['--enum', str(n), '--alpha', allc], stats=st)
    run_mon(chk, b, args + ['--enum', '3', '--alpha', allc, '--suffix', '.'], stats=st)
    run_mon(chk, b, args + ['--enum', '2', '--alpha', allc, '--prefix', 'ก.ข', '--suffix', '. นา'], stats=st)
    enum = st.stat['words']
    ws = []
    for _ in range(chk.n(60000, 400000)):
        parts = []
        for _ in range(r.choice([1, 2, 3, 4]) if r.random() < .98 else r.choice([10, 30])):
            x = r.random()
            if x < .55:
                parts.append(''.join(r.choice(vlib.CONS) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5, 6]))) + r.choice(['.', '.', '. ', '', ' ', '..']))
            elif x < .7:
                parts.append(r.choice(vlib.SEPS))
            elif x < .8:
                parts.append(r.choice(['.', ' ', ' .', '...']))
            else:
                parts.append((r.choice(real) if real and r.random() < .5 else vlib.gen_word(r, 1)) + r.choice(['', '.', ' ']))
        ws.append(''.join(parts))
    sample(chk, ws)
    ws += vlib.far(r, ws, chk.n(400, 2000))
    run_mon(chk, b, args, ws, st)
    run_mon(chk, b, args + ['--break'], ws, st)
    # every character of the Basic Multilingual Plane, and some beyond, between two words
    cps = [c for c in list(range(1, 0xd800)) + list(range(0xe000, 0x10000)) + list(range(0x10000, 0x110000, 997)) if c != 10]
    run_mon(chk, b, args, ['กา%sมา' % chr(c) for c in cps], st)
    run_mon(chk, b, args, ['%sก.' % chr(c) for c in cps], st)
    s = st.stat
    return chk.finish(s['words'], len(st.shapes), 'a text whose graph was not seen before', enumerated=enum,
                      characters_tried=len(cps), edges_compared=s['edges'], attributed_elsewhere=s.get('attributed-elsewhere', 0),
                      rules={k: v for k, v in st.rules.items() if re.search('abbr|lit|dot|period', k)})


# ------------------------------------------------------------------ C18 product

def c18(chk):
    b = build('rel', ('mon',), cli=False)
    st, r, real = MonStats(), chk.rng, vlib.real_words()
    cons = ''.join(vlib.CONS)
    abbr = re.compile('^(\\.|[%s]{1,4}\\.|[%s]([^ก-ฮะ-ูเ-ๅ็-์]|$))' % (cons, cons))

    def text(keys):
        x = r.random()
        if keys and x < .4:
            return ''.join(r.choice(keys) for _ in range(r.choice([1, 2])))
        if x < .55:
            return vlib.gen_word(r)
        if x < .7 and real:
            return r.choice(real)
        if x < .82:
            return vlib.mutate(r, vlib.gen_word(r))
        return vlib.mixed_text(r, real)

    def pairs(n, keys=None):
        out = []
        while len(out) < n:
            a, c = text(keys), text(keys)
            if not a or not c or '\t' in a + c:
                continue
            sep = ''.join(r.choice(['a', 'Z', '7', '๕', '-', '/', '(', '"', '\\', 'ๆ', 'ฯ', '฿', '😀', 'é', '中', '​', ',', ' '])
                          for _ in range(r.choice([1, 1, 2, 3])))
            if r.random() < .5:
                sep += ' '
            if not vlib.is_token(a[-1]) or not vlib.is_token(c[0]):
                continue
            if not sep.endswith(' ') and abbr.match(c):
                continue
            out.append('%s\t%s\t%s' % (a, sep, c))
        return out
    ps = pairs(chk.n(120000, 600000))
    sample(chk, ps)
    sealed = [vlib.long_text(r, real, r.choice([5, 10, 20])) for _ in range(chk.n(1500, 8000))]
    ps += ['%s\t %s \t%s' % (a, s, c) for a, c, s in zip(sealed, sealed[::-1], ['', 'x', '12', 'ๆ '] * len(sealed))
           if '\t' not in a + c and vlib.is_token(a[-1]) and vlib.is_token(c[0])]
    ps += vlib.far(r, ps, chk.n(400, 2000))
    run_mon(chk, b, ['--product'], ps, st)
    if dict_ok(b):
        run_mon(chk, b, ['--product', '--dict', os.path.join(b, 'data', 'except.dic'), os.path.join(b, 'data', 'except.tsv')],
                pairs(chk.n(40000, 200000), list(vlib.shipped_dict())), st)
    # all pairs of very short texts
    one = [c for c in vlib.ALPHABET if vlib.is_token(c)] + ['กา', 'ก.', 'ข']
    short = ['%s\t%s\t%s' % (a, s, c) for a in one for c in one for s in (' ', 'x ', 'x') if s != 'x' or not abbr.match(c)]
    run_mon(chk, b, ['--product'], short, st)
    s = st.stat
    if not chk.viol:
        need(s.get('products-readable', 0) > 1000 and s.get('products-unreadable', 0) > 100, 'too few products')
    return chk.finish(s['words'], len(st.shapes), 'a joined text whose graph was not seen before',
                      readable=s.get('products-readable', 0), unreadable=s.get('products-unreadable', 0), edges=s['edges'])


# ------------------------------------------------------------- C21 silenced letters

def c21(chk):
    b = build('rel', ('mon',), cli=False)
    st, r, real = MonStats(), chk.rng, vlib.real_words()
    args = ['--model', '--attr', 'karan']
    # every group of up to three letters before the mark, after and before syllables
    al = alpha_file(chk, [c for c in THAI], 'k')
    tail = chk.n(['', 'า'], ['', 'า', 'น', 'ม์'])
    for pre in ['', 'กา', 'กัน', 'เก', 'กี', 'ก', 'เกี่ย']:
        for suf in tail:
            for n in (1, 2):
                run_mon(chk, b, args + ['--enum', str(n), '--alpha', al, '--prefix', pre, '--suffix', '์' + suf], stats=st)
    few = alpha_file(chk, list('กตนรสยวหา' 'ิุะ' '์' 'เ'), 'few')
    for n in range(1, chk.n(6, 7)):
        run_mon(chk, b, args + ['--enum', str(n), '--alpha', few], stats=st)
    enum = st.stat['words']
    ws, kreal = [], [w for w in real if '์' in w]
    C = vlib.CONS
    for _ in range(chk.n(120000, 600000)):
        x = r.random()
        if x < .2 and kreal:
            w = r.choice(kreal)
            if r.random() < .4:
                w = w + (r.choice(kreal) if r.random() < .5 else vlib.gen_syllable(r))
        else:
            g = r.choice([r.choice(C), r.choice(C) + r.choice('ิุ'), r.choice(C) + r.choice(C),
                          r.choice(C) + r.choice(C) + r.choice(C), r.choice('ะาีืู')])
            base = vlib.gen_syllable(r).replace('์', '')
            w = base + g + '์' + (vlib.gen_syllable(r) if r.random() < .6 else r.choice([''] + C))
            if x < .22:
                w = ''.join(vlib.gen_syllable(r) for _ in range(r.choice([4, 10, 20]))) + w + w
        if r.random() < .1:
            w = vlib.mutate(r, w)
        ws.append(w)
    sample(chk, ws)
    ws += vlib.far_thai(r, ws, chk.n(200, 1000))
    run_mon(chk, b, args, ws, st)
    s = st.stat
    if not chk.viol:
        need(sum(v for k, v in st.rules.items() if 'karan' in k) > 1000, 'no silenced letter observed')
    return chk.finish(s['words'], len(st.shapes), 'a text whose graph was not seen before', enumerated=enum,
                      edges_compared=s['edges'], controls=s.get('controls', 0),
                      attributed_elsewhere=s.get('attributed-elsewhere', 0),
                      silencer_rules={k: v for k, v in st.rules.items() if 'karan' in k})
