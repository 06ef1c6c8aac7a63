"""Checks of the dictionary compiler, loader and the shipped dictionary."""

import fcntl
import itertools
import json
import os
import random
import re
import shutil
import signal
import struct
import subprocess
import termios
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import notation as N
import parsing
import resource
import vlib
from vlib import HarnessError, MonStats, build, cli, run

KEYCH = [chr(c) for c in range(0xe01, 0xe3b)] + [chr(c) for c in range(0xe3f, 0xe5c)]


def gen(b, tsv, dic, **kw):
    return run([os.path.join(b, 'gen-lookup-dict'), tsv, dic], timeout=120, **kw)


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def drv(b, *args, stdin=b''):
    return run([os.path.join(b, 'dictdrv')] + list(args), stdin=stdin, timeout=300)


# ------------------------------------------------------------------ C10 compiler

def rand_list(r, real):
    """Entries in order, repeated keys possible; all lines well-formed."""
    n = r.choice([1, 2, 3, 5, 10, 50, 200, 600])
    small = [r.choice(KEYCH) for _ in range(r.choice([1, 2, 3]))]
    out = []
    for _ in range(n):
        x = r.random()
        if x < .25 and real:
            k = r.choice(real)
        elif x < .5:
            k = ''.join(r.choice(small) for _ in range(r.randint(1, 12)))
        elif x < .65 and out:
            k = r.choice(out)[0]
            y = r.random()
            if y < .4:
                k = k[:r.randint(1, len(k))]
            elif y < .8:
                k += r.choice(KEYCH)
        elif x < .7:
            k = ''.join(r.choice(KEYCH) for _ in range(r.randint(30, 70)))
        else:
            k = ''.join(r.choice(KEYCH) for _ in range(r.randint(1, 10)))
        room = 254 - 1 - len(k.encode())          # with its newline the line fits any sane buffer
        if room < 1:
            continue
        y = r.random()
        if y < .5:
            d = parsing.rand_pron(r, len(k))
        elif y < .6:
            d = ''.join(r.choice('abcdefgXYZ_;,@0123456789- ') for _ in range(room))
        elif y < .65:
            d = ''
        else:
            d = ''.join(r.choice('abcXYZ_;,@0123-') for _ in range(r.randint(1, min(40, room))))
        out.append((k, d[:room]))
    return out


def huge_list(r, n, room=150):
    """n entries over three- and four-letter keys with long texts."""
    ks = set()
    while len(ks) < n:
        ks.add(''.join(r.choice(KEYCH[:46]) for _ in range(r.choice([3, 4]))))
    return [(k, ';'.join(parsing.rand_pron(r, len(k)) for _ in range(6))[:room]) for k in sorted(ks)]


def serial(ents, last_newline=True):
    s = ''.join('%s\t%s\n' % e for e in ents)
    return (s if last_newline else s[:-1]).encode('utf-8')


def read_back(chk, b, name, ents, dic):
    """Judge a dictionary reported as written; returns number of lookups."""
    want = dict(ents)
    r = drv(b, '--dump', dic)
    if r.crash() or r.timed_out:
        chk.violation('crash', {'list': name, 'stage': 'dump'}, 'reading the dictionary of %s: %s' % (name, r.crash()))
        return 0
    if b'NOLOAD' in r.out:
        chk.violation('unloadable', {'list': name}, 'compiler reported success but the dictionary of %s cannot be loaded' % name)
        return 0
    if not r.out.endswith(b'DONE\n'):
        raise HarnessError('dump failed: %r' % r.err[-500:])
    got = {}
    for l in r.out.decode('utf-8', 'replace').split('\n')[:-2]:
        k, _, d = l.partition('\t')
        got[k] = d
    if got != want:
        for k in sorted(set(want) | set(got)):
            if want.get(k) != got.get(k):
                chk.violation('entry', {'list': name, 'key': k}, 'key %r of %s: compiled %r, given %r' % (k, name, got.get(k), want.get(k)))
                break
    if not want:
        return 0
    # lookups as the parser makes them, by prefix
    texts = []
    keys = list(want)
    for k in keys:
        texts += [k, k[:-1] or k, k + 'ก']
    r = drv(b, '--lookup', dic, stdin='\n'.join(texts).encode() + b'\n')
    if r.crash() or r.timed_out:
        chk.violation('crash', {'list': name, 'stage': 'lookup'}, 'looking up in the dictionary of %s: %s' % (name, r.crash()))
        return 0
    lines = r.out.decode('utf-8', 'replace').split('\n')
    if lines[-2] != 'DONE' or len(lines) != len(texts) + 2:
        raise HarnessError('lookup failed: %r' % r.err[-500:])
    for t, l in zip(texts, lines):
        exp = [t] + ['%d=%s' % (i, want[t[:i]]) for i in range(1, len(t) + 1) if t[:i] in want]
        if l.split('\t') != exp:
            chk.violation('lookup', {'list': name, 'text': t}, 'text %r of %s: found %r, expected %r' % (t, name, l.split('\t')[1:], exp[1:]))
            break
    return len(texts)


def must_fail(chk, r, name, what):
    if r.timed_out:
        chk.violation('hang', {'list': name, 'what': what}, 'compiler does not end on %s' % what)
    elif r.crash():
        chk.violation('crash', {'list': name, 'what': what}, 'compiler crashed on %s: %s' % (what, r.crash()))
    elif r.rc == 0:
        chk.violation('silent', {'list': name, 'what': what}, 'compiler reported success on %s' % what)
    elif not r.err and not r.out:
        chk.violation('mute', {'list': name, 'what': what}, 'compiler failed without a message on %s' % what)


def limited(limit):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return f


BAD_LINES = [
    ('no TAB', 'กาk_A_0@2'.encode()), ('empty line', b''), ('spaces for TAB', 'กา    k_A_0@2'.encode()),
    ('Latin key', b'abc\tk_A_0@2'), ('mixed key', 'กaา\tk_A_0@2'.encode()), ('key with space', 'กา นา\tk_A_0@2'.encode()),
    ('broken UTF-8 in key', 'กา'.encode()[:-1] + b'\tk_A_0@2'), ('stray continuation byte', b'\x80\xe0\xb8\x81\tk_A_0@2'),
    ('byte 255 in key', 'กา'.encode() + b'\xff\tk_A_0@2'), ('overlong line', 'กา\t'.encode() + b'x' * 3000),
    ('very long key', ('ก' * 3000 + '\tk_A_0@2').encode()), ('truncated UTF-8 lead', 'กา'.encode() + b'\xe0\tk_A_0@2'),
    ('lead byte for a continuation byte', b'\xe0\xb8\xc1\tk_A_0@1'), ('letter for a continuation byte', 'กา'.encode() + b'\xe0\xb8A\tk_A_0@3'),
    ('emoji key', 'กา😀\tk_A_0@2'.encode()), ('line of 5000 bytes with a TAB in it', 'กา\t'.encode() + ('ข\tx' * 1000).encode()),
]


def c10(chk):
    b = build('san', ('dictdrv',), cli=False)
    r, real = chk.rng, vlib.real_words()
    sd = chk.scratch
    lists, bad = [], []
    for i in range(chk.n(160, 900)):
        lists.append(('random list %d' % i, rand_list(r, real), r.random() < .7))
    lists.append(('shipped', [tuple(l.decode().split('\t', 1)) for l in vlib.shipped_lines()], True))
    if real:
        big = real[:]
        r.shuffle(big)
        big = [w for w in big if len(w.encode()) < 200][:chk.n(6000, 25000)]
        lists.append(('large list', [(w, parsing.rand_pron(r, len(w))) for w in big], True))
        s = sorted(big[:2000])
        lists.append(('sorted list', [(w, 'd%d' % i) for i, w in enumerate(s)], True))
        lists.append(('reversed list', [(w, 'd%d' % i) for i, w in enumerate(reversed(s))], False))
        lists.append(('sorted twice', [(w, 'a%d' % i) for i, w in enumerate(s)] + [(w, 'b%d' % i) for i, w in enumerate(s)], True))
    lists.append(('huge list', huge_list(r, chk.n(12000, 60000)), True))
    chain = 'กขคงจฉชซ' * 6
    lists.append(('prefix chain', [(chain[:i], 'c%d' % i) for i in range(1, len(chain))], True))
    lists.append(('reversed prefix chain', [(chain[:i], 'c%d' % i) for i in range(len(chain) - 1, 0, -1)], True))
    lists.append(('all single letters', [(c, 'l%x' % ord(c)) for c in KEYCH], True))
    lists.append(('all letter pairs', [(a + c, 'l%x-%x' % (ord(a), ord(c))) for a in KEYCH[::3] for c in KEYCH], True))
    lists.append(('one key many times', [('กา', 'v%d' % i) for i in range(1000)], True))
    lists.append(('empty list', [], True))

    def good(j):
        i, (name, ents, nl) = j
        tsv = put(os.path.join(sd, 'g%d.tsv' % i), serial(ents, nl))
        dic = os.path.join(sd, 'g%d.dic' % i)
        rr = gen(b, tsv, dic)
        if rr.timed_out or rr.crash():
            chk.violation('crash', {'list': name}, 'compiler on %s: %s' % (name, rr.crash() or 'does not end'))
            return 0, 0
        if rr.rc != 0:
            chk.violation('refused', {'list': name}, 'well-formed %s refused: %r' % (name, rr.err[-200:]))
            return 0, 0
        n = read_back(chk, b, name, ents, dic)
        sz = os.path.getsize(dic)
        os.unlink(tsv)
        os.unlink(dic)
        return n, sz
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(good, enumerate(lists)))
    # more entries than fit in sixteen bits, without sanitizer for speed
    most = huge_list(r, chk.n(67000, 140000), 20)
    lists.append(('largest list', most, True))
    b, san = build('rel', ('dictdrv',), cli=False), b
    res.append(good((len(lists), lists[-1])))
    b = san
    chk.samples += ['%s: %s' % (n, e[:2]) for n, e, _ in lists[:6]]

    # malformed lines at any place
    jobs = []
    for i in range(chk.n(12, 60)):
        base = [e for e in rand_list(r, real) if e[1]][:40]
        for what, line in BAD_LINES:
            ls = [('%s\t%s' % e).encode() for e in base]
            where = r.choice([0, len(ls), r.randint(0, len(ls))])
            ls.insert(where, line)
            end = b'\n' if r.random() < .7 or line == b'' else b''
            jobs.append(('list %d with %s at %d of %d' % (i, what, where, len(ls)), b'\n'.join(ls) + end))

    def malformed(j):
        i, (what, data) = j
        tsv = put(os.path.join(sd, 'm%d.tsv' % i), data)
        rr = gen(b, tsv, os.path.join(sd, 'm%d.dic' % i))
        must_fail(chk, rr, 'malformed', what)
        os.unlink(tsv)
        return rr.rc
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(malformed, enumerate(jobs)))

    # unreadable inputs, unwritable outputs
    tsv = put(os.path.join(sd, 'ok.tsv'), serial([(w, 'd') for w in ('กา', 'ขา', 'กาน')]))
    os.mkdir(os.path.join(sd, 'dir'))
    # through a link: a compiler that removes or replaces its output must not reach the device
    os.symlink('/dev/full', os.path.join(sd, 'full device'))
    faults = 0
    for what, a, o in (('missing input', os.path.join(sd, 'none.tsv'), os.path.join(sd, 'o1.dic')),
                       ('directory as input', os.path.join(sd, 'dir'), os.path.join(sd, 'o2.dic')),
                       ('full device as output', tsv, os.path.join(sd, 'full device')),
                       ('directory as output', tsv, os.path.join(sd, 'dir')),
                       ('output in a missing directory', tsv, os.path.join(sd, 'nodir', 'o.dic'))):
        must_fail(chk, gen(b, a, o), 'io', what)
        faults += 1
    for args in ([], [tsv], [tsv, os.path.join(sd, 'o3.dic'), 'extra']):
        must_fail(chk, run([os.path.join(b, 'gen-lookup-dict')] + args), 'io', '%d arguments' % len(args))
    # the medium fills up after k bytes
    ents = rand_list(r, real)
    while len(ents) < 20:
        ents = ents + rand_list(r, real)
    tsv = put(os.path.join(sd, 'full.tsv'), serial(ents))
    dic = os.path.join(sd, 'full.dic')
    rr = gen(b, tsv, dic)
    if rr.rc == 0 and os.path.exists(dic):
        size = os.path.getsize(dic)
        limits = sorted(set([0, 1, 3, 4, 8, 100, 2048, 4095, 4096, 4097, size - 5, size - 2, size - 1]
                            + [r.randrange(size) for _ in range(chk.n(60, 400))]))
        # without sanitizer: its own files must not meet the limit
        rel = build('rel', ('dictdrv',), cli=False)

        def fill(k):
            o = os.path.join(sd, 'fill%d.dic' % k)
            p = subprocess.run([os.path.join(rel, 'gen-lookup-dict'), tsv, o], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, preexec_fn=limited(k), timeout=120)
            must_fail(chk, vlib.Result(p.returncode, p.stdout, p.stderr), 'fill', 'output limited to %d of %d bytes' % (k, size))
            os.path.exists(o) and os.unlink(o)
        with ThreadPoolExecutor(vlib.NCPU) as ex:
            list(ex.map(fill, [k for k in limits if 0 <= k < size]))
        faults += len(limits)
    looked = sum(n for n, _ in res)
    if not chk.viol and looked < 1000:
        raise HarnessError('too few lookups')
    return chk.finish(looked + len(jobs) + faults, len({len(e) for _, e, _ in lists}) + len({z for _, z in res}) + len({j[0].split(' with ')[1].split(' at ')[0] for j in jobs}) + faults,
                      'lists distinct in compiled size or entry count, kinds of malformed line, and distinct fault points',
                      lists=len(lists), entries=sum(len(e) for _, e, _ in lists), lookups=looked, malformed_lists=len(jobs), io_faults=faults)


# --------------------------------------------------------------------- C11 faults

def c11(chk):
    b = build('san', ('dictdrv',))
    st, r, real = MonStats(), chk.rng, vlib.real_words()
    jobs = []
    keys = list(vlib.shipped_dict())
    if parsing.dict_ok(b):
        jobs.append((os.path.join(b, 'data', 'except.dic'), r.sample(keys, min(12, len(keys))) + ['กา', 'คน']))
    for i in range(chk.n(5, 20)):
        ks = parsing.gen_keys(r, real)[:r.choice([1, 2, 5, 40])]
        if not ks:
            continue
        d = parsing.make_dict(chk, b, {k: parsing.rand_pron(r, len(k)) for k in ks}, 'f%d' % i)
        if d:
            jobs.append((d[0], ks[:6] + ['กา']))
    if not jobs:
        raise HarnessError('no dictionary could be compiled')
    total = 0
    work = []
    for i, (dic, words) in enumerate(jobs):
        n = 4 if i == 0 else 1
        size = os.path.getsize(dic)
        step = 1 if chk.thorough or size < 3000 else max(1, size // 2500)
        work.append((i, dic, words, step))

    def one(j):
        i, dic, words, step = j
        d = os.path.join(chk.scratch, 'cuts%d' % i)
        os.mkdir(d)
        rr = run([os.path.join(b, 'dictdrv'), '--cuts', dic, d, str(chk.seed + i), str(step)],
                 stdin=('\n'.join(words) + '\n').encode(), timeout=360)
        return j, rr
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for (i, dic, words, step), rr in ex.map(one, work):
            done = st.add(rr.out)
            if rr.timed_out:
                chk.violation('hang', {'dictionary': i}, 'loading damaged copies of dictionary %d does not end' % i)
            elif rr.crash():
                chk.violation('crash', {'dictionary': i}, 'loading a damaged dictionary: ' + rr.crash())
            elif rr.rc == 3 and not st.viol:
                continue          # words unaffected by this dictionary
            elif rr.rc or not done:
                raise HarnessError('driver failed rc=%d %r' % (rr.rc, rr.err[-500:]))
            else:
                total += 1
    for kind, what, detail in st.viol:
        chk.violation(kind, {'what': what}, '%s: %s: %s' % (kind, what, detail))

    # the program: warning, same output as without a dictionary, success
    dic, words = jobs[0]
    words = [w for w in words if len(w) < 15][:6] + ['กา นา', 'ab']
    none = os.path.join(chk.scratch, 'no-such.dic')
    ref = cli(b, ['-w', '-t', '-d' + none], words)
    runs = 0

    def judge(what, path, rr):
        if rr.timed_out or rr.crash():
            chk.violation('crash', {'program': what}, 'program with %s: %s' % (what, rr.crash() or 'does not end'))
        elif rr.out != ref.out or rr.rc != 0:
            chk.violation('side-effect', {'program': what}, 'program output with %s differs from no dictionary (status %d)' % (what, rr.rc))
        elif not rr.err:
            chk.violation('no-warning', {'program': what}, 'program gives no warning with %s' % what)
    judge('missing dictionary', none, ref)
    with open(dic, 'rb') as f:
        data = f.read()
    bads = [('directory', chk.scratch), ('/dev/null', os.path.join(chk.scratch, 'null device'))]
    os.symlink('/dev/null', os.path.join(chk.scratch, 'null device'))
    cuts = {0, 1, 4, len(data) - 1, len(data) - 4, len(data) // 2} | {r.randrange(len(data)) for _ in range(chk.n(40, 300))}
    for k in sorted(cuts):
        if 0 <= k < len(data):
            bads.append(('dictionary cut at %d' % k, put(os.path.join(chk.scratch, 'p%d.dic' % k), data[:k])))
    bads.append(('word list as dictionary', put(os.path.join(chk.scratch, 'text.dic'), 'กา\tk_A_0@2\n'.encode() * 50)))
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for (what, path), rr in zip(bads, ex.map(lambda j: cli(b, ['-w', '-t', '-d' + j[1]], words), bads)):
            judge(what, path, rr)
            runs += 1
    # complete file accepted without warning
    good = cli(b, ['-w', '-t', '-d' + dic], words)
    if good.rc != 0 or good.err or (good.out == ref.out and not chk.viol):
        chk.violation('good-refused', {'program': 'complete'}, 'complete dictionary not in force: %r' % good.err[:200])
    # a large one too, and cut anywhere
    n = chk.n(20000, 60000)
    ents = [('%s%s%s%s' % tuple(r.choice(vlib.CONS) for _ in range(4)), ';'.join(['m_A_0@4', 'n_A_0@4', 's_E_4@4', 'b_E_4@4'] * 4)) for _ in range(n)]
    tsv = put(os.path.join(chk.scratch, 'big.tsv'), serial(ents))
    big = os.path.join(chk.scratch, 'big.dic')
    if gen(b, tsv, big).rc == 0:
        words = [r.choice(ents)[0] for _ in range(5)]
        rr = cli(b, ['-n', '-w', '-d' + big], words)
        want = ''.join('%s:\nm_A_0@4\nn_A_0@4\ns_E_4@4\nb_E_4@4\n\n' % w for w in words).encode()
        if rr.rc != 0 or rr.err or rr.out != want:
            chk.violation('good-refused', {'program': 'large'}, 'complete dictionary of %d bytes not in force: %r' % (os.path.getsize(big), rr.err[:200]))
        ref = cli(b, ['-n', '-w', '-d' + none], words)
        with open(big, 'rb') as f:
            data = f.read()
        for _ in range(chk.n(6, 40)):
            k = r.randrange(len(data))
            rr = cli(b, ['-n', '-w', '-d' + put(os.path.join(chk.scratch, 'cut.dic'), data[:k])], words)
            judge('large dictionary cut at %d' % k, None, rr)
            runs += 1
    s = st.stat
    chk.samples += ['cut at every byte of %d bytes' % os.path.getsize(jobs[0][0])] + bads[:4]
    if not total and not chk.viol:
        raise HarnessError('no dictionary was exercised')
    return chk.finish(s.get('bad-files', 0) + runs, s.get('cuts', 0) + runs,
                      'distinct (dictionary, cut offset) faults; each followed by parses and a complete load',
                      dictionaries=total, damaged_files=s.get('bad-files', 0), parsers_judged=s.get('parsers-judged', 0),
                      program_runs=runs, exhaustive=all(w[3] == 1 for w in work))


# -------------------------------------------------------------------- C20 shipped

def c20(chk):
    b = build('san', ('dictdrv',))
    lines = vlib.shipped_lines()
    ents = {}
    for l in lines:
        t = l.decode('utf-8', 'replace')
        f = t.split('\t')
        if len(f) != 2 or not f[0] or not f[1]:
            chk.violation('format', {'line': t}, 'line %r is not key TAB pronunciation' % t)
            continue
        k, d = f
        if k in ents and ents[k] != d:
            chk.violation('conflict', {'key': k}, 'key %r is listed with %r and %r; one is lost' % (k, ents[k], d))
        ents[k] = d
    prons, syls = {}, set()
    for k, d in ents.items():
        alts = []
        for alt in d.split(';'):
            toks, pos, prev_neg, ok = alt.split(','), 0, None, True
            for t in toks:
                m = re.match(r'^(([%s])([%s])([%s])([%s])([%s]))@(-?\d+)$' % (re.escape(N.INIT), N.SECOND, N.VOWEL, N.FINAL, N.TONE), t)
                if not m:
                    chk.violation('syllable', {'key': k, 'syllable': t}, 'entry %r has malformed syllable %r' % (k, t))
                    ok = False
                    break
                if m.group(2) == '?' and m.group(3) != '_':
                    chk.violation('syllable', {'key': k, 'syllable': t}, 'entry %r has impossible cluster %r' % (k, t))
                syls.add(m.group(1))
                end = int(m.group(7))
                if end < 0:
                    # first half of a double syllable: -(start*100 + end of the whole)
                    if -end // 100 != pos or prev_neg is not None:
                        chk.violation('position', {'key': k, 'pronunciation': alt}, 'entry %r: double syllable %r does not start at %d' % (k, t, pos))
                        ok = False
                        break
                    prev_neg = -end % 100
                else:
                    if end <= pos or (prev_neg is not None and end != prev_neg):
                        chk.violation('position', {'key': k, 'pronunciation': alt}, 'entry %r: %r does not advance' % (k, t))
                        ok = False
                        break
                    pos, prev_neg = end, None
            if ok and (pos != len(k) or prev_neg is not None):
                chk.violation('position', {'key': k, 'pronunciation': alt}, 'entry %r of %d letters ends at %d' % (k, len(k), pos))
                ok = False
            if ok:
                alts.append(toks)
        prons[k] = alts
    if chk.viol:
        return chk.finish(len(ents), len(syls), 'entries')

    with open(os.path.join(b, 'data', 'gen-status.json')) as f:
        gs = json.load(f)
    if gs['rc'] != 0:
        chk.violation('compile', {'status': gs['rc']}, 'the shipped dictionary cannot be compiled: %s' % gs['err'][-300:])
        return chk.finish(len(ents), len(syls), 'entries')
    dic = os.path.join(b, 'data', 'except.dic')
    read_back(chk, b, 'shipped', sorted(ents.items()), dic)

    # in force: alone and followed, in every notation
    keys = sorted(prons)
    follow = ['', ' กา', ' 42', 'เก', 'แม', 'ไป', 'xyz', '-', '😀', 'กา', 'โต']
    jobs = [(k, f) for k in keys for f in follow]
    total, readings = 0, 0
    args = ['-n', '-j', '-w', '-r', '-t', '-p', '-s', '-d' + dic]

    def one(ws):
        return ws, cli(b, args, [k + f for k, f in ws], timeout=200)
    step = 40
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for ws, rr in ex.map(one, [jobs[i:i + step] for i in range(0, len(jobs), step)]):
            if rr.timed_out or rr.crash():
                chk.violation('crash', {'words': [k for k, _ in ws][:3]}, 'program: %s' % (rr.crash() or 'does not end'))
                continue
            res = vlib.parse_json_output(rr.out, [k + f for k, f in ws], 5)
            if res is None or rr.rc or rr.err:
                chk.violation('shape', {'words': [k for k, _ in ws][:3]}, 'unexpected output: %r %r' % (rr.out[:100], rr.err[:200]))
                continue
            for (k, f), outs in zip(ws, res):
                total += 1
                try:
                    raw, *rest = [json.loads(o.decode()) for o in outs]
                except ValueError:
                    chk.violation('json', {'word': k + f}, 'not JSON for %r' % (k + f))
                    continue
                readings += len(raw)
                shorter = [p for o in keys if o != k and k.startswith(o) for p in prons[o]]
                longer = [p for o in keys if o != k and (k + f).startswith(o) and len(o) > len(k) for p in prons[o]]
                seen = []
                for i, toks in enumerate(raw):
                    hit = [a for a in prons[k] if toks[:len(a)] == a and len(toks) >= len(a)]
                    if hit:
                        n = len(hit[0])
                        seen.append(hit[0])
                        for not_, o in zip('rtps', rest):
                            exp = [N.RENDER[not_](t.split('@')[0]) for t in hit[0]]
                            if len(o) <= i or o[i][:n] != exp:
                                chk.violation('notation', {'word': k + f, 'notation': not_},
                                              '%r in notation %s: %r, listed pronunciation is %r' % (k + f, not_, o[i:i + 1], exp))
                    elif not any(toks[:len(a)] == a for a in shorter + longer):
                        chk.violation('unlisted', {'word': k + f, 'reading': toks}, '%r read as %s, listed %s' % (k + f, toks, ents[k]))
                for a in prons[k]:
                    if a not in seen:
                        chk.violation('not-in-force', {'word': k + f, 'pronunciation': a}, '%r is never read as listed: %s' % (k + f, ','.join(a)))
                if f == '' and len(raw) != len(seen) and not shorter:
                    chk.violation('count', {'word': k}, '%r has %d readings, listed %s' % (k, len(raw), ents[k]))
    chk.samples += [list(e) for e in list(ents.items())[:8]]
    return chk.finish(total, len(keys), 'listed words; each read alone and before %d continuations in five notations' % (len(follow) - 1),
                      entries=len(ents), distinct_syllables=len(syls), contexts=total, readings=readings, exhaustive=True)


# ------------------------------------------------------- C25 raw notation as entry

def c25(chk):
    b = build('san')
    r, real = chk.rng, vlib.real_words()
    if not parsing.dict_ok(b):
        chk.violation('compile', {}, 'dictionary compiler does not work')
        return chk.finish(1, 1, 'compilations')
    none = '-d' + os.path.join(chk.scratch, 'none.dic')
    words = [w for w in r.sample(real, min(len(real), chk.n(4000, 20000))) if len(w) <= 14]
    words += [vlib.gen_word(r, r.choice([1, 2, 2, 3]))[:14] for _ in range(chk.n(4000, 20000))]
    # double syllables late in a word
    words += [''.join(r.choice(['ไป', 'แม', 'ใจ', 'เก', 'โต']) for _ in range(r.choice([4, 5, 6]))) + r.choice(['', r.choice(real or ['สนม'])[:6], 'สนม', 'ขยะ', 'สวา', 'ตลาด'])
              for _ in range(chk.n(300, 1500))]
    words = [w for w in dict.fromkeys(words) if w and all(c in KEYCH for c in w)]

    def listing(args, ws):
        """Decoded JSON answers [per word][per output] or None."""
        def one(part):
            return part, cli(b, args, part, timeout=300)
        res = []
        with ThreadPoolExecutor(vlib.NCPU) as ex:
            for part, rr in ex.map(one, [ws[i:i + 150] for i in range(0, len(ws), 150)]):
                if rr.timed_out or rr.crash():
                    chk.violation('crash', {'words': part[:3]}, 'program: %s' % (rr.crash() or 'does not end'))
                    return None
                outs = vlib.parse_json_output(rr.out, part, sum(a[1] in 'wrtps' for a in args))
                try:
                    res += [[json.loads(o.decode()) for o in one_] for one_ in outs]
                except (ValueError, TypeError):
                    raise HarnessError('answers cannot be decoded')
        return res
    opts = ['-n', '-j', '-w', '-t', '-p', '-r', '-s']
    raw = listing(opts + [none], words)
    if raw is None:
        return chk.finish(len(words), 1, 'words')
    # word -> readings, each as its five notations
    reads = {w: list(zip(*o)) for w, o in zip(words, raw) if o[0] and len({len(x) for x in o}) == 1}
    rounds, judged, joined, kept = chk.n(10, 24), 0, 0, set()
    before = ['', 'จะ', '12 ', 'เกทำ', 'ก.ข. ']
    after = ['', 'เก', ' x', 'โตไป', '-']
    fr = listing(opts + [none], before[1:] + after[1:])
    if fr is None:
        return chk.finish(len(words), 1, 'words')
    frame = {f: list(zip(*o)) for f, o in zip(before[1:] + after[1:], fr)}
    # a blank between two words, as printed
    sp = listing(opts + [none], ['ไป', 'ไป ไป'])
    gap = [tuple(y[0][len(x[0]):-len(x[0])] for x, y in zip(*sp))] if sp else []
    if gap:
        gap = [(['%s@1' % t.rpartition('@')[0] for t in gap[0][0]],) + gap[0][1:]]

    def moved(t, off):
        """Raw syllable further on in a text; both ends of a first half move."""
        code, _, pos = t.rpartition('@')
        if not re.match('-?[0-9]{1,9}$', pos):
            return t
        return '%s@%d' % (code, int(pos) + off if int(pos) >= 0 else int(pos) - 101 * off)

    def placed(reading, off):
        return (tuple(moved(t, off) for t in reading[0]),) + tuple(tuple(x) for x in reading[1:])
    for n in range(rounds):
        pick = r.sample(sorted(reads), min(len(reads), chk.n(1500, 4500)))
        ents, chosen = {}, {}
        for w in pick:
            if w.startswith(('จะ', 'เก', 'ทำ')):
                continue
            rd = reads[w]
            alts = rd if n % 2 and len(rd) < 8 else [r.choice(rd)]
            d = ';'.join(','.join(t[0]) for t in alts)
            if len(w.encode()) + len(d) < 250:
                ents[w], chosen[w] = d, alts
        ents = {w: d for w, d in ents.items() if not any(w[:i] in ents for i in range(1, len(w)))}
        dic = parsing.make_dict(chk, b, ents, 'raw%d' % n)
        if not dic:
            chk.violation('compile', {'round': n}, 'raw readings are not accepted as dictionary entries')
            break
        # texts as lists of parts: entered words (with their readings) and other text
        texts = []
        for w in ents:
            for _ in range(2):
                p, s = r.choice(before), r.choice(after)
                texts.append([x for x in (p and (p, frame[p]), (w, chosen[w]), s and (s, frame[s])) if x])
        keys = sorted(ents)
        double = [w for w in keys if '@-' in ents[w]] or keys
        for _ in range(len(keys)):
            ws, prod, parts = [r.choice(double if r.random() < .6 else keys) for _ in range(r.choice([2, 2, 3, 4]))], 1, []
            for w in ws:
                prod *= len(chosen[w])
                # ฤ and ฦ may belong to the syllable before
                parts += [(' ', gap)] * (bool(parts) and (w[0] in 'ฤฦ' or r.random() < .5)) + [(w, chosen[w])]
            if prod <= 64:
                texts.append(parts)

        def plain(parts):
            """No listed word but the ones meant applies in the text."""
            tx, at = ''.join(p[0] for p in parts), 0
            for p in parts:
                if p[0] in ents and any(tx[at:j] in ents for j in range(at + len(p[0]) + 1, len(tx) + 1)):
                    return False
                at += len(p[0])
            return True
        texts = [t for t in texts if plain(t)]
        got = listing(opts + ['-d' + dic[0]], [''.join(p[0] for p in t) for t in texts])
        if got is None:
            break
        for parts, o in zip(texts, got):
            exp, off = {((),) * 5}, 0
            for t, alts in parts:
                exp = {tuple(a + b_ for a, b_ in zip(e, placed(x, off))) for e in exp for x in alts}
                off += len(t)
            have = {placed(x, 0) for x in zip(*o)}
            judged += 1
            mine = [p[0] for p in parts if p[0] in ents]
            joined += len(mine) > 1
            kept.update((w, ents[w]) for w in mine)
            if have != exp or len({len(x) for x in o}) != 1:
                lost, extra = exp - have, have - exp
                chk.violation('round-trip', {'parts': [p[0] for p in parts], 'entries': {w: ents[w] for w in mine}},
                              'entries %s in %r: %s' % ({w: ents[w] for w in mine}, ''.join(p[0] for p in parts),
                                                        'lost %s' % (sorted(lost)[0],) if lost else 'extra %s' % (sorted(extra)[0],) if extra else 'notations differ in length'))
    if not chk.viol and judged < 500:
        raise HarnessError('too few entries judged')
    chk.samples += [list(k) for k in sorted(kept)[:8]]
    return chk.finish(judged, len(kept), 'distinct (word, readings entered) pairs', dictionaries=rounds, words_with_readings=len(reads),
                      texts_with_several=joined, double_syllables=sum('@-' in d for _, d in kept))


# ------------------------------------------------- C26 reproducible dictionaries

def c26(chk):
    r, real, sd = chk.rng, vlib.real_words(), chk.scratch
    names = ['rel', 'o0', 'o3', 'ndebug', 'clang', 'san']
    if shutil.which('clang++') is None:
        names.remove('clang')
    bs = {n: build(n, ('dictdrv',), cli=False) for n in names}
    b = bs['rel']
    lists = [('random list %d' % i, serial(rand_list(r, real), r.random() < .7)) for i in range(chk.n(50, 300))]
    lists.append(('shipped', b''.join(l + b'\n' for l in vlib.shipped_lines())))
    lists.append(('huge list', serial(huge_list(r, chk.n(3000, 20000)))))
    lists.append(('empty list', b''))
    for what, line in BAD_LINES:
        ls = [('%s\t%s' % e).encode() for e in rand_list(r, real) if e[1]][:30]
        ls.insert(r.randint(0, len(ls)), line)
        lists.append(('list with ' + what, b'\n'.join(ls) + b'\n'))
    dirs = [os.path.join(sd, d) for d in ('a', 'directory with a long name and spaces in it ' * 3, 'ก')]
    for d in dirs:
        os.mkdir(d)

    def compile(n, name, data, d, env=None, cwd=None, old=None):
        """Status, message without path names, bytes written, input afterwards."""
        k = '%s-%d' % (n, next(count))
        tsv, dic = os.path.join(d, k + '.tsv'), os.path.join(d, k + '.dic')
        put(tsv, data)
        if old is not None:
            put(dic, old)
        args = [os.path.basename(tsv), os.path.basename(dic)] if cwd else [tsv, dic]
        rr = run([os.path.join(bs[n], 'gen-lookup-dict')] + args, timeout=120, env=env, cwd=cwd)
        if rr.timed_out or rr.crash():
            chk.violation('crash', {'list': name, 'build': n}, 'compiler (%s) on %s: %s' % (n, name, rr.crash() or 'does not end'))
            return None
        with open(tsv, 'rb') as f:
            if f.read() != data:
                chk.violation('input', {'list': name}, 'compiling changes its input %s' % name)
        out = b''
        if os.path.exists(dic):
            with open(dic, 'rb') as f:
                out = f.read()
        left = sorted(x for x in os.listdir(d) if x.startswith(k + '.'))
        for x in left:
            os.unlink(os.path.join(d, x))
        msg = rr.out + rr.err
        for a in args + [os.path.join(bs[n], 'gen-lookup-dict')]:
            msg = msg.replace(a.encode(), b'*')
        return rr.rc, msg, out if rr.rc == 0 else b'', [x[len(k):] for x in left]
    import itertools
    count = itertools.count()
    envs = [('C locale', {'LC_ALL': 'C', 'LANG': None}), ('unknown locale', {'LC_ALL': 'xx_YY.bogus'}), ('no environment', {k: None for k in os.environ}),
            ('heap filled', {'MALLOC_PERTURB_': '165'}), ('heap filled other', {'MALLOC_PERTURB_': '1'}),
            ('time zone', {'TZ': 'Asia/Bangkok', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'SOURCE_DATE_EPOCH': '1', 'POSIXLY_CORRECT': '1'})]

    def one(l):
        name, data = l
        ref = compile('rel', name, data, dirs[0])
        if ref is None:
            return 0, b''
        runs = [('build ' + n, dict(n=n)) for n in names[1:]]
        runs += [('environment ' + e, dict(env=v)) for e, v in envs]
        runs += [('again', {}), ('other directory', dict(d=dirs[1])), ('directory with a Thai name', dict(d=dirs[2])),
                 ('relative names', dict(cwd=dirs[0])), ('over a longer file', dict(old=b'\xab' * (len(ref[2]) + 5000))),
                 ('over a shorter file', dict(old=b'\xab' * 7))]
        for what, kw in runs:
            kw = dict(dict(n='rel', d=dirs[0]), **kw)
            got = compile(kw.pop('n'), name, data, kw.pop('d'), **kw)
            if got is None:
                break
            if (got[0], got[1]) != (ref[0], ref[1]):
                chk.violation('status', {'list': name, 'run': what}, '%s compiled with %s: status %r, message %r; else %r, %r' % (name, what, got[0], got[1][:100], ref[0], ref[1][:100]))
            elif got[2] != ref[2]:
                at = next((i for i, (x, y) in enumerate(zip(got[2], ref[2])) if x != y), min(len(got[2]), len(ref[2])))
                chk.violation('bytes', {'list': name, 'run': what}, '%s compiled with %s differs at byte %d of %d' % (name, what, at, len(ref[2])))
        return len(runs), ref[2]
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(one, lists))
    # every byte written is defined
    vg = 0
    if shutil.which('valgrind'):
        def memcheck(j):
            i, (name, data) = j
            tsv = put(os.path.join(sd, 'v%d.tsv' % i), data)
            return run(['valgrind', '--error-exitcode=99', '--quiet', '--leak-check=no', os.path.join(b, 'gen-lookup-dict'), tsv, os.path.join(sd, 'v%d.dic' % i)],
                       timeout=300, hang='ok')
        some = lists[:chk.n(16, 80)] + lists[-len(BAD_LINES):]
        with ThreadPoolExecutor(vlib.NCPU) as ex:
            for (name, data), rr in zip(some, ex.map(memcheck, enumerate(some))):
                vg += rr.rc in (0, 1)
                if rr.rc == 99:
                    t = re.sub(r'==\d+== ?', '', rr.err.decode('utf-8', 'replace'))
                    chk.violation('memcheck', {'list': name, 'first': t.split('\n')[0]}, 'memcheck on %s: %s' % (name, t[:300]))
    if not chk.viol and sum(bool(d) for _, d in res) < 20:
        raise HarnessError('too few dictionaries compiled')
    chk.samples += [n for n, _ in lists[:3] + lists[-5:]]
    return chk.finish(sum(n for n, _ in res) + vg, len({d for _, d in res if d}), 'distinct dictionaries, each compiled in all builds, environments and places',
                      builds=names, environments=[e for e, _ in envs], lists=len(lists), bytes=sum(len(d) for _, d in res), memcheck_runs=vg)


# ---------------------------------------------------- C27 failing files and memory

def c27(chk):
    b = build('rel', ('dictdrv',))
    r, real, sd = chk.rng, vlib.real_words(), chk.scratch
    shim = os.path.join(sd, 'faultshim.so')
    rc, msg = vlib._run_cc(['gcc', '-O2', '-shared', '-fPIC', '-w', os.path.join(vlib.VERIF, 'harness', 'faultshim.c'), '-o', shim, '-ldl'])
    if rc:
        raise HarnessError('faultshim: ' + msg)
    ids = itertools.count()

    def faulty(cmd, stdin=b'', **fault):
        """Run with faults; result and (watched streams, memory requests, faults met)."""
        log = os.path.join(sd, 'log%d' % next(ids))
        env = {'LD_PRELOAD': shim, 'FAULT_LOG': log}
        env.update({'FAULT_' + k: str(v) for k, v in fault.items()})
        rr = run(cmd, stdin=stdin, env=env, timeout=120)
        seen = (0, 0, 0)
        if os.path.exists(log):
            with open(log) as f:
                seen = tuple(int(x) for x in f.read().split()) or seen
            os.unlink(log)
        return rr, seen

    def par(f, jobs):
        with ThreadPoolExecutor(vlib.NCPU) as ex:
            return list(ex.map(f, jobs))

    def content(p):
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            return f.read()

    def pick(n, most):
        """Fault points among 0..n-1: all, or both ends and a sample."""
        if n <= most:
            return list(range(n))
        return sorted(set(list(range(40)) + list(range(n - 40, n)) + r.sample(range(n), most - 80)))
    G, T = os.path.join(b, 'gen-lookup-dict'), os.path.join(b, 'thpronun')

    # the compiler
    lists = [[('กา', 'k_A_0@2')], [('กา', 'k_A_0@2'), ('ขา', 'c_A_4@2'), ('กาน', 'k_An0@3')]]
    lists += [[e for e in rand_list(r, real) if e[1]] for _ in range(chk.n(5, 20))]
    lists = [l for l in lists if l]
    lists.append([(w, parsing.rand_pron(r, len(w))) for w in (real or ['กา', 'ขา'])[:chk.n(1500, 8000)] if len(w) < 40])
    tally = {'read': 0, 'write': 0, 'close': 0, 'memory': 0, 'pieces': 0, 'dictionary-read': 0, 'dictionary-pieces': 0, 'input-pieces': 0}
    points = set()
    for i, ents in enumerate(lists):
        tsv = put(os.path.join(sd, 'f%d.tsv' % i), serial(ents, i % 2 == 0))
        ref = os.path.join(sd, 'f%d.dic' % i)
        rr, seen = faulty([G, tsv, ref])
        if rr.rc or rr.crash() or rr.timed_out:
            chk.violation('refused', {'list': i}, 'well-formed list %d refused: %r' % (i, rr.err[-200:]))
            continue
        want, nmem = content(ref), seen[1]
        # watching alone must not disturb, or the streams are used in ways the watch does not know
        clear = True
        for path in (tsv, ref):
            rr, _ = faulty([G, tsv, ref], PATH=path)
            clear = clear and not rr.rc and not rr.timed_out and content(ref) == want
        size = os.path.getsize(tsv)
        few = chk.n(150, 1200)
        jobs = [('read', 'reading the list fails after %d of %d bytes' % (k, size), {'PATH': tsv, 'FAIL': k}) for k in pick(size + 1, few)]
        jobs += [('write', 'writing fails after %d of %d bytes' % (k, len(want)), {'PATH': None, 'FAIL': k}) for k in pick(len(want), few)]
        jobs += [('close', 'closing the dictionary fails', {'PATH': None, 'CLOSE': 1})]
        jobs += [('memory', 'memory request %d of %d fails%s' % (k + 1, nmem, ' and all later ones' * a), {'MEM': k + 1, 'MEMALL': a})
                 for k in pick(nmem, few) for a in (0, 1)]
        jobs += [('pieces', 'the list comes in pieces of %d bytes' % m, {'PATH': tsv, 'PIECE': m}) for m in (1, 2, 3, 7, 4095, 4097)]
        if not clear:
            jobs = [j for j in jobs if j[0] == 'memory']

        def one(j):
            kind, what, fault = j
            out = os.path.join(sd, 'o%d.dic' % next(ids))
            fault = {k: v if v is not None else out for k, v in fault.items()}
            rr, seen = faulty([G, tsv, out], **fault)
            got = content(out)
            if got is not None:
                os.unlink(out)
            if rr.timed_out:
                chk.violation('hang', {'list': i, 'what': what}, 'compiler does not end when ' + what)
            elif rr.crash():
                chk.violation('crash', {'list': i, 'what': what}, 'compiler crashes when %s: %s' % (what, rr.crash()))
            elif kind == 'pieces':
                if rr.rc or got != want:
                    chk.violation('pieces', {'list': i, 'what': what}, 'another result (status %d) when %s' % (rr.rc, what))
                return kind, seen[0]
            elif seen[2] and rr.rc == 0 and not (kind == 'memory' and got == want):
                # doing without some memory is fine if nothing is lost
                chk.violation('silent', {'list': i, 'what': what}, 'compiler reports success although ' + what)
            elif rr.rc and not rr.err and not rr.out:
                chk.violation('mute', {'list': i, 'what': what}, 'compiler fails without a message when ' + what)
            return kind, seen[2] or bool(rr.crash())
        for (kind, what, _), (_, n) in zip(jobs, par(one, jobs)):
            if n:
                tally[kind] += 1
                points.add((i, what))
        if len(chk.viol) > 50:
            break
    # a file whose every read fails
    rr = gen(b, '/proc/self/mem', os.path.join(sd, 'mem.dic'))
    must_fail(chk, rr, 'io', 'a list that cannot be read')

    # the program's dictionary
    dics = []
    if parsing.dict_ok(b):
        keys = list(vlib.shipped_dict())
        dics.append((os.path.join(b, 'data', 'except.dic'), r.sample(keys, min(20, len(keys)))))
    for i in range(chk.n(2, 6)):
        ents = {k: parsing.rand_pron(r, len(k)) for k in parsing.gen_keys(r, real)[:r.choice([1, 5, 60])]}
        d = ents and parsing.make_dict(chk, b, ents, 'p%d' % i)
        if d:
            dics.append((d[0], sorted(ents)[:20]))
    for i, (dic, ws) in enumerate(dics):
        args = [T, '-n', '-w', '-t']
        ws = [w for w in ws if len(w) <= 10] + ['กา', 'คน']
        text = ''.join(w + '\n' for w in ws).encode()
        have, wo = run(args + ['-d' + dic], stdin=text), run(args + ['-d' + os.path.join(sd, 'none.dic')], stdin=text)
        if have.rc or wo.rc or have.crash() or wo.crash():
            chk.violation('crash', {'dictionary': i}, 'program fails: %s' % (have.crash() or wo.crash() or (have.rc, wo.rc),))
            continue
        size = os.path.getsize(dic)
        jobs = [('dictionary-read', 'reading the dictionary fails after %d of %d bytes' % (k, size), {'FAIL': k}) for k in pick(size, chk.n(250, 2000))]
        jobs += [('dictionary-pieces', 'the dictionary comes in pieces of %d bytes' % m, {'PIECE': m}) for m in (1, 2, 3, 5, 1000, 4095)]
        rr, _ = faulty(args + ['-d' + dic], stdin=text, PATH=dic)
        if rr.out != have.out or rr.rc or rr.err != have.err:
            jobs = []

        def load(j):
            kind, what, fault = j
            rr, seen = faulty(args + ['-d' + dic], stdin=text, PATH=dic, **fault)
            if rr.timed_out or rr.crash() or rr.rc:
                chk.violation('crash', {'dictionary': i, 'what': what}, 'program fails (%s) when %s' % (rr.crash() or rr.rc, what))
            elif kind == 'dictionary-pieces':
                if rr.out != have.out or rr.err != have.err:
                    chk.violation('pieces', {'dictionary': i, 'what': what}, 'other answers when ' + what)
                return seen[0]
            elif seen[2]:
                if rr.out != wo.out:
                    chk.violation('dictionary', {'dictionary': i, 'what': what}, 'answers are not those without dictionary when ' + what)
                elif not rr.err:
                    chk.violation('mute', {'dictionary': i, 'what': what}, 'no warning when ' + what)
            return seen[2]
        for (kind, what, _), n in zip(jobs, par(load, jobs)):
            if n:
                tally[kind] += 1
                points.add(('d', i, what))
        rr = run(args + ['-d/proc/self/mem'], stdin=text)
        if rr.rc or rr.crash() or rr.out != wo.out or not rr.err:
            chk.violation('dictionary', {'dictionary': i, 'what': 'unreadable'}, 'a dictionary that cannot be read is not refused with a warning')

        # words coming in pieces
        short = [w for w in real[:3000] if len(w) <= 10]

        def pieces(seed):
            pr = random.Random(seed)
            words = [pr.choice(ws + short) for _ in range(pr.choice([3, 20, 60]))]
            data = ''.join(w + '\n' for w in words).encode()
            if seed % 3 == 0:
                data = data[:-1]
            ref = run(args + ['-d' + dic], stdin=data)
            got = in_pieces(args + ['-d' + dic], data, pr)
            if got is not None and (got != ref.out or ref.rc):
                chk.violation('pieces', {'dictionary': i, 'words': words[:3]}, 'other answers when words come in pieces')
            return got is not None
        tally['input-pieces'] += sum(par(pieces, [chk.seed * 1000 + i * 100 + k for k in range(chk.n(12, 60))]))
    done = sum(tally.values())
    if not chk.viol and (done < 10 or tally['input-pieces'] == 0):
        raise HarnessError('hardly any fault took place: %s' % tally)
    chk.samples += [str(p) for p in sorted(points, key=str)[:8]]
    return chk.finish(done, len(points), 'distinct (list or dictionary, fault point) pairs at which the fault really took place',
                      lists=len(lists), dictionaries=len(dics), faults=tally)


def in_pieces(cmd, data, pr):
    """Output of a program that gets its input in small pieces, each only
    after the one before was taken."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
    end = time.time() + 60
    out = []
    t = threading.Thread(target=lambda: out.append(p.stdout.read()))
    t.start()
    try:
        at = 0
        while at < len(data):
            n = pr.choice([1, 1, 2, 4, 50])
            p.stdin.write(data[at:at + n])
            at += n
            while struct.unpack('i', fcntl.ioctl(p.stdin, termios.FIONREAD, b'\0' * 4))[0] and time.time() < end and p.poll() is None:
                time.sleep(.0005)
    except OSError:
        pass
    try:
        p.stdin.close()
    except OSError:
        pass
    t.join(60)
    if t.is_alive():
        p.kill()
        t.join()
        p.wait()
        return None
    p.wait()
    return out[0]


# ------------------------------------------------- C32 wrong pronunciations

def wrong_pron(r, n):
    """A text that is not a pronunciation of a word of n letters, or hardly."""
    good = parsing.rand_pron(r, n).split(';')[0]
    k = r.randrange(16)
    if k == 0:
        return ''
    if k == 1:
        return good[:r.randrange(len(good))]
    if k == 2:
        i = r.randrange(len(good))
        return good[:i] + r.choice('*!~_@,;-09azZ ก\x7f"\\') + good[i + 1:]
    if k == 3:
        i = r.randrange(len(good) + 1)
        return good[:i] + r.choice('*!~_@,;-09azZ ก\x7f"\\') + good[i:]
    if k == 4:
        return 'k_A_0@%d' % r.choice([0, -1, n + 1, n * 50, 99999, 2 ** 31 - 1, 2 ** 31, 10 ** 20, -2 ** 31, -10 ** 20, 1])
    if k == 5:        # places that go back or stand still
        return ','.join('%s@%d' % (r.choice(['k_A_0', 'm_in2', 'krog1']), r.randint(-2, n + 1)) for _ in range(r.randint(2, 5)))
    if k == 6:
        return ','.join('k_a_1@%d' % -r.choice([n, 100 + n, 0, 1, 2, 102, 201, 203]) for _ in range(r.randint(1, 3))) + r.choice(['', ',m_A_0@%d' % n])
    if k == 7:
        return ';' * r.randint(1, 4)
    if k == 8:
        return ',' * r.randint(1, 4)
    if k == 9:
        return good + r.choice([';', ',', '@', ';;', ',,', ';zz', ',zz', ' ', '@3', 'x'])
    if k == 10:
        return r.choice([';', ',', '@', 'zz;', 'zz,', ' ']) + good
    if k == 11:
        return ''.join(chr(r.choice([32, 33, 44, 59, 64, 95] + list(range(48, 58)) + list(range(97, 123)))) for _ in range(r.randint(1, 60)))
    if k == 12:
        return r.choice(['( )@1', '(x)@%d' % n, '*_*_*@%d' % n, 'k_*_0@%d' % n, '*_a_0@%d' % n, 'k_a_*@%d' % n, 'k*a_0@%d' % n, 'k_a_0', 'k_a_0@', 'k_a_0@x', 'k_a_0@+%d' % n,
                         'k_a_0@ %d' % n, 'k_a_0@0x1', 'k_a_0@1e3', 'k_a_0@-', 'k_a_0@--1', 'กา', 'é' * 20])
    if k == 13:
        return 'k_a_0@' + '9' * r.choice([5, 6, 7, 9, 10, 11, 19, 100])
    if k == 14:
        return good.replace('@', r.choice(['', '@@', ':', '@-', '@0']), r.choice([1, 9]))
    return ','.join(['k_a_1@1'] * r.randint(2, 20))


def garbage(r, n):
    """A text that no one takes for a pronunciation."""
    return r.choice(['', 'zz', 'k_A_0', 'k_A_0@', '@%d' % n, 'q_A_0@%d' % n, 'kqA_0@%d' % n, 'k_q_0@%d' % n, 'k_Aq0@%d' % n, 'k_A_9@%d' % n, 'k_A_0@0', 'k_A_0@x', ',', 'k_A_0@%d,' % n,
                     ',k_A_0@%d' % n, 'k_A_0#%d' % n, 'k_a_1@%d,k_A_0@%d' % (n, n), 'k_A_0@%d' % -n, 'กา', 'k_A_0@99999999999999999999', ' '])


def mend(r, b, f, chk, i, real):
    """Entries with garbage among their pronunciations against the entries without."""
    keys = [k for k in dict.fromkeys(parsing.gen_keys(r, real)) if 0 < len(k) <= 8][:20]
    full, left = {}, {}
    for k in keys:
        alts = parsing.rand_pron(r, len(k)).split(';') if r.random() < .7 else []
        if alts:
            left[k] = ';'.join(alts)
        for _ in range(r.randint(0 if alts else 1, 3)):
            alts.insert(r.randint(0, len(alts)), garbage(r, len(k)))
        full[k] = ';'.join(alts)
    if not left:
        return None
    tsv = put(os.path.join(chk.scratch, 'full%d.tsv' % i), ''.join('%s\t%s\n' % e for e in sorted(full.items())).encode())
    dic = os.path.join(chk.scratch, 'full%d.dic' % i)
    if gen(f, tsv, dic).rc:
        return None
    only = parsing.make_dict(chk, f, left, 'left%d' % i)
    if not only:
        raise HarnessError('cannot compile a dictionary')
    texts = keys + [''.join(r.choice(keys + ['มา', 'x', ' ']) for _ in range(2)) for _ in range(10)]
    text = ''.join(w + '\n' for w in texts if len(w) <= 14).encode()
    outs = []
    for d in (dic, only[0]):
        x = run([os.path.join(b, 'thpronun')] + [['-w'], ['-t', '-r'], ['-s', '-p'], ['-j']][i % 4] + ['-d' + d], stdin=text, timeout=100, hang='ok')
        if x.timed_out:
            return None
        outs.append(x)
    x, y = outs
    if y.rc or y.crash():
        return None
    if x.out == y.out and not x.rc:
        return len(texts), None
    la, lb = x.out.decode('utf-8', 'replace').split('\n'), y.out.decode('utf-8', 'replace').split('\n')
    at = next((n for n, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)) - 1)
    return len(texts), 'with garbage %s%r, without it %r' % ((x.crash() or '') and x.crash() + ' ', la[at:at + 2], lb[at:at + 2])


def text_part(data):
    """Where the pronunciations of a dictionary file begin, with their size before."""
    for p in range(len(data) - 4, -1, -1):
        if struct.unpack('>i', data[p:p + 4])[0] == len(data) - p - 4:
            return p
    return None


def ruined(r, data, at):
    """A dictionary file with damage in the part that holds the pronunciations, and whether it is certainly too short."""
    b = bytearray(data)
    size = len(b) - at - 4
    k = r.randrange(5)
    if k == 0:        # less than there is
        b[at:at + 4] = struct.pack('>i', r.choice([0, 1, size - 1, size // 2, r.randrange(size)]))
    elif k == 1:      # less, and gone
        n = r.choice([0, 1, size // 2, r.randrange(size)])
        b[at:at + 4] = struct.pack('>i', n)
        del b[at + 4 + n:]
    elif k == 2:      # more than there is, or nonsense
        b[at:at + 4] = struct.pack('>I', r.choice([size + 1, size * 2, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff, 0x80000000 | size]))
        return bytes(b), True
    elif k == 3:
        for _ in range(r.choice([1, 2, 10, 100])):
            b[at + 4 + r.randrange(size)] ^= 1 << r.randrange(8)
    else:
        i = r.randrange(size)
        n = min(size - i, r.choice([1, 10, 1000]))
        b[at + 4 + i:at + 4 + i + n] = bytes(r.choice([0, 255, 44, 59, 64]) for _ in range(n)) if r.random() < .5 else r.randbytes(n)
    return bytes(b), False


def ruin(chk, b, f):
    """Damaged pronunciation parts: no crash, texts without entries as ever."""
    r, real, sd = chk.rng, vlib.real_words(), chk.scratch
    jobs = []
    for i in range(chk.n(100, 1000)):
        keys = [k for k in dict.fromkeys(parsing.gen_keys(r, real)) if 0 < len(k) <= 8][:r.choice([1, 3, 30])]
        ents = {k: parsing.rand_pron(r, len(k)) for k in keys}
        made = ents and parsing.make_dict(chk, f, ents, 'ruin%d' % i)
        if not made:
            continue
        with open(made[0], 'rb') as g:
            data = g.read()
        at = text_part(data)
        if at is None or len(data) - at - 4 < 2:
            continue
        bad, short = ruined(r, data, at)
        clear = [w for w in r.sample(real, min(30, len(real))) if len(w) <= 10 and not any(k in w for k in keys)][:8]
        jobs.append((i, put(os.path.join(sd, 'ruin%d.dic' % i), bad), keys[:12], clear, short))

    def one(j):
        i, dic, keys, clear, short = j
        args = ['-n', '-w'] + [['-t'], ['-r'], ['-j'], ['-g']][i % 4]
        x = cli(b, args + ['-d' + dic], keys + clear, timeout=100, hang='ok')
        if x.timed_out:
            return None
        if x.crash() or x.rc:
            return 'fails: %s' % (x.crash() or 'status %d' % x.rc)
        wo = [cli(f, args + ['-d' + os.path.join(sd, 'no-such.dic')], ws, timeout=100, hang='ok') for ws in (clear, keys + clear)]
        if short and x.out != wo[1].out:
            return 'a dictionary shorter than it says is used'
        if not x.out.endswith(wo[0].out):
            return 'other answers to texts without entries'
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for j, why in zip(jobs, ex.map(one, jobs)):
            if why:
                chk.violation('ruined', {'dictionary': j[0], 'keys': j[2]}, 'damaged pronunciations: ' + why)
    return len(jobs)


def c32(chk):
    b = build('san', ())
    f = build('rel', ())
    r, real, sd = chk.rng, vlib.real_words(), chk.scratch
    jobs, refused, wrong = [], 0, set()
    for i in range(chk.n(60, 500)):
        keys = [k for k in parsing.gen_keys(r, real) if 0 < len(k) <= 8][:40]
        keys = list(dict.fromkeys(keys))
        r.shuffle(keys)
        cut = max(1, len(keys) // 3)
        bad = {k: wrong_pron(r, len(k)) for k in keys[:cut]}
        bad = {k: v if r.random() < .8 else parsing.rand_pron(r, len(k)) + ';' + v for k, v in bad.items()}
        good = {k: parsing.rand_pron(r, len(k)) for k in keys[cut:]}
        if not good:
            continue
        # a compiler may refuse a wrong pronunciation
        both = os.path.join(sd, 'both%d.dic' % i)
        tsv = put(os.path.join(sd, 'both%d.tsv' % i), ''.join('%s\t%s\n' % e for e in r.sample(sorted({**bad, **good}.items()), len(bad) + len(good))).encode())
        rr = gen(f, tsv, both)
        if rr.crash() or rr.timed_out:
            chk.violation('compiler', {'list': i}, 'compiler with wrong pronunciations: %s' % (rr.crash() or 'does not end'))
            continue
        if rr.rc:
            refused += 1
            continue
        only = parsing.make_dict(chk, f, good, 'only%d' % i)
        if not only:
            raise HarnessError('cannot compile a dictionary')
        alone = [k for k in bad]
        r.shuffle(alone)
        mixed = [''.join(r.choice(alone + list(good) + ['กา', ' ', 'x']) for _ in range(r.randint(2, 4))) for _ in range(10)]
        clear = list(good) + [''.join(r.choice(list(good) + ['มา', ' ', 'x']) for _ in range(2)) for _ in range(10)] + r.sample(real, min(10, len(real)))
        clear = [w for w in clear if len(w) <= 14 and not any(k in w for k in bad)]
        wrong.update(bad.values())
        jobs.append((i, both, only[0], alone[:14] + [w for w in mixed if len(w) <= 20], clear, bad))
    if not jobs and not chk.viol:
        if refused:      # all lists refused: nothing wrong can get into a dictionary
            return chk.finish(refused, refused, 'lists with wrong pronunciations, all refused by the compiler')
        raise HarnessError('no dictionaries')

    hung = []

    def one(j):
        i, both, only, harmed, clear, bad = j
        opts = ['-n', '-w'] + [['-t', '-r'], ['-p', '-s'], ['-j'], ['-g'], ['-g', '-t'], []][i % 6]
        for w in harmed:
            if hung:
                return None
            rr = cli(b, opts + ['-d' + both], [w], timeout=100, hang='ok')
            if rr.timed_out or rr.crash() or rr.rc:
                # a lone word that takes too long, or too much, with good entries only is no one's fault here
                ref = cli(b, opts + ['-d' + only], [w], timeout=100, hang='ok')
                if not (ref.timed_out or ref.crash() or ref.rc):
                    hung.extend([1] * rr.timed_out)
                    why = rr.crash() or ('does not end' if rr.timed_out else 'status %d' % rr.rc)
                    return w, why, {k: v for k, v in bad.items() if k in w}
        text = ''.join(w + '\n' for w in clear).encode()
        x, y = (run([os.path.join(f, 'thpronun')] + opts + ['-d' + d], stdin=text, timeout=100, hang='ok') for d in (both, only))
        if x.timed_out or y.timed_out:
            return None
        if x.out != y.out or x.rc != y.rc:
            return clear[:3], 'other answers', dict(list(bad.items())[:3])
        return None
    n = mended = 0
    ruins = ruin(chk, b, f)
    for i in range(chk.n(80, 600)):
        res = mend(r, b, f, chk, i, real)
        if res:
            mended += 1
            n += res[0]
            if res[1]:
                chk.violation('alternatives', {'list': i, 'diff': res[1]}, 'garbage beside or instead of a pronunciation: ' + res[1])
    if jobs and not mended:
        raise HarnessError('no entries with garbage compared')
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for j, res in zip(jobs, ex.map(one, jobs)):
            n += len(j[3]) + len(j[4])
            if res:
                w, why, bad = res
                if why == 'other answers':
                    chk.violation('others', {'entries': bad}, 'wrong entries change the answers to texts without them')
                else:
                    chk.violation('crash', {'word': w, 'entries': bad}, 'word %r with entries %r: %s' % (w, bad, why))
    chk.samples += sorted(wrong)[:10]
    return chk.finish(n, len(wrong), 'distinct wrong pronunciations in force on some word', dictionaries=len(jobs), mended=mended, damaged_files=ruins, refused_lists=refused)


# ------------------------------------------------------ C35 broken off compiling

def c35(chk):
    b = build('rel', ())
    r, real, sd = chk.rng, vlib.real_words(), chk.scratch
    tool = os.path.join(sd, 'killat')
    rc, msg = vlib._run_cc(['gcc', '-O2', '-w', os.path.join(vlib.VERIF, 'harness', 'killat.c'), '-o', tool])
    if rc:
        raise HarnessError('killat: ' + msg)
    compiler = os.path.join(b, 'gen-lookup-dict')

    def entries(keys):
        return [(k, ';'.join(dict.fromkeys(parsing.rand_pron(r, len(k)) for _ in range(r.choice([1, 1, 3]))))) for k in keys]

    def keyset(n):
        ks = {'กา'}
        while len(ks) < n:
            ks.add(r.choice(real) if r.random() < .3 else ''.join(r.choice(KEYCH[:46]) for _ in range(r.choice([1, 2, 3, 4]))))
        return sorted(k for k in ks if 0 < len(k) <= 8 and not k.startswith('-'))
    small, mid, big = keyset(12), keyset(150), keyset(chk.n(700, 2500))
    cases = [('first small', None, entries(small)),
             ('first large', None, entries(big)),
             ('same keys', entries(mid), entries(mid)),
             ('same keys, large', entries(big), entries(big)),
             ('longer by smaller', entries(big), entries(small)),
             ('smaller by longer', entries(small), entries(big)),
             ('more keys', entries(mid[::2]), entries(mid)),
             ('unlike', entries(keyset(200)), entries(mid))]
    # the same length and index, other pronunciations
    base = [(k, 'k_A_0@%d' % len(k)) for k in big]
    cases.append(('other pronunciations', base, [(k, 'm_E_0@%d' % len(k)) for k in big]))
    none = os.path.join(sd, 'none.dic')
    if gen(b, put(os.path.join(sd, 'none.tsv'), 'ฃฅฃฅฃฅ\tk_A_0@6\n'.encode()), none).rc != 0:
        raise HarnessError('cannot compile')

    def ask(dic, words):
        return run([os.path.join(b, 'thpronun'), '-n', '-w', '-d' + dic], stdin=''.join(w + '\n' for w in words).encode(), timeout=120)

    def states(x):
        d, name, old, ents, seed = x
        r2 = random.Random(seed)
        words = [k for k, _ in (ents + (old or []))]
        words = list(dict.fromkeys(r2.sample(words, min(len(words), 120)) + words[:3] + words[-3:]))
        tsv = put(os.path.join(d, 'list.tsv'), serial(ents))
        dic = os.path.join(d, 'out.dic')
        before = None
        good = {}
        for what, es in (('old', old), ('new', ents)):
            if es is None:
                continue
            f = os.path.join(d, what + '.dic')
            g = gen(b, put(os.path.join(d, what + '.tsv'), serial(es)), f)
            if g.rc != 0 or not os.path.exists(f):
                chk.violation('refused-list', {'case': name}, 'a sound list is refused: %r' % g.err[:200])
                return 0, 0, 0
            with open(f, 'rb') as h:
                data = h.read()
            if what == 'old':
                before = data
            a = ask(f, words)
            if a.rc or a.err or a.timed_out:
                chk.violation('new-refused', {'case': name}, 'a dictionary compiled without interruption is not usable: %r' % a.err[:200])
                return 0, 0, 0
            good[what] = a.out
        nothing = ask(none, words).out
        final = data
        if nothing in good.values():
            raise HarnessError('dictionary without effect')
        seen = {}

        def judge(how):
            if not os.path.exists(dic):
                seen.setdefault(None, how)
                return
            with open(dic, 'rb') as h:
                data = h.read()
            if data in seen:
                return
            seen[data] = how
            a = ask(dic, words)
            if a.timed_out:
                return
            w = {'case': name, 'moment': how, 'size': len(data), 'complete': len(final)}
            if a.crash():
                chk.violation('crash', w, 'the program crashes on what a compiler broken off (%s, %s) leaves' % (name, how))
            elif a.out in good.values() or (a.out == nothing and a.err):
                pass
            else:
                chk.violation('half', w, 'a compiler broken off (%s, %s) leaves a dictionary that is accepted but is neither the new nor the old one' % (name, how))

        def prepare():
            for f in os.listdir(d):
                if f not in ('list.tsv', 'bad.tsv', 'old.tsv', 'new.tsv', 'old.dic', 'new.dic'):
                    p = os.path.join(d, f)
                    os.path.isdir(p) and not os.path.islink(p) or os.unlink(p)
            if before is not None:
                put(dic, before)
        moments = 0
        # killed at every step towards the kernel
        log = os.path.join(d, 'log')
        prepare()
        t = run([tool, '0', log, compiler, tsv, dic], timeout=120)
        total = 0
        if t.rc == 0 and os.path.exists(log):
            with open(log) as h:
                total, _, rc = map(int, h.read().split())
            if rc != 0:
                total = 0
        pick = range(1, total + 1)
        if len(pick) > chk.n(160, 2000):
            pick = sorted(r2.sample(pick, chk.n(160, 2000)))
        traced = 0
        for k in pick:
            prepare()
            t = run([tool, str(k), log, compiler, tsv, dic], timeout=120)
            if t.rc != 0 or not os.path.exists(log):
                continue
            traced += 1
            with open(log) as h:
                killed = h.read().split()[1] == '1'
            if killed:
                judge('killed at step %d of %d' % (k, total))
            # carry on: the next run is not disturbed by what is left
            if k % 7 == 0:
                g = gen(b, tsv, dic)
                moments += 1
                if g.rc != 0 or not os.path.exists(dic) or ask(dic, words).out != good['new']:
                    chk.violation('again', {'case': name, 'moment': k}, 'after a compiler killed at step %d the next run does not give the dictionary: status %r, %r' % (k, g.rc, g.err[:200]))
        # ended by the kernel when the file reaches a size
        sizes = sorted({0, 1, 4, 100, 4095, 4096, 4097, len(final) - 1, len(final) - 5, len(final) // 2} | {r2.randrange(len(final)) for _ in range(chk.n(20, 200))})
        for k in sizes:
            if 0 <= k < len(final):
                for ignore in (False, True):
                    prepare()

                    def pre():
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    subprocess.run([compiler, tsv, dic], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                   preexec_fn=pre, restore_signals=False, timeout=300)
                    moments += 1
                    judge(('out of room' if ignore else 'killed') + ' after %d of %d bytes' % (k, len(final)))
        # given up because of a wrong line
        lines = serial(ents).split(b'\n')[:-1]
        for what, line in BAD_LINES[:chk.n(4, 12)]:
            at = r2.choice([0, len(lines) // 2, len(lines)])
            put(os.path.join(d, 'bad.tsv'), b'\n'.join(lines[:at] + [line] + lines[at:]) + b'\n')
            prepare()
            g = gen(b, os.path.join(d, 'bad.tsv'), dic)
            moments += 1
            if g.rc not in (0, None):
                judge('given up at line %d' % at)
        return moments + traced, len(seen), traced
    jobs = []
    for i, (name, old, ents) in enumerate(cases):
        d = os.path.join(sd, 'case%d' % i)
        os.mkdir(d)
        jobs.append((d, name, old, ents, r.random()))
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(states, jobs))
    moments = sum(x[0] for x in res)
    if not chk.viol and moments < 200:
        raise HarnessError('too few interruptions')
    chk.samples += ['%s: %d moments, %d different files left, %d of them at system calls' % ((j[1],) + x) for j, x in zip(jobs, res)]
    return chk.finish(moments, sum(x[1] for x in res), 'different contents of the file left behind', at_system_calls=sum(x[2] for x in res), cases=len(cases))
