"""Checks of the program as a whole: robustness, purity, command line, cost,
build and environment independence, interactive use."""

import ctypes
import fcntl
import itertools
import json
import mmap
import os
import pty
import re
import resource
import select
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import threading
import time
import tty
from concurrent.futures import ThreadPoolExecutor

import notation as N
import parsing
import vlib
from outputs import corpus
from vlib import HarnessError, MonStats, build, cli, run, run_mon

NOT = 'trpws'
STRUCT = {'list': [], 'json': ['-j'], 'group': ['-g']}


def pool(f, jobs):
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        return list(ex.map(f, jobs))


def dic_arg(b):
    return '-d' + os.path.join(b, 'data', 'except.dic')


# ----------------------------------------------------------------- C01 no crash

def valid(bs):
    try:
        bs.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def surely_invalid(bs):
    """Broken in a way on which every decoder agrees: a byte that never occurs,
    or a sequence cut short or a stray continuation byte."""
    if re.search(rb'[\xf8-\xff]', bs):
        return True
    i = 0
    while i < len(bs):
        c = bs[i]
        n = 1 if c < 0x80 else 2 if 0xc2 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf5 else 0
        if n == 0:
            return 0x80 <= c < 0xc0
        for k in range(1, n):
            if i + k >= len(bs) or not 0x80 <= bs[i + k] < 0xc0:
                return True
        i += n
    return False


def fuzz_word(r, real):
    x = r.random()
    if x < .2 and real:
        w = r.choice(real)
    elif x < .4:
        w = vlib.gen_word(r, r.choice([1, 1, 2]))
    elif x < .55:
        w = vlib.mutate(r, vlib.gen_word(r, r.choice([1, 2])))
    elif x < .65:
        w = ''.join(r.choice(vlib.MIXED) for _ in range(r.randint(0, 7)))
    elif x < .75:
        w = vlib.mixed_text(r, real)
    elif x < .8:
        w = ''.join(chr(r.choice([r.randrange(1, 0x80), r.randrange(0xe00, 0xe80), r.randrange(0xa0, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randint(1, 8)))
    else:
        b = bytearray((vlib.gen_word(r, 1) if r.random() < .7 else r.choice(['กา', 'a', '😀', 'é', ''])).encode())
        for _ in range(r.randint(1, 3)):
            y = r.random()
            i = r.randrange(len(b) + 1)
            if y < .4 and b:
                del b[r.randrange(len(b))]
            elif y < .7:
                b.insert(i, r.choice([0x80, 0xbf, 0xff, 0xc0, 0xe0, 0xf0, 0xf4, 0xfe, r.randrange(256)]))
            elif b:
                b[r.randrange(len(b))] = r.randrange(256)
        return bytes(b).replace(b'\n', b'')[:60]
    return w[:20].encode('utf-8', 'ignore').replace(b'\n', b'')


def judge_stream(chk, args, words, rr, nouts, js):
    """Every echo present, valid words answered, invalid ones reported."""
    out, pos, reports = rr.out, 0, 0
    for i, w in enumerate(words):
        head = w + b':\n'
        if out[pos:pos + len(head)] != head:
            return i, 'not echoed or earlier words damaged the stream'
        pos += len(head)
        if not valid(w):
            if surely_invalid(w):
                reports += 1
                continue
            return None        # undecided from here on
        for _ in range(nouts):
            if js:
                e = out.find(b'\n', pos)
                if e < 0 or out[pos:pos + 1] != b'[':
                    return i, 'no answer'
                pos = e + 1
            else:
                while True:
                    e = out.find(b'\n', pos)
                    if e < 0:
                        return i, 'no answer'
                    line, pos = out[pos:e], e + 1
                    if not line:
                        break
    if pos != len(out):
        return len(words) - 1, 'extra output'
    n = rr.err.count(b'\n')
    if n < reports:
        return next(i for i, w in enumerate(words) if not valid(w)), 'invalid UTF-8 not reported'
    if reports == 0 and rr.err:
        return 0, 'complaint about valid input: %r' % rr.err[:120]
    return None


def c01(chk):
    b = build('san', ('mon',))
    r, real = chk.rng, vlib.real_words()
    st = MonStats()
    # the parser: every short string, and long texts
    mixed = parsing.alpha_file(chk, vlib.MIXED)
    for n in range(0, 3):
        run_mon(chk, b, ['--cover', '--enum', str(n), '--alpha', mixed], stats=st)
    small = parsing.alpha_file(chk, list('กขงนรวหอะาิ็่้์ัเไฤๅ.ๆ a'), 'small')
    run_mon(chk, b, ['--cover', '--enum', '3', '--alpha', small], stats=st)
    if chk.thorough:
        run_mon(chk, b, ['--cover', '--enum', '3', '--alpha', mixed], stats=st)
        run_mon(chk, b, ['--cover', '--enum', '4', '--alpha', small], stats=st, timeout=700)
    ws = parsing.random_words(chk, chk.n(5000, 50000)) + parsing.texts(chk, chk.n(3000, 30000))
    ws += [''.join(vlib.mixed_text(r, real) for _ in range(r.randint(5, 20))) for _ in range(chk.n(150, 1500))]
    run_mon(chk, b, ['--cover'], ws, st)
    run_mon(chk, b, ['--cover', '--break'], ws, st)
    if parsing.dict_ok(b):
        dic = ['--dict', os.path.join(b, 'data', 'except.dic'), os.path.join(b, 'data', 'except.tsv')]
        keys = list(vlib.shipped_dict())
        run_mon(chk, b, ['--cover'] + dic, [vlib.mixed_text(r, keys) for _ in range(chk.n(4000, 40000))], st)
    # long plain text and long texts, printed in full
    thai = ['ไป', 'แม', 'ใจ', 'เก', 'โต']      # read in one way however joined
    longs = ['x' * chk.n(70000, 300000), 'é' * 5000, '😀' * 3000, '์' * 3000, '"\\' * 4000, 'ก.' * 300, 'กา ' * 200, ' ' * 2000, '.' * 400, '\x01' * 500]
    longs += [''.join(r.choice(thai) for _ in range(r.choice([50, 200, 300]))) for _ in range(chk.n(6, 30))]
    longs += [''.join(r.choice(thai + [' x ', '12', ' ']) for _ in range(r.choice([50, 200]))) for _ in range(chk.n(6, 30))]
    ljobs = [(m + [dic_arg(b)], w) for w in longs for m in (['-w'], ['-n', '-j', '-t', '-r'], ['-g', '-p', '-s'], ['-n', '-r'])]
    for (m, w), rr in zip(ljobs, pool(lambda j: cli(b, j[0], [j[1]], timeout=300), ljobs)):
        nouts = len([a for a in m if a[1] in NOT])
        if rr.timed_out:
            chk.violation('hang', {'args': m[:-1], 'word': w[:20], 'length': len(w)}, 'no end with %s on %d characters %r...' % (m[:-1], len(w), w[:10]))
        elif rr.crash() or rr.rc:
            chk.violation('crash', {'args': m[:-1], 'word': w[:20], 'length': len(w)}, '%d characters %r... with %s: %s' % (len(w), w[:10], m[:-1], rr.crash() or rr.rc))
        else:
            bad = judge_stream(chk, m, [w.encode()], rr, nouts, '-j' in m or '-g' in m)
            if bad:
                chk.violation('stream', {'args': m[:-1], 'word': w[:20], 'length': len(w)}, '%d characters %r... with %s: %s' % (len(w), w[:10], m[:-1], bad[1]))
    # only crashes and hangs of the parser concern this check
    chk.viol = [v for v in chk.viol if v[0]['kind'] in ('crash', 'hang', 'stream')]

    # the program: bytes of any kind, all options
    jobs = []
    for i in range(chk.n(480, 4000)):
        words = [fuzz_word(r, real) for _ in range(r.choice([1, 5, 30]))]
        words = [w if r.random() < .97 else w[:3] + b'\0' + w[3:] for w in words]
        args = ['-' + c for c in r.sample(NOT, r.choice([1, 1, 2, 5]))] + r.choice([[], ['-j'], ['-g']])
        nouts = len([a for a in args if a[1] in NOT])
        if r.random() < .5:
            args.append('-n')
        args.append(r.choice([dic_arg(b), dic_arg(b), '-d/nonexistent/none.dic']))
        r.shuffle(args)
        jobs.append((args, words, nouts, r.random() < .3, r.random() < .2))
    chk.samples += [[a, repr(w[:2])] for a, w, _, _, _ in jobs[:6]]
    seen = {'valid': 0, 'invalid': 0, 'undecided': 0}

    def one(j):
        args, words, nouts, as_args, no_nl = j
        if as_args:
            words = [w.replace(b'\0', b'') for w in words if w and not w.startswith(b'-') and w != b'\0']
            if not words:
                return None
            return words, run([os.path.join(b, 'thpronun').encode()] + [a.encode() for a in args] + words, timeout=200)
        data = b''.join(w + b'\n' for w in words)
        if no_nl and words[-1]:
            data = data[:-1]
        return words, cli(b, args, stdin=data, timeout=200)
    for j, res in zip(jobs, pool(one, jobs)):
        if res is None:
            continue
        (args, _, nouts, as_args, _), (words, rr) = j, res
        js = '-j' in args or '-g' in args
        for w in words:
            seen['valid' if valid(w) else 'invalid' if surely_invalid(w) else 'undecided'] += 1
        if rr.timed_out:
            chk.violation('hang', {'args': args, 'words': [repr(w) for w in words]}, 'no end with %s' % args)
        elif rr.crash() or rr.rc != 0:
            pos = max(i for i, w in enumerate([b''] + words) if w + b':\n' in rr.out or i == 0)
            w = words[max(0, pos - 1)]
            chk.violation('crash', {'args': args, 'word': repr(w)}, 'on %r with %s: %s' % (w, args, rr.crash() or 'status %d %r' % (rr.rc, rr.err[-200:])))
        else:
            if '-d/nonexistent/none.dic' in args:
                rr.err = re.sub(rb'^[^\n]*ictionary[^\n]*\n', b'', rr.err, flags=re.M)
            bad = judge_stream(chk, args, words, rr, nouts, js)
            if bad:
                chk.violation('stream', {'args': args, 'word': repr(words[bad[0]])}, '%r with %s: %s' % (words[bad[0]], args, bad[1]))
    if not chk.viol and min(seen['valid'], seen['invalid']) < 100:
        raise HarnessError('too few words: %s' % seen)
    s = st.stat
    return chk.finish(s.get('words', 0) + sum(seen.values()), len(st.shapes) + len({w for _, ws_, _, _, _ in jobs for w in ws_}),
                      'distinct graphs built under the sanitizers plus distinct byte strings given to the program',
                      parser_words=s.get('words', 0), program_runs=len(jobs), long_texts=len(ljobs), program_words=seen)


# ------------------------------------------------------------------- C14 purity

def short_words(chk, n, maxlen=14):
    return [w for w in corpus(chk, n * 2, awkward=False) if len(w) <= maxlen and '\r' not in w][:n]


def answers(b, args, words, **kw):
    """Lone answer of every distinct word: one process each."""
    ws = sorted(set(words))
    return dict(zip(ws, pool(lambda w: run([os.path.join(b, 'thpronun')] + args + [w], **kw), ws)))


def session_parts(out, seq, lone, nouts, js):
    """First word of a session that is not answered as before in it, or, where
    known, as when asked alone."""
    pos, seen = 0, {w: r.out for w, r in lone.items()}
    for w in seq:
        start = pos
        head = w.encode() + b':\n'
        if not out.startswith(head, pos):
            return w, 'not echoed at its turn in a long session'
        pos += len(head)
        for _ in range(nouts):
            if js:
                pos = out.find(b'\n', pos) + 1
            elif out.startswith(b'\n', pos):
                pos += 1
            else:
                pos = out.find(b'\n\n', pos) + 2
        if pos <= start + len(head):
            return w, 'not answered in a long session'
        if out[start:pos] != seen.setdefault(w, out[start:pos]):
            return w, 'answered differently in a long session'
    return None if pos == len(out) else (seq[-1], 'extra output at the end of a long session')


def c14(chk):
    t = build('tsan', ('conc',), cli=False)
    b = build('rel', ('conc',))
    r = chk.rng
    st = MonStats()
    words = short_words(chk, chk.n(260, 700), 12)
    keys = [k for k in vlib.shipped_dict() if len(k) <= 12]
    words += r.sample(keys, min(len(keys), 40))
    # related words: prefixes and extensions of one another
    for w in r.sample(words, 60):
        words.append(w[:max(1, len(w) // 2)])
        words.append((w + 'กา')[:14])
    # words easily mistaken for one another: same length and beginning or end, same
    # letters in another order, asked one after the other
    twins = []
    short = [w for w in vlib.real_words() if 2 <= len(w) <= 5] or ['กา', 'นา', 'ไป', 'กิน', 'ข้าว', 'มา', 'เขา']
    for _ in range(chk.n(90, 220)):
        p, a, c = r.choice(short), r.choice(short), r.choice(short)
        d = r.choice(short) + r.choice(short)
        x = a + c
        twins.append([p + x, p + c + a, c + a + p, (p + d)[:len(p + x)], (d + x)[-len(p + x):], p + x])
    words = [w for w in dict.fromkeys(words) if w]
    data = ''.join(w + '\n' for w in words + [w for g in twins[:15] for w in g]).encode()
    dic = os.path.join(t, 'data', 'except.dic')
    jobs = []
    for i in range(chk.n(4, 12)):
        d = [dic] if i % 2 == 0 and parsing.dict_ok(t) else []
        jobs.append(('tsan', t, [str(r.choice([2, 3, 4, 8])), '2', str(chk.seed + i)] + d))
        jobs.append(('rel', b, ['8', '6', str(chk.seed * 31 + i)] + d))
    for kind, bd, args in jobs:
        rr = run([os.path.join(bd, 'conc')] + args, stdin=data, timeout=300)
        done = st.add(rr.out)
        if rr.timed_out:
            chk.violation('hang', {'args': args[:2]}, 'concurrent readers do not end')
        elif rr.crash():
            txt = rr.err.decode('utf-8', 'replace')
            chk.violation('race' if 'ThreadSanitizer' in txt else 'crash', {'threads': args[0], 'build': kind},
                          'readers sharing a parser: %s' % rr.crash())
        elif rr.rc or not done:
            raise HarnessError('conc failed rc=%d: %r' % (rr.rc, rr.err[-500:]))
    for kind, w, d in st.viol:
        chk.violation(kind, {'word': w}, '%s: %r: %s' % (kind, w, d))
    # the program: any sequence of words gives each word's lone answer
    seqs = 0
    pw = r.sample(words, min(len(words), chk.n(150, 600)))
    for args in (['-w', '-t', dic_arg(b)], ['-g', '-r', '-n', dic_arg(b)], ['-j', '-w', '-d/nonexistent/none.dic'], ['-n', '-w', dic_arg(b)]):
        lone = answers(b, args, pw + [w for g in twins for w in g])
        bad = [w for w, rr in lone.items() if rr.rc != 0 or rr.timed_out]
        if bad:
            chk.violation('crash', {'word': bad[0], 'args': args[:-1]}, 'lone run on %r fails' % bad[0])
            continue
        for i in range(chk.n(16, 40)):
            seq = [r.choice(pw) for _ in range(r.choice([2, 5, 50, 300]))]
            if i % 4 == 1:
                seq = [w for g in r.sample(twins, len(twins) // 3) for w in g]
            if i % 3 == 0:
                seq = [w for w in seq for _ in range(2)]
            rr = cli(b, args, seq, timeout=200)
            seqs += len(seq)
            want = b''.join(lone[w].out for w in seq)
            if rr.out != want:
                got, k = rr.out, 0
                for w in seq:
                    if got[:len(lone[w].out)] != lone[w].out:
                        break
                    got, k = got[len(lone[w].out):], k + 1
                chk.violation('history', {'word': seq[min(k, len(seq) - 1)], 'args': args[:-1]},
                              'answer to word %d (%r) of a session differs from its lone answer' % (k, seq[min(k, len(seq) - 1)]))
        # one long session: every word comes back after thousands of others
        other = short_words(chk, chk.n(3000, 9000), 9)
        tiny = [r.choice(['กา', 'มา', 'ไป', 'ก.', 'x', 'นะ']) for _ in range(chk.n(23000, 70000))]
        seq = pw + other + pw + other[::-1] + pw + tiny + pw
        rr = cli(b, args, seq, timeout=300)
        seqs += len(seq)
        bad = session_parts(rr.out, seq, lone, sum(a[1] in NOT for a in args), '-j' in args or '-g' in args)
        if bad:
            chk.violation('history', {'word': bad[0], 'args': args[:-1], 'after': 'long session'}, '%r %s' % bad)
    s = st.stat
    chk.samples += words[:8]
    if not chk.viol and s.get('thread-reads', 0) < 1000:
        raise HarnessError('too few concurrent reads')
    return chk.finish(s.get('thread-reads', 0) + s.get('sequence-reads', 0) + seqs, len(words) * len(jobs),
                      'distinct (word, thread schedule or history) pairs',
                      thread_reads=s.get('thread-reads', 0), sequence_reads=s.get('sequence-reads', 0), session_words=seqs,
                      words=len(words), race_detector_runs=len([j for j in jobs if j[0] == 'tsan']))


# ------------------------------------------------------------- C15 command line

def rawlist(b, words, brk, dic):
    args = (['--break'] if brk else []) + (['--dict', dic] if dic else [])
    rr = run([os.path.join(b, 'rawlist')] + args, stdin=''.join(w + '\n' for w in words).encode(), timeout=200)
    if rr.rc or not rr.out.endswith(b'DONE\n'):
        raise HarnessError('rawlist failed: %s %r' % (rr.crash(), rr.err[-300:]))
    res = {}
    for rec in rr.out.decode().split('\x1d')[:-1]:
        w, _, t = rec.partition('\x1e')
        res[w] = [l.split('\x1f') for l in t.split('\n') if l]
    return res


def c15(chk):
    b = build('rel', ('rawlist',))
    r = chk.rng
    dic = os.path.join(b, 'data', 'except.dic')
    keys = vlib.shipped_dict()
    words = ['กา', 'ตากลม', 'เพลา', 'ไม่มี', 'x', 'ก.ข.', 'กา นา', 'ฤฤ', 'สระ', 'มาก-มาย', '"\\']
    words += [k for k in sorted(keys) if len(k) < 8][:3] + ['คนกลาง', 'วันนี้']
    words += [' กา', 'กา ', 'กา\t', '\tมา', 'กา\r', ' ', 'กา  นา ', '', '#กา', 'กา,นา', "'กา'", '@กา', 'กา=', '+', '%s']
    words = [w for w in dict.fromkeys(words)]
    my = parsing.make_dict(chk, b, {'กา': 'g_O_4@2', 'นา': 'm_i_0@2;s_u_2@2', 'ตา': 'f_Et1@2'}, 'mine')
    if not my:
        raise HarnessError('cannot compile a dictionary')
    dicts = {'default': ([], dic), 'given': (['-d' + dic], dic), 'other': (['-d' + my[0]], my[0]), 'missing': (['-d/nonexistent/none.dic'], None)}

    # what each word must give, by notation, segmentation and dictionary
    raws = {(brk, dn): rawlist(b, words, brk, d[1]) for brk in (True, False) for dn, d in dicts.items()}
    base = {}

    def expect(w, c, s, brk, dn):
        """Bytes of one output of one word.  Plain lists and flat JSON come from
        the library's readings; grouped JSON from a lone run, once per case."""
        k = (w, c, s, brk, dn)
        if k not in base:
            rd = raws[brk, dn][w]
            if s == 'list':
                base[k] = ''.join(N.line(t, c) + '\n' for t in rd).encode() + b'\n'
            else:
                rr = run([os.path.join(b, 'thpronun'), '-' + c] + STRUCT[s] + ([] if brk else ['-n']) + dicts[dn][0] + [w], timeout=60)
                head = w.encode() + b':\n'
                base[k] = rr.out[len(head):] if rr.rc == 0 and rr.out.startswith(head) else None
                if s == 'json' and base[k] is not None:
                    # the notation must be the one asked for
                    try:
                        got = json.loads(base[k].decode())
                    except ValueError:
                        got = None
                    want = [[N.render(t, c) if N.parse_raw(t) else t for t in x] for x in rd]
                    if c == 'w':
                        want = rd
                    if got != want:
                        chk.violation('notation', {'word': w, 'notation': c}, '-%s -j on %r gives %r, readings are %r' % (c, w, base[k][:200], rd[:3]))
        return base[k]

    def full(ws, ns, s, brk, dn):
        out = b''
        for w in ws:
            out += w.encode() + b':\n'
            for c in ns:
                e = expect(w, c, s, brk, dn)
                if e is None:
                    return None
                out += e
        return out

    jobs = []

    def job(ws, ns, s, brk, dn, chan, order=None):
        opts = ['-' + c for c in ns]
        gen = list(STRUCT[s]) + ([] if brk else ['-n']) + dicts[dn][0]
        if s == 'group' and r.random() < .3:
            gen.append('-j')
        if r.random() < .1:
            gen = gen + gen              # repeated
        # notations and words keep their order, everything is interleaved
        lanes = [opts, [[g] for g in gen] and gen, ws if chan == 'args' else []]
        r.shuffle(gen)
        lanes = [list(l) for l in (opts, gen, ws if chan == 'args' else [])]
        if order == 'first':
            argv = gen + opts + lanes[2]
        elif order == 'last':
            argv = lanes[2] + opts + gen
        else:
            argv = []
            while any(lanes):
                l = r.choice([l for l in lanes if l])
                argv.append(l.pop(0))
        jobs.append((argv, ws, list(ns) or list('trp'), s, brk, dn, chan))
    structs = list(STRUCT)
    for k in range(0, 4):
        for ns in itertools.product(NOT, repeat=k):
            if k == 3 and not chk.thorough and r.random() < .4:
                continue
            for s in structs:
                ws = r.sample(words, r.choice([1, 1, 2, 3]))
                job(ws, ns, s, r.random() < .5, r.choice(list(dicts)), r.choice(['args', 'args', 'stdin']))
    for s in structs:
        for brk in (True, False):
            for dn in dicts:
                for chan in ('args', 'stdin'):
                    for order in ('first', 'last', None):
                        job(r.sample(words, 3), r.choice(['', 'w', 'tr', 'ps']), s, brk, dn, chan, order)
    for _ in range(chk.n(800, 6000)):
        job([r.choice(words) for _ in range(r.choice([1, 2, 4, 8]))], [r.choice(NOT) for _ in range(r.choice([0, 1, 2, 3, 5, 7]))],
            r.choice(structs), r.random() < .5, r.choice(list(dicts)), r.choice(['args', 'stdin']))
    # great numbers of words and of options
    short = [w for w in ('กา', 'x', 'สระ', 'ไม่มี', '+', ' ') if w in words]
    for n in (140, 270, 1100, 5000, 34000, 66000):
        for chan in ('args', 'stdin'):
            job([r.choice(short) for _ in range(n + r.randrange(30))], 'w' if n > 5000 else r.choice(['w', 'ts']), 'list', False, r.choice(list(dicts)), chan)
    for n in (140, 270, 1100, 3000):
        job(r.sample(words, 2), [r.choice(NOT) for _ in range(n)], r.choice(structs), False, r.choice(list(dicts)), r.choice(['args', 'stdin']))
    expected = [full(j[1], j[2], j[3], j[4], j[5]) for j in jobs]

    def one(j):
        argv, ws, ns, s, brk, dn, chan = j
        if chan == 'stdin':
            data = '\n'.join(ws).encode()
            if len(argv) % 2 or not ws[-1]:
                data += b'\n'
        else:
            data = 'มา\nนี่\n'.encode()      # must not be read
        return run([os.path.join(b, 'thpronun')] + argv, stdin=data, timeout=60)
    for j, want, rr in zip(jobs, expected, pool(one, jobs)):
        argv, ws, ns, s, brk, dn, chan = j
        if want is None:
            continue
        key = {'argv': [a if not a.startswith('-d') else '-d' + dn for a in argv], 'channel': chan}
        if rr.timed_out or rr.crash():
            chk.violation('crash', key, 'program with %s: %s' % (key, rr.crash() or 'does not end'))
        elif rr.out != want:
            chk.violation('output', key, 'with %s (words by %s) the output is not that of its options' % (key['argv'], chan))
        elif rr.rc != 0:
            chk.violation('status', key, 'ordinary run %s ends with status %d' % (key['argv'], rr.rc))
        elif (dn == 'missing') != bool(rr.err):
            chk.violation('stderr', key, 'run %s says on standard error: %r' % (key['argv'], rr.err[:150]))

    # options that end the program
    enders = [('--help', 'usage'), ('-h', 'usage'), ('--version', 'version'), ('-V', 'version'), ('-d', 'error'),
              ('--nonsense', 'error'), ('-x', 'error'), ('--', 'error'), ('-', 'error'), ('-Z', 'error'), ('--helpx', 'error'), ('--versio', 'error'),
              ('--versions', 'error'), ('--version=1', 'error'), ('--help ', 'error'), ('--help=', 'error'), ('--Help', 'error'), ('--VERSION', 'error'),
              ('---', 'error'), ('--h', 'error'),
              ('-1', 'error'), ('-D', 'error'), ('-N', 'error'), ('-J', 'error'), ('-R', 'error')]
    ejobs = []
    for opt, kind in enders:
        for _ in range(chk.n(14, 60)):
            others = [r.choice(['-' + c for c in NOT] + ['-n', '-j', '-g', '-d' + dic]) for _ in range(r.choice([0, 0, 1, 2, 4]))]
            ws = r.sample(words, r.choice([0, 1, 2]))
            argv = others + ws
            r.shuffle(argv)
            argv.insert(r.randint(0, len(argv)), opt)
            ejobs.append((opt, kind, argv, words))
    for (opt, kind, argv, ws), rr in zip(ejobs, pool(lambda j: run([os.path.join(b, 'thpronun')] + j[2], stdin='กา\nมา\n'.encode(), timeout=60), ejobs)):
        key = {'argv': [a if not a.startswith('-d/') else '-dDIC' for a in argv]}
        if rr.timed_out or rr.crash():
            chk.violation('crash', key, 'program with %s: %s' % (argv, rr.crash() or 'does not end'))
            continue
        if rr.rc == 0:
            chk.violation('status', key, '%s ends with success' % argv)
        if any(w.encode() + b':\n' in rr.out for w in words if w.strip(' +')):
            chk.violation('processed', key, '%s still processes words' % argv)
        low = rr.out.lower()
        if kind == 'usage' and b'usage' not in low:
            chk.violation('message', key, '%s prints no help' % argv)
        elif kind == 'version' and (b'9.9.verif' not in rr.out or b'usage' in low):
            chk.violation('message', key, '%s prints no version' % argv)
        elif kind == 'error' and not rr.err:
            chk.violation('message', key, '%s gives no error message' % argv)
        elif kind in ('usage', 'version') and rr.err:
            chk.violation('message', key, '%s complains: %r' % (argv, rr.err[:100]))
    # long words: the same as short ones, but for the run of letters and the places
    edge = 0
    for n in (300, 1100, 5000, 33000, 70000, 125000, 300000, 1100000):
        n += r.randrange(200)
        for head, tail in (('', ' กา'), ('กา ', 'กา')):
            for args in (['-w'], ['-n', '-t'], ['-n', '-j', '-r']):
                lone = run([os.path.join(b, 'thpronun'), '-d' + dic] + args, stdin=(head + 'x' * 7777 + tail + '\n').encode(), timeout=60)
                text = head + 'x' * n + tail
                if lone.rc or lone.out.count(b'x' * 7777) != 2:
                    continue
                want = lone.out.replace(b'x' * 7777, b'x' * n)
                if '-w' in args:
                    want = re.sub(rb'@(77\d\d|78\d\d)', lambda m: b'@%d' % (int(m.group(1)) - 7777 + n), want)
                for chan in ('args', 'stdin'):
                    if chan == 'args' and n > 120000:
                        continue
                    rr = run([os.path.join(b, 'thpronun'), '-d' + dic] + args + ([text] if chan == 'args' else []), stdin=b'' if chan == 'args' else text.encode() + b'\n', timeout=120)
                    edge += 1
                    if rr.timed_out:
                        continue
                    if rr.rc or rr.crash() or rr.out != want:
                        chk.violation('long', {'length': n, 'args': args, 'channel': chan}, 'a word of %d letters (%s, by %s) is not answered like a short one: status %d' % (n, args, chan, rr.rc))
    # standard input at its edges
    for data, ws in ((b'', []), (b'\n', ['']), (b'\n\n', ['', '']), ('กา'.encode(), ['กา']), ('กา\n\nx'.encode(), ['กา', '', 'x']), ('กา\n'.encode() * 50, ['กา'] * 50)):
        for args in ([], ['-w'], ['-j', '-t'], ['-n', '-g', '-r']):
            rr = run([os.path.join(b, 'thpronun')] + args + ['-d' + dic], stdin=data, timeout=60)
            edge += 1
            n = len([a for a in args if a[1] in NOT]) or 3
            parse = vlib.parse_json_output if '-j' in args or '-g' in args else vlib.parse_list_output
            p = parse(rr.out, ws, n)
            if rr.rc or rr.crash() or p is None:
                chk.violation('stdin', {'data': repr(data), 'args': args}, 'standard input %r with %s: status %d, output %r' % (data[:30], args, rr.rc, rr.out[:80]))
    chk.samples += [j[0] for j in jobs[:3]] + [j[2] for j in ejobs[:3]]
    return chk.finish(len(jobs) + len(ejobs) + edge, len({(tuple(j[2]), j[3], j[4], j[5], j[6]) for j in jobs}) + len({tuple(j[2]) for j in ejobs}),
                      'distinct (notations, structure, segmentation, dictionary, channel) requests plus distinct ending command lines',
                      ordinary_runs=len(jobs), ending_runs=len(ejobs), stdin_edges=edge, expectations=len(base))


# --------------------------------------------------------------------- C16 cost

def c16(chk):
    b = build('steps', ('cost',), cli=False)
    r, real = chk.rng, vlib.real_words()
    limit = 3000000000
    reps = (5, 10, 20, 40)
    units = ['ก', 'กน', 'กร', 'กรรม', 'สมาคม', 'ขนม', 'เกลา', 'ตลาด', 'สระ', 'อนุ', 'มหา', 'ราชการ', 'ก.', 'กา ', 'ฤทธิ', 'สวย', 'เพลา',
             'กลม', 'สาร์', 'พล', 'อร', 'รร', 'วว', 'หน', 'อย', 'เส', 'แหน', 'โกร', 'ไทร', 'กย', 'ทร', 'สน', 'ปฏิ', 'ภูมิ', 'เสมอ', 'aก', 'ก ', 'นวล', 'กวน']
    units += [vlib.gen_word(r, r.choice([1, 2]))[:8] for _ in range(chk.n(60, 400))]
    units += [r.choice(real)[:10] for _ in range(chk.n(60, 400)) if real]
    units += [''.join(r.choice('กขคงจดตนบปพมยรลวสหอ') for _ in range(r.randint(2, 6))) for _ in range(chk.n(50, 300))]
    units += [vlib.mixed_text(r, real)[:12] for _ in range(chk.n(30, 200))]
    units = [u for u in dict.fromkeys(units) if u and '\n' not in u and '\t' not in u]
    longs = []
    for _ in range(chk.n(60, 400)):
        t = ''
        while len(t) < 300:
            t += r.choice([vlib.gen_word(r), r.choice(real or ['กา']), vlib.mixed_text(r, real), r.choice(vlib.CONS)])
        longs.append(t[:r.randint(150, 400)].replace('\n', '').replace('\t', ''))
    dic = ['--dict', os.path.join(b, 'data', 'except.dic')] if parsing.dict_ok(b) else []
    keys = list(vlib.shipped_dict())
    modes = [([], units, longs), (['--break'], units[::3], longs[::3])]
    if dic:
        modes.append((dic, units[::4] + r.sample(keys, min(25, len(keys))), longs[::4]))
        modes.append((dic + ['--break'], units[::7] + r.sample(keys, min(10, len(keys))), longs[::7]))
    # entries with many pronunciations, nested and overlapping
    pool_units = ['เก', 'กา', 'ขนม', 'นม', 'แม', 'ตากลม', 'สระ', 'มา']
    ents = {u * n: ';'.join(dict.fromkeys(parsing.rand_pron(r, len(u) * n) for _ in range(4))) for u in pool_units for n in (1, 2, 3)}
    ents.update({u + v: ';'.join(dict.fromkeys(parsing.rand_pron(r, len(u + v)) for _ in range(3))) for u in pool_units for v in pool_units if r.random() < .4})
    made = parsing.make_dict(chk, b, ents, 'many')
    if made:
        us = pool_units + [u + v for u in pool_units for v in pool_units]
        modes.append((['--dict', made[0]], us, [''.join(r.choice(us) for _ in range(60)) for _ in range(chk.n(12, 60))]))
        modes.append((['--dict', made[0], '--break'], us[::5], []))
    # the same, far into a text: what comes before must not make it harder
    for args, us, _ in modes[:]:
        pre = 'x' * r.choice([300, 600, 1100]) + ' '
        modes.append((args, [], [pre + u * r.choice(reps) for u in us[::6]]))
    jobs = []
    for args, us, ls in modes:
        for i in range(0, len(us), 6):
            jobs.append((args, [u * n for u in us[i:i + 6] for n in reps]))
        for i in range(0, len(ls), 6):
            jobs.append((args, [l[:k] for l in ls[i:i + 6] for k in (len(l) // 4, len(l) // 2, len(l))]))

    exploded = []

    def one(j):
        args, ws = j
        if exploded:
            return None
        rr = run([os.path.join(b, 'cost'), '--limit', str(limit)] + args, stdin=''.join(w + '\n' for w in ws).encode(), timeout=400, mem=8 << 30)
        if rr.rc:
            exploded.append(j)
        return rr
    meas, worst, nmeas = {}, {'steps': 0.0, 'memory': 0.0, 'steps_per_cube': 0.0}, 0
    for (args, ws), rr in zip(jobs, pool(one, jobs)):
        if rr is None:
            continue
        tag = ' '.join(a if a.startswith('--') else os.path.basename(a) for a in args)
        got = [l.split('\t') for l in rr.out.decode('utf-8', 'replace').split('\n') if l.startswith(('C\t', 'L\t'))]
        nmeas += len(got)
        for l in got:
            if l[0] == 'L':
                chk.violation('explosion', {'word': l[1], 'mode': tag}, 'reading %r (%d letters) takes more than %d steps' % (l[1], len(l[1]), limit))
            else:
                meas[tag, l[1]] = (int(l[2]), int(l[4]))
        if any(l[0] == 'L' for l in got):
            continue
        if rr.timed_out:
            w = ws[min(len(got), len(ws) - 1)]
            chk.violation('hang', {'word': w, 'mode': tag}, 'reading %r (%d letters) does not end' % (w, len(w)))
        elif rr.crash() or b'bad_alloc' in rr.err:
            w = ws[min(len(got), len(ws) - 1)]
            chk.violation('crash', {'word': w, 'mode': tag}, 'reading %r (%d letters): %s' % (w, len(w), rr.crash()))
        elif rr.rc or not rr.out.endswith(b'DONE\n'):
            raise HarnessError('cost driver failed rc=%d %r' % (rr.rc, rr.err[-300:]))
        else:
            for a, c in zip(ws, ws[1:]):
                # the same text, twice as long
                if not (c.startswith(a) and len(c) in range(2 * len(a) - 1, 2 * len(a) + 4)) or len(a) < 30:
                    continue
                (s1, m1), (s2, m2) = meas[tag, a], meas[tag, c]
                rs, rm = s2 / max(s1, 20000), m2 / max(m1, 20000)
                worst['steps'] = max(worst['steps'], rs)
                worst['memory'] = max(worst['memory'], rm)
                # a prefix can be cheap by being unreadable: judge repeats by ratio, texts by bound
                if a * 2 == c:
                    if rs > 20:
                        chk.violation('growth', {'word': c, 'mode': tag}, 'doubling %r (%d letters) multiplies the work by %.1f' % (a, len(a), rs))
                    if rm > 14:
                        chk.violation('memory-growth', {'word': c, 'mode': tag}, 'doubling %r (%d letters) multiplies the memory by %.1f' % (a, len(a), rm))
            for w in ws:
                s, m = meas[tag, w]
                n = max(len(w), 20)
                worst['steps_per_cube'] = max(worst['steps_per_cube'], s / n ** 3)
                worst['memory_per_square'] = max(worst.get('memory_per_square', 0), m / n ** 2)
                if s > 800.0 * n ** 3:
                    chk.violation('work', {'word': w, 'mode': tag}, 'reading %r (%d letters) takes %d steps' % (w, len(w), s))
                if m > 20000.0 * n ** 2:
                    chk.violation('memory', {'word': w, 'mode': tag}, 'reading %r (%d letters) takes %d bytes' % (w, len(w), m))
    chk.samples += [[t, w[:20], len(w), m] for (t, w), m in list(meas.items())[:8]]
    if not meas and not chk.viol:
        raise HarnessError('nothing measured')
    worst['most_steps'] = max((s for s, _ in meas.values()), default=0)
    return chk.finish(nmeas, len(meas), 'distinct (mode, text) pairs measured in executed control-flow edges and peak heap bytes',
                      longest=max((len(w) for _, w in meas), default=0), largest_ratios_and_densities={k: round(v, 2) for k, v in worst.items()})


# ------------------------------------------------------- C19 builds, environments

LIBRARY_VARIABLES = re.compile('^(LIBTHAI_|GLIBC|MALLOC_|LD_|GCONV|LOCPATH|ASKSHIM)')


def asked(chk, b, args, words, cwd, home, env={}):
    """Environment variables and files the program asks for on its own."""
    shim = os.path.join(chk.scratch, 'askshim.so')
    if not os.path.exists(shim):
        rc, msg = vlib._run_cc(['gcc', '-O2', '-shared', '-fPIC', '-w', os.path.join(vlib.VERIF, 'harness', 'askshim.c'), '-o', shim, '-ldl'])
        if rc:
            raise HarnessError('askshim: ' + msg)
    log = tempfile.mktemp(dir=chk.scratch)
    run([os.path.join(b, 'thpronun')] + args, stdin=''.join(w + '\n' for w in words).encode(), cwd=cwd, timeout=100,
        env=dict({'LD_PRELOAD': shim, 'ASKSHIM': log, 'HOME': home}, **env))
    if not os.path.exists(log):
        raise HarnessError('nothing noted by askshim')
    with open(log, errors='replace') as f:
        ls = {l.rstrip('\n') for l in f}
    return ({l[2:] for l in ls if l[0:2] == 'E ' and not LIBRARY_VARIABLES.match(l[2:])}, {l[2:] for l in ls if l[0:2] == 'F '})


def on_terminal(b, args):
    """What the program prints on a terminal, or None without one."""
    try:
        m, t = pty.openpty()
    except OSError:
        return None
    tty.setraw(t)
    p = subprocess.Popen([os.path.join(b, 'thpronun')] + args, stdin=subprocess.DEVNULL, stdout=t, stderr=subprocess.DEVNULL,
                         env=dict(os.environ, LC_ALL='C.UTF-8', TERM='xterm-256color'), start_new_session=True)
    os.close(t)
    out, end = b'', time.time() + 60
    while time.time() < end:
        if select.select([m], [], [], 1)[0]:
            try:
                d = os.read(m, 65536)
            except OSError:
                break
            if not d:
                break
            out += d
        elif p.poll() is not None:
            break
    os.close(m)
    if p.poll() is None:
        os.killpg(p.pid, signal.SIGKILL)
    return out, p.wait()

def c19(chk):
    r = chk.rng
    names = ['rel', 'ndebug', 'o0', 'o3', 'clang', 'san']
    if shutil.which('clang++') is None:
        names.remove('clang')
    bs = {n: build(n) for n in names}
    words = [w for w in corpus(chk, chk.n(5000, 30000)) if len(w) <= 18]
    mixes = [['-w'], ['-t', '-r', '-n'], ['-p', '-s'], ['-j', '-r', '-w'], ['-g', '-t', '-n'], ['-g', '-w'], ['-n', '-w', '-j'], []]
    dic = dic_arg(bs['rel'])
    size = 60
    jobs = [(m, words[i:i + size]) for k, i in enumerate(range(0, len(words), size)) for m in [mixes[k % len(mixes)], mixes[(k * 3 + 1) % len(mixes)]]]
    if not chk.thorough:
        # the sanitized and the unoptimised build are slow
        slow = set(range(0, len(jobs), 4))
    else:
        slow = set(range(len(jobs)))

    def one(t):
        n, k = t
        m, ws = jobs[k]
        return cli(bs[n], m + [dic], ws, timeout=300)
    ref = pool(one, [('rel', k) for k in range(len(jobs))])
    compared, nbytes = 0, sum(len(x.out) for x in ref)
    for n in names[1:]:
        ks = [k for k in range(len(jobs)) if n != 'san' or k in slow]
        for k, rr in zip(ks, pool(one, [(n, k) for k in ks])):
            m, ws = jobs[k]
            compared += len(ws)
            if rr.timed_out:
                chk.violation('hang', {'build': n, 'args': m, 'word': ws[0]}, 'build %s does not end with %s' % (n, m))
            elif (rr.out, rr.rc, rr.err) != (ref[k].out, ref[k].rc, ref[k].err):
                w = None
                if not chk.viol:      # one witness is enough
                    w = next((w for w in ws if cli(bs['rel'], m + [dic], [w], timeout=100).__dict__ != cli(bs[n], m + [dic], [w], timeout=100).__dict__), None)
                chk.violation('build', {'build': n, 'args': m, 'word': w}, 'builds rel and %s differ with %s on %r%s' % (n, m, w, ': ' + rr.crash() if rr.crash() else ''))
    # environments
    b = bs['rel']
    empty = os.path.join(chk.scratch, 'cwd')
    os.mkdir(empty)
    trap = os.path.join(chk.scratch, 'trap')
    os.makedirs(os.path.join(trap, 'data'))
    for f in ('except.dic', 'data/except.dic', 'except.tsv', 'thbrk.tri', 'thpronun'):
        with open(os.path.join(trap, f), 'wb') as fh:
            fh.write(b'not a dictionary')
    envs = [('C locale', {'LC_ALL': 'C', 'LANG': None}, None), ('POSIX', {'LC_ALL': 'POSIX', 'LANG': 'POSIX'}, None),
            ('no locale', {'LC_ALL': None, 'LANG': None, 'LC_CTYPE': None}, None), ('unknown locale', {'LC_ALL': 'xx_YY.bogus'}, None),
            ('Thai locale', {'LC_ALL': 'th_TH.UTF-8', 'LANGUAGE': 'th'}, None), ('Latin-1', {'LC_ALL': 'en_US.ISO-8859-1'}, None),
            ('Turkish', {'LC_ALL': 'tr_TR.UTF-8'}, None), ('root directory', {}, '/'), ('empty directory', {}, empty),
            ('directory with look-alikes', {}, trap), ('no environment', {k: None for k in os.environ}, None),
            ('heap filled', {'MALLOC_PERTURB_': '165'}, None), ('heap filled other', {'MALLOC_PERTURB_': '1'}, None),
            ('one arena', {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, None), ('columns', {'COLUMNS': '10', 'TERM': 'dumb', 'NO_COLOR': '1'}, None),
            ('odd variables', {'POSIXLY_CORRECT': '1', 'TZ': 'Asia/Bangkok', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'EXCEPT_DICT_DIR': trap, 'IFS': 'x'}, None)]
    ejobs = [(e, k) for e in envs for k in r.sample(range(len(jobs)), min(len(jobs), chk.n(8, 40)))]

    def env_run(t):
        (name, env, cwd), k = t
        m, ws = jobs[k]
        return cli(b, m + [dic], ws, env=env, cwd=cwd, timeout=300)
    for ((name, env, cwd), k), rr in zip(ejobs, pool(env_run, ejobs)):
        compared += len(jobs[k][1])
        if rr.timed_out or (rr.out, rr.rc, rr.err) != (ref[k].out, ref[k].rc, ref[k].err):
            chk.violation('environment', {'environment': name, 'args': jobs[k][0]}, 'output changes in environment %r with %s' % (name, jobs[k][0]))
    # the words as arguments under other locales (argument bytes are taken as they are)
    ajobs = [(e, w) for e in envs for w in r.sample(words, 6) if '\0' not in w]
    aref = answers(b, ['-w', '-j', dic], [w for _, w in ajobs])
    for (e, w), rr in zip(ajobs, pool(lambda t: run([os.path.join(b, 'thpronun'), '-w', '-j', dic, t[1]], env=t[0][1], cwd=t[0][2]), ajobs)):
        compared += 1
        if (rr.out, rr.rc, rr.err) != (aref[w].out, aref[w].rc, aref[w].err):
            chk.violation('environment', {'environment': e[0], 'word': w}, 'answer to %r changes in environment %r' % (w, e[0]))
    # whatever else the program asks for: variables set, files put where it looks
    home = os.path.join(chk.scratch, 'home')
    os.mkdir(home)
    look = os.path.join(chk.scratch, 'look')
    os.mkdir(look)
    sample = r.sample(words, 20) + ['กา', 'ไป', 'x', 'ตากลม']
    alien = parsing.make_dict(chk, b, {w: 's_u_2@%d' % len(w) for w in sample if w and all(vlib.is_token(c) and c != '.' for c in w)}, 'alien')
    probes = [['-w', '-t'], ['-j', '-r', dic], ['-g', '-n', '-p', '-s']]
    variables, files = set(), set()
    for m in probes:
        e, f = asked(chk, b, m, sample, look, home)
        variables |= e
        files |= f
    own = sorted(f for f in files if not os.path.isabs(f) or f.startswith((home, look)))
    for m in probes:
        want = cli(b, m, sample)
        for v in sorted(variables):
            for val in ('', '0', '1', 'th', trap, alien[0] if alien else 'x'):
                rr = cli(b, m, sample, env={v: val}, timeout=100)
                compared += len(sample)
                if (rr.out, rr.rc, rr.err) != (want.out, want.rc, want.err):
                    chk.violation('environment', {'variable': v, 'args': m[:-1]}, 'output changes with %s=%r and %s' % (v, val, m))
        # a variable may name a place where more is looked for
        for v in sorted(variables):
            place = os.path.join(chk.scratch, 'place')
            os.mkdir(place)
            for f in sorted(asked(chk, b, m, sample, look, home, {v: place})[1]):
                path = os.path.normpath(f)
                if not alien or not path.startswith(place + os.sep):
                    continue
                os.makedirs(os.path.dirname(path), exist_ok=True)
                shutil.copyfile(alien[0], path)
                rr = cli(b, m, sample, env={v: place}, timeout=100)
                compared += len(sample)
                if (rr.out, rr.rc, rr.err) != (want.out, want.rc, want.err):
                    chk.violation('environment', {'variable': v, 'args': m[:-1]}, 'output with %s changes with a file in the directory named by %s' % (m, v))
            shutil.rmtree(place)
        for f in own:
            path = os.path.normpath(os.path.join(look, f))
            if not path.startswith((home + os.sep, look + os.sep)):
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            for src in ([alien[0]] if alien else []) + [os.path.join(trap, 'except.dic')]:
                shutil.copyfile(src, path)
                rr = cli(b, m, sample, cwd=look, env={'HOME': home}, timeout=100)
                compared += len(sample)
                if (rr.out, rr.rc, rr.err) != (want.out, want.rc, want.err):
                    chk.violation('environment', {'file': f, 'args': m[:-1]}, 'output with %s changes when there is a file %s' % (m, f))
            os.unlink(path)
    for m in probes:
        t = on_terminal(b, m + sample[:8])
        if t is not None:
            want = run([os.path.join(b, 'thpronun')] + m + sample[:8])
            compared += 8
            if t != (want.out, want.rc):
                chk.violation('environment', {'terminal': True, 'args': m}, 'output with %s differs on a terminal' % m)
    # the same process again: nothing depends on addresses or time
    for k in range(0, len(jobs), max(1, len(jobs) // 10)):
        rr = one(('rel', k))
        compared += len(jobs[k][1])
        if rr.out != ref[k].out:
            chk.violation('unstable', {'args': jobs[k][0], 'word': jobs[k][1][0]}, 'two runs of one build differ with %s' % jobs[k][0])
    # uninitialised reads
    vg = 0
    if shutil.which('valgrind'):
        vjobs = [(m, r.sample(words, chk.n(25, 120))) for m in mixes]
        vb = bs['rel']

        def memcheck(j):
            m, ws = j
            return run(['valgrind', '--error-exitcode=99', '--quiet', '--leak-check=no', '--undef-value-errors=yes', os.path.join(vb, 'thpronun')] + m + [dic],
                       stdin=''.join(w + '\n' for w in ws).encode(), timeout=300, hang='ok')
        for (m, ws), rr in zip(vjobs, pool(memcheck, vjobs)):
            if rr.timed_out or (rr.rc not in (0, 99) and b'==' not in rr.err):
                continue                # inconclusive
            vg += len(ws)
            if rr.rc == 99:
                t = re.sub(r'==\d+== ?', '', rr.err.decode('utf-8', 'replace'))
                chk.violation('memcheck', {'args': m, 'first': t.split('\n')[0]}, 'memcheck with %s: %s' % (m, t[:300]))
        # the dictionary compiler too
        rr = run(['valgrind', '--error-exitcode=99', '--quiet', '--leak-check=no', os.path.join(vb, 'gen-lookup-dict'), os.path.join(vb, 'data', 'except.tsv'),
                  os.path.join(chk.scratch, 'vg.dic')], timeout=300, hang='ok')
        if rr.rc == 99:
            chk.violation('memcheck', {'args': 'compiler'}, 'memcheck on the compiler: %s' % rr.err[:300].decode('utf-8', 'replace'))
    chk.samples += words[:8]
    return chk.finish(compared + vg, len(set(words)), 'distinct words compared byte for byte over all builds',
                      builds=names, environments=[e[0] for e in envs], variables_asked=sorted(variables), files_asked=sorted(os.path.basename(f) for f in files), answers_compared=compared, reference_bytes=nbytes, memcheck_words=vg)


# ---------------------------------------------------------------- C23 streaming

class Session:
    """The program fed line by line through pipes."""

    def __init__(self, b, args, env=None):
        e = dict(os.environ, LC_ALL='C.UTF-8')
        e.update(env or {})
        self.p = subprocess.Popen([os.path.join(b, 'thpronun')] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, start_new_session=True, bufsize=0)
        self.buf = b''

    def send(self, data):
        self.p.stdin.write(data)

    def expect(self, n, timeout):
        """Read until n bytes have come; False if they do not."""
        end = time.time() + timeout
        while len(self.buf) < n:
            left = end - time.time()
            if left <= 0:
                return False
            if select.select([self.p.stdout], [], [], left)[0]:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    return False
                self.buf += d
        return True

    def take(self, n):
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def close(self):
        try:
            self.p.stdin.close()
            rest = self.p.stdout.read()
            self.p.wait(20)
            return self.buf + rest
        except (subprocess.TimeoutExpired, OSError):
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            return None


def c23(chk):
    b = build('rel', ('cost',))
    st = build('steps', ('cost',), cli=False)
    r = chk.rng
    shim = os.path.join(chk.scratch, 'memshim.so')
    rc, msg = vlib._run_cc(['gcc', '-O2', '-shared', '-fPIC', '-w', os.path.join(vlib.VERIF, 'harness', 'memshim.c'), '-o', shim])
    if rc:
        raise HarnessError('memshim: ' + msg)
    words = short_words(chk, chk.n(700, 3000), 13)
    words += [k for k in vlib.shipped_dict()][:20]
    opts = [['-w'], [], ['-j', '-t', '-r'], ['-g', '-w'], ['-n', '-t', '-p'], ['-n', '-g', '-s'], ['-n', '-w', '-r', '-t', '-p', '-s']]

    # sessions
    served = 0

    def session(job):
        args, ws, want = job
        for attempt in range(2):
            if failed:
                return None
            s = Session(b, args)
            k = None
            try:
                for i, w in enumerate(ws):
                    s.send(os.fsencode(w) + b'\n')
                    if not s.expect(len(want[i]), 25):
                        k = (i, 'not delivered while the next line is awaited')
                        break
                    if s.take(len(want[i])) != want[i]:
                        return (i, 'answer in a session differs')
            except BrokenPipeError:
                k = (i, 'program ended early')
            if k is None:
                rest = s.close()
                return None if rest == b'' else (len(ws) - 1, 'extra output at the end')
            s.close()
        failed.append(k)
        return k
    jobs, failed = [], []
    for args in opts:
        for _ in range(chk.n(2, 10)):
            ws = [r.choice(words) for _ in range(chk.n(60, 200))]
            # lines that are not UTF-8 are echoed and the session goes on
            ws = [w if r.random() < .96 else os.fsdecode(r.choice([b'\xff\xfe', b'\xe0\xb8', w.encode() + b'\xff'])) for w in ws]
            lone = answers(b, args + [dic_arg(b)], ws)
            if any(x.rc for x in lone.values()):
                chk.violation('crash', {'args': args}, 'a lone run fails with %s' % args)
                continue
            jobs.append((args + [dic_arg(b)], ws, [lone[w].out for w in ws]))
    for (args, ws, _), bad in zip(jobs, pool(session, jobs)):
        served += len(ws)
        if bad:
            chk.violation('stream', {'args': args[:-1], 'word': ws[bad[0]]}, 'word %d (%r) with %s: %s' % (bad[0], ws[bad[0]], args[:-1], bad[1]))

    if chk.viol:
        return chk.finish(max(1, served), max(1, len(set(words))), 'distinct words answered in interactive sessions')

    # memory of long sessions: the same words again and again, and ever new ones
    levels = []
    per = chk.n(600, 2000)
    fresh = corpus(chk, per * 6 * 2, awkward=False)
    fresh = [w for w in dict.fromkeys(fresh) if len(w) <= 13][:per * 6]
    per = len(fresh) // 6

    def memory(job):
        name, args, rounds = job
        path = tempfile.mktemp(dir=chk.scratch)
        with open(path, 'wb') as f:
            f.write(b'\0' * 64)
        s = Session(b, args, {'LD_PRELOAD': shim, 'MEMSHIM': path})
        got = []
        with open(path, 'rb') as f:
            m = mmap.mmap(f.fileno(), 64, prot=mmap.PROT_READ)
            mark = 'กา'.encode()
            for ws in rounds:
                s.send(b''.join(w.encode() + b'\n' for w in ws[:0]))
                for w in ws:
                    s.send(w.encode() + b'\n')
                    while select.select([s.p.stdout], [], [], 0)[0]:
                        d = os.read(s.p.stdout.fileno(), 65536)
                        if not d:
                            break
                # a last, known line tells when all is answered
                s.send(mark + b'\n\n')
                tail = b''
                end = time.time() + 120
                while time.time() < end and not (mark + b':\n' in tail and b'\n:\n' in tail[tail.rfind(mark + b':\n'):]):
                    if select.select([s.p.stdout], [], [], 1)[0]:
                        d = os.read(s.p.stdout.fileno(), 65536)
                        if not d:
                            break
                        tail = (tail + d)[-20000:]
                # quiescent: counters stop moving
                last, same = None, 0
                while same < 8 and time.time() < end + 20:
                    v = struct.unpack('4q', m[:32])
                    same = same + 1 if v == last else 0
                    last = v
                    time.sleep(.02)
                    while select.select([s.p.stdout], [], [], 0)[0]:
                        if not os.read(s.p.stdout.fileno(), 65536):
                            break
                if s.p.poll() is not None:
                    s.close()
                    return name, args, None
                got.append(last)
        s.close()
        return name, args, got
    mj = []
    for args in (['-w', '-t'], ['-n', '-j', '-r', '-p'], ['-g', '-w', '-s'], ['-n', '-r']):
        mj.append(('same words', args + [dic_arg(b)], [fresh[:per]] * 4))
        mj.append(('new words', args + [dic_arg(b)], [fresh[i * per:(i + 1) * per] for i in range(6)]))
    for name, args, got in pool(memory, mj):
        if got is None:
            chk.violation('crash', {'args': args[:-1], 'session': name}, 'a long session with %s ends early' % args[:-1])
            continue
        if not got[0][3] or got[0][2] < per:
            raise HarnessError('heap was not watched: %s' % (got[:1],))
        levels.append([name, args[:-1], [g[1] for g in got]])
        n = per * (len(got) - 1)
        grown, blocks = got[-1][1] - got[0][1], got[-1][0] - got[0][0]
        if grown > 8 * n or blocks > n / 8:
            # steady growth, not one late table
            steps = [y[1] - x[1] for x, y in zip(got, got[1:])]
            if sum(1 for d in steps if d > 0) >= len(steps) - 1:
                chk.violation('memory', {'args': args[:-1], 'session': name},
                              '%d more words (%s) with %s leave %d more bytes in %d more blocks' % (n, name, args[:-1], grown, blocks))
    # the library: every word's blocks are given back
    bal = 0
    keep = [w for w in words if len(w) <= 12][:chk.n(500, 2500)]
    data = ''.join(w + '\n' for w in keep).encode()
    for args in ([], ['--break'], ['--dict', os.path.join(st, 'data', 'except.dic')]):
        if '--dict' in args and not parsing.dict_ok(st):
            continue
        rr = run([os.path.join(st, 'cost')] + args + ['--balance', '2'], stdin=data, timeout=300)
        ms = MonStats()
        if rr.crash() or rr.timed_out:
            chk.violation('crash', {'args': args[:1]}, 'library session: %s' % (rr.crash() or 'does not end'))
            continue
        if not ms.add(rr.out):
            raise HarnessError('cost --balance failed rc=%d' % rr.rc)
        bal += ms.stat['balance-checked']
        if ms.stat['kept-bytes'] > 8 * ms.stat['balance-checked']:
            for kind, w, d in ms.viol[:3]:
                chk.violation(kind, {'word': w, 'args': args[:1]}, '%r: %s' % (w, d))
    chk.samples += words[:6] + levels[:3]
    return chk.finish(served + bal + sum(len(x) for _, _, rs in mj for x in rs), len(set(words)) + len(fresh),
                      'distinct words answered in interactive or watched sessions',
                      session_words=served, sessions=len(jobs), watched_levels=levels, library_balance_checks=bal)


# ------------------------------------------------------------- C29 formatters

def c29(chk):
    t = build('tsan', ('outconc',), cli=False)
    b = build('san', ('outconc',), cli=False)
    r, st = chk.rng, MonStats()
    words = short_words(chk, chk.n(300, 1500), 12) + ['', 'x', 'กา x', '"\\', 'ๆ', 'ก.ข.']
    words = list(dict.fromkeys(words))
    dic = os.path.join(t, 'data', 'except.dic')
    jobs = []
    for i in range(chk.n(6, 30)):
        d = [dic] if i % 2 and parsing.dict_ok(t) else []
        part = r.sample(words, min(len(words), 80))
        jobs.append(('tsan', t, [str(r.choice([2, 3, 4, 8])), '1', str(chk.seed + i)] + d, part))
        jobs.append(('san', b, ['4', '2', str(chk.seed * 31 + i)] + d, part))

    def one(j):
        return run([os.path.join(j[1], 'outconc')] + j[2], stdin=''.join(w + '\n' for w in j[3]).encode(), timeout=300)
    with ThreadPoolExecutor(2) as ex:
        for (kind, _, args, _), rr in zip(jobs, ex.map(one, jobs)):
            done = st.add(rr.out)
            if rr.timed_out:
                chk.violation('hang', {'args': args[:2]}, 'concurrent printing does not end')
            elif rr.crash():
                chk.violation('race' if 'ThreadSanitizer' in rr.crash() else 'crash', {'threads': args[0], 'build': kind},
                              'threads sharing formatters: %s' % rr.crash())
            elif rr.rc or not done:
                raise HarnessError('outconc failed rc=%d: %r' % (rr.rc, rr.err[-500:]))
    for kind, w, d in st.viol:
        chk.violation(kind, {'word': w}, '%s: %s: %s' % (kind, w, d))
    s = st.stat
    chk.samples += words[:8]
    if not chk.viol and (s.get('prints', 0) < 1000 or s.get('forms', 0) < 1000):
        raise HarnessError('too few outputs')
    return chk.finish(s.get('prints', 0) + s.get('forms', 0), sum(len(j[3]) for j in jobs), 'distinct (word, thread schedule) pairs',
                      concurrent_outputs=s.get('prints', 0), forms_compared=s.get('forms', 0), words=len(words),
                      race_detector_runs=sum(j[0] == 'tsan' for j in jobs))


# ------------------------------------------------------------------ C30 traces

def snapshot(root):
    """Everything under a directory, with content and times of change."""
    res = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            what = None
            if os.path.islink(p):
                what = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    what = f.read()
            res[os.path.relpath(p, root)] = (s.st_mode, s.st_nlink, s.st_mtime_ns if not os.path.isdir(p) else 0, what)
    return res


def my_children():
    res = set()
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    s = f.read().rpartition(')')[2].split()
            except OSError:
                continue
            if int(s[1]) == os.getpid() and s[0] != 'Z':
                res.add(int(d))
    return res


def c30(chk):
    b = build('rel', ())
    r, sd = chk.rng, chk.scratch
    # orphans of our children become our children
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    shim = os.path.join(sd, 'askshim.so')
    rc, msg = vlib._run_cc(['gcc', '-O2', '-shared', '-fPIC', '-w', os.path.join(vlib.VERIF, 'harness', 'askshim.c'), '-o', shim, '-ldl'])
    if rc:
        raise HarnessError('askshim: ' + msg)
    world = os.path.join(sd, 'world')
    dirs = {d: os.path.join(world, d) for d in ('here', 'home', 'tmp', 'lists', 'cache', 'config')}
    for d in dirs.values():
        os.makedirs(d)
    good = 'กา\tk_A_0@2\nขา\tc_A_4@2\nกาน\tk_An0@3\n'.encode()
    files = {'here/notes.txt': b'notes\n', 'here/except.dic': b'not a dictionary', 'home/.thpronunrc': b'-w\n', 'home/.profile': b'x\n',
             'lists/good.tsv': good, 'lists/bad.tsv': good + b'no tab\n', 'lists/empty.tsv': b'', 'lists/words.txt': 'กา\nมา\n'.encode()}
    for n, data in files.items():
        with open(os.path.join(world, n), 'wb') as f:
            f.write(data)
        os.utime(os.path.join(world, n), (1e9, 1e9))
    if subprocess.run([os.path.join(b, 'gen-lookup-dict'), os.path.join(world, 'lists/good.tsv'), os.path.join(world, 'lists/good.dic')],
                      stderr=subprocess.DEVNULL).returncode:
        chk.violation('compile', {}, 'dictionary compiler does not work')
        return chk.finish(1, 1, 'compilations')
    with open(os.path.join(world, 'lists/good.dic'), 'rb') as f, open(os.path.join(world, 'lists/cut.dic'), 'wb') as g:
        g.write(f.read()[:-3])
    os.symlink('good.dic', os.path.join(world, 'lists/link.dic'))
    base = {'HOME': dirs['home'], 'TMPDIR': dirs['tmp'], 'TMP': dirs['tmp'], 'XDG_CACHE_HOME': dirs['cache'], 'XDG_CONFIG_HOME': dirs['config'],
            'XDG_STATE_HOME': dirs['cache'], 'XDG_DATA_HOME': dirs['config'], 'PWD': dirs['here'], 'LD_PRELOAD': shim}
    tried, kinds, asked_for = 0, set(), set()

    def case(what, cmd, stdin, may):
        """Run once; only the files in may (relative to world) may differ."""
        log = os.path.join(sd, 'ask.log')
        if os.path.exists(log):
            os.unlink(log)
        before, t0, kids = snapshot(world), time.time(), my_children()
        rr = run(cmd, stdin=stdin, cwd=dirs['here'], env=dict(base, ASKSHIM=log), timeout=100)
        if rr.timed_out:
            chk.violation('hang', {'what': what}, what + ' does not end')
            return
        after = snapshot(world)
        for n in sorted(set(before) | set(after)):
            if before.get(n) != after.get(n) and n not in may:
                how = 'removed' if n not in after else 'created' if n not in before else 'changed'
                chk.violation('trace', {'what': what, 'file': n}, '%s: file %s was %s' % (what, n, how))
        if os.path.exists(log):
            with open(log, errors='replace') as f:
                names = {l[2:].rstrip('\n') for l in f if l.startswith('F ')}
            asked_for.update(names)
            for n in names:
                p = os.path.join(dirs['here'], n)
                if not p.startswith((sd, '/dev/', '/proc/', '/sys/')) and os.path.isfile(p) and os.stat(p).st_mtime > t0:
                    chk.violation('trace', {'what': what, 'file': n}, '%s: file %s was changed' % (what, n))
        left = my_children() - kids
        if left:
            time.sleep(1)
            left &= my_children()
        if left:
            chk.violation('process', {'what': what}, '%s leaves a process behind' % what)
            for k in left:
                os.kill(k, signal.SIGKILL)
    T, G = os.path.join(b, 'thpronun'), os.path.join(b, 'gen-lookup-dict')
    L = os.path.join(world, 'lists')
    words = short_words(chk, chk.n(60, 300), 14)
    dics = [[], ['-d' + L + '/good.dic'], ['-d' + L + '/link.dic'], ['-d' + L + '/cut.dic'], ['-d' + L + '/none.dic'], ['-dexcept.dic'], [dic_arg(b)]]
    for i in range(chk.n(90, 600)):
        ws = [r.choice(words) for _ in range(r.choice([1, 3, 20]))]
        if i % 3 == 0:
            ws += vlib.stretched(r)
        opts = ['-' + c for c in r.sample(NOT, r.choice([0, 1, 2, 5]))] + r.choice([[], ['-j'], ['-g']]) + r.choice([[], ['-n']]) + dics[i % len(dics)]
        data = ''.join(w + '\n' for w in ws).encode()
        x = r.random()
        if x < .1:
            data += b'\xff\xfe\n'
        if x > .5:
            case('reading words with ' + ' '.join(opts), [T] + opts, data, ())
        else:
            case('reading words with ' + ' '.join(opts), [T] + opts + [w for w in ws if not w.startswith('-')], b'', ())
        kinds.add(' '.join(opts))
        tried += 1
    for opts in (['--version'], ['--help'], ['-V'], ['-h'], ['--wrong'], ['-x'], ['-d']):
        case('asking ' + opts[0], [T] + opts, b'', ())
        kinds.add(opts[0])
        tried += 1
    for lst in ('good.tsv', 'bad.tsv', 'empty.tsv', 'none.tsv'):
        for out in ('lists/new.dic', 'here/new.dic', 'lists/old.dic', 'lists/nodir/x.dic', 'lists'):
            old = os.path.join(world, 'lists/old.dic')
            with open(old, 'wb') as f:
                f.write(b'old' * 5000)
            case('compiling %s to %s' % (lst, out), [G, os.path.join(L, lst), os.path.join(world, out)], b'', (out,))
            for n in ('lists/new.dic', 'here/new.dic'):
                p = os.path.join(world, n)
                if os.path.exists(p):
                    os.unlink(p)
            kinds.add(lst + ' ' + out)
            tried += 1
    case('compiling nothing', [G], b'', ())
    case('compiling without output', [G, os.path.join(L, 'good.tsv')], b'', ())
    if not asked_for and not chk.viol:
        raise HarnessError('no file was asked for')
    chk.samples += sorted(kinds)[:10]
    return chk.finish(tried + 2, len(kinds), 'distinct ways of running the two programs', files_asked=len(asked_for), files_watched=len(snapshot(world)))


# ------------------------------------------------------------------ C31 giving back

def c31(chk):
    b = build('rel', ('cycles',))
    r, sd, st = chk.rng, chk.scratch, MonStats()
    words = short_words(chk, chk.n(200, 800), 10) + ['', 'x', 'กา x', 'ก.ข.', 'ๆ', '\udcff\udcfe', 'กา\udce0\udcb8', 'a' * 3000, 'ไป' * 30, 'ฤ', '1' * 50]
    # words far into a text
    far = ['x' * k + ' ' + r.choice(['กา', 'ตาก', 'มานา', 'กากนา']) for k in (270, 400, 1100, 5000, 33000)] + ['กา ' * 40 + 'นา', 'นา.' * 150] + r.sample(vlib.stretched(r), 4)
    dics = [os.path.join(sd, 'none.dic'), sd]
    if parsing.dict_ok(b):
        dics.append(os.path.join(b, 'data', 'except.dic'))
    mine = parsing.make_dict(chk, b, {'กา': 'g_O_4@2', 'กาก': 'k_Ak1@3', 'นา': 'm_i_0@2;s_u_2@2', 'ตาก': 'f_Et1@2'}, 'mine')
    if mine:
        with open(mine[0], 'rb') as f:
            data = f.read()
        dics.append(mine[0])
        for i, k in enumerate([0, 2, 40, len(data) - 1, len(data) - 6, len(data) // 2, len(data) // 3]):
            p = os.path.join(sd, 'cut%d.dic' % i)
            with open(p, 'wb') as f:
                f.write(data[:k])
            dics.append(p)
        for i, x in enumerate([b'\0' * 500, b'\xff' * 500, b'\xd9\xfc\xd9\xfc' + b'\0' * 300]):
            p = os.path.join(sd, 'odd%d.dic' % i)
            with open(p, 'wb') as f:
                f.write(x)
            dics.append(p)

    def one(k):
        ws = r.sample(words, min(len(words), 60)) + far
        return run([os.path.join(b, 'cycles'), str(chk.seed * 100 + k), str(chk.n(60, 500))] + dics, stdin=os.fsencode(''.join(w + '\n' for w in ws)),
                   env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'}, timeout=600)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for k, rr in enumerate(ex.map(one, range(8))):
            done = st.add(rr.out)
            if rr.timed_out:
                chk.violation('hang', {'part': k}, 'repeated work does not end')
            elif rr.crash():
                chk.violation('crash', {'part': k}, 'repeated work: %s' % rr.crash())
            elif rr.rc or not done:
                raise HarnessError('cycles failed rc=%d: %r' % (rr.rc, rr.err[-500:]))
    for kind, w, d in st.viol:
        chk.violation(kind, {'cycle': w}, d)
    s = st.stat
    uses = {k: v for k, v in s.items() if k.startswith('uses')}
    if not chk.viol and (len(uses) < 7 or s.get('cycles', 0) < 1000):
        raise HarnessError('too few cycles')
    chk.samples += ['%s=%d' % kv for kv in sorted(uses.items())]
    return chk.finish(s.get('cycles', 0), len(st.shapes), 'distinct sequences of uses, each repeated 30 times', uses=uses, dictionaries=len(dics), words=len(words))


# --------------------------------------------------------- C33 undelivered

def c33(chk):
    b = build('rel', ())
    r, sd, real = chk.rng, chk.scratch, vlib.real_words()
    prog = os.path.join(b, 'thpronun')
    env = dict(os.environ, LC_ALL='C.UTF-8')

    def go(args, stdin=None, limit=None, out=None, sock=None, close=False):
        """Run with standard output on a file (that can take no more than so
        many bytes) or a given device."""
        path = os.path.join(sd, 'out%d' % threading.get_ident())

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if close:
                os.close(1)
        for timeout in (60, 200):
            with open(out or path, 'wb') as o, tempfile.TemporaryFile(dir=sd) as i:
                if isinstance(stdin, bytes):
                    i.write(stdin)
                    i.seek(0)
                # in a file a limit would hit the messages too
                p = subprocess.Popen([prog] + args, stdin=sock or stdin if not isinstance(stdin, bytes) else i, stdout=o, stderr=subprocess.PIPE,
                                     env=env, restore_signals=False, preexec_fn=pre)
                try:
                    err = p.communicate(timeout=timeout)[1]
                    break
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    if sock:
                        return None
        else:
            return None
        if out:
            return p.returncode, b'', err
        with open(path, 'rb') as o:
            return p.returncode, o.read(), err

    def jam(args, data, x):
        """A pipe that does not wait for its slow reader."""
        right = subprocess.run([prog] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env).stdout
        rd, wr = os.pipe()
        fcntl.fcntl(wr, 1031, 4096)
        os.set_blocking(wr, False)
        with tempfile.TemporaryFile(dir=sd) as err:
            p = subprocess.Popen([prog] + args, stdin=subprocess.PIPE, stdout=wr, stderr=err, env=env)
            os.close(wr)
            # all output fits badly, then there is room, then again
            got, step = b'', max(1, int(len(data) * (.3 + .5 * x)))
            feed = threading.Thread(target=feeder, args=(p.stdin, data, step))
            feed.start()
            time.sleep(.15)
            while True:
                piece = os.read(rd, 1 << 16)
                if not piece:
                    break
                got += piece
                time.sleep(.02)
            feed.join()
            p.wait()
            os.close(rd)
            err.seek(0)
            return p.returncode, (got, right), err.read()

    def feeder(f, data, step):
        try:
            for k in range(0, len(data), step):
                f.write(data[k:k + step])
                f.flush()
                time.sleep(.3)
            f.close()
        except OSError:
            pass

    dic = os.path.join(sd, 'no.dic')
    failed, full, jams, kinds = 0, 0, 0, set()
    plans = []
    for i in range(chk.n(120, 800)):
        words = r.sample(real, r.choice([1, 2, 5, 30])) + r.sample(['', 'x y', 'กา' * 3, 'ก' * 5], 1)
        words = [w for w in words if len(w) <= 10 and not w.startswith('-')]
        plans.append((i, words, r.sample([['-t'], ['-r'], ['-p'], ['-s'], ['-w'], ['-j'], ['-g'], ['-n']], r.randint(0, 2)), r.random() < .4, r.random()))

    def one(plan):
        i, words, opts, byargs, x = plan
        args = ['-d' + dic] + [o for p in opts for o in p]
        given = [w for w in words if w] or ['กา']
        data = ''.join(w + '\n' for w in words).encode() if not byargs else b''
        if byargs:
            args += given
        res = []
        ref = go(args, data)
        if ref is None:
            return res
        size = len(ref[1])
        res.append(('all', ref[0], ref, None))
        where = sorted({0, 1, size // 2, size - 1, int(size * x), int(size * x * x)} & set(range(size)))
        for at in where:
            res.append(('cut', at, go(args, data, limit=at), ref))
        res.append(('room', size, go(args, data, limit=size), ref))
        res.append(('full device', 0, go(args, data, out='/dev/full'), ref))
        res.append(('closed', 0, go(args, data, close=True), ref))
        if not byargs:
            res.append(('jam', 0, jam(args, data * (1 + 20000 // max(size, 1)), x), ref))
            for cut in {0, len(data) // 2, len(data), int(len(data) * x)}:
                mine, other = socket.socketpair()
                mine.sendall(b'never read')      # makes the end of the other side an error
                other.sendall(data[:cut])
                other.close()
                got = go(args, None, sock=mine)
                mine.close()
                pre = go(args, data[:data[:cut].rfind(b'\n') + 1])
                res.append(('reset', cut, got, pre))
            d = os.open(sd, os.O_RDONLY | os.O_DIRECTORY)
            res.append(('directory', 0, go(args, d), ref))
            os.close(d)
        return res
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for plan, res in zip(plans, ex.map(one, plans)):
            for kind, at, got, ref in res:
                if got is None or ref is None and kind != 'all':
                    continue
                rc, out, err = got
                w = {'words': plan[1], 'options': plan[2], 'arguments': plan[3], 'fault': kind, 'at': at}
                if kind == 'jam':
                    got, right = out
                    if rc < 0 or not right.startswith(got):
                        chk.violation('jam', w, 'output that would not wait: ' + ('ended by signal %d' % -rc if rc < 0 else 'answers are missing in the middle'))
                    elif rc == 0 and got != right:
                        chk.violation('silent-jam', w, 'output that would not wait was cut, yet the program reports success')
                    jams += got != right
                    full += got == right
                    failed += got != right
                    continue
                if kind in ('all', 'room'):
                    full += 1
                    if rc:
                        chk.violation('fails', w, 'status %d though all was read and written' % rc)
                    elif ref and out != ref[1]:
                        chk.violation('differs', w, 'output differs between two runs')
                    continue
                failed += 1
                if failed % 97 == 1 and len(chk.samples) < 10:
                    chk.samples.append({**w, 'status': rc, 'message': err.decode('utf-8', 'replace')[-80:]})
                kinds.add((kind, at, len(plan[1]), tuple(map(tuple, plan[2])), plan[3]))
                what = {'cut': 'output stopped after %d bytes' % at, 'full device': 'no room for output', 'closed': 'standard output closed',
                        'reset': 'reading failed after %d bytes' % at, 'directory': 'standard input cannot be read'}[kind]
                if rc == 0:
                    chk.violation('silent-' + kind, w, what + ', yet the program reports success')
                elif rc < 0:
                    chk.violation('crash-' + kind, w, what + ': ended by signal %d' % -rc)
                elif not err.replace(ref[2], b'').strip():
                    chk.violation('mute-' + kind, w, what + ', nothing on standard error')
                elif kind == 'cut' and out != ref[1][:at]:
                    chk.violation('garbled', w, what + ': what was written is not the beginning of the right output')
                elif kind == 'reset' and not out.startswith(ref[1]):
                    chk.violation('lost', w, what + ': answers to the words before are missing or wrong')
    if not failed or not full:
        raise HarnessError('nothing failed')
    return chk.finish(failed + full, len(kinds), 'distinct runs in which a write or read failed', failed=failed, jammed=jams)



# ------------------------------------------------ C34 which dictionary is used

def c34(chk):
    b = build('rel', ())
    r, sd, real = chk.rng, chk.scratch, vlib.real_words()
    own = os.path.join(b, 'data').encode()
    with open(os.path.join(b, 'thpronun'), 'rb') as f:
        binary = f.read()

    # a program installed with its dictionary in a place of ours
    def installed(place):
        want = place.encode()
        at = binary.find(own + b'/')
        if at < 0 or len(want) > len(own):
            return None
        path = os.path.join(sd, 'prog-' + os.path.basename(place))
        with open(path, 'wb') as f:
            f.write(binary.replace(own + b'/', want + b'/' * (len(own) - len(want)) + b'/'))
        os.chmod(path, 0o755)
        return path
    keys = [k for k in dict.fromkeys(parsing.gen_keys(r, real) + parsing.gen_keys(r, real) + ['กา', 'มานา', 'คน']) if 0 < len(k) <= 8]
    ents = {'none': {'ฃฅฃฅฃฅ': 'k_A_0@6'}}
    for name in 'ABC':
        ents[name] = {k: parsing.rand_pron(r, len(k)) for k in keys if r.random() < .7} or {}
        ents[name]['กา'] = {'A': 'm_E_0@2', 'B': 'd_E_0@2', 'C': 't_E_0@2'}[name]
    dics = {}
    for name, e in ents.items():
        d = parsing.make_dict(chk, b, e, 'used' + name)
        if not d:
            raise HarnessError('cannot compile a dictionary')
        dics[name] = d[0]
    world = os.path.join(sd, 'w')
    os.makedirs(os.path.join(world, 'my dir'))
    os.makedirs(os.path.join(world, '-r'))
    bad = {'missing': os.path.join(world, 'missing.dic'), 'directory': os.path.join(world, 'my dir'), 'empty': os.path.join(world, 'empty.dic'),
           'cut': os.path.join(world, 'cut.dic'), 'text': os.path.join(world, 'text.dic'), 'below a file': os.path.join(world, 'text.dic', 'x.dic')}
    open(bad['empty'], 'wb').close()
    with open(dics['A'], 'rb') as f, open(bad['cut'], 'wb') as g:
        g.write(f.read()[:-2])
    with open(bad['text'], 'w') as f:
        f.write('กา\tk_A_0@2\n')
    places = {n: [p] for n, p in dics.items()}
    for n in 'ABC':
        for i, rel in enumerate(['here%s.dic' % n, 'my dir/%s.dic' % n, '-r/%s' % n, '%s กา;*.dic' % n]):
            shutil.copy(dics[n], os.path.join(world, rel))
            places[n].append(rel if i else './' + rel)
        deep = world
        for size in (100, 150, 250, 270, 530, 1050, 2100):
            while len(deep) < size:
                deep = os.path.join(deep, ('deep' + n) * min(40, (size - len(deep)) // 5 + 1))
            os.makedirs(deep, exist_ok=True)
            shutil.copy(dics[n], os.path.join(deep, 'x.dic'))
            places[n] += [os.path.join(deep, 'x.dic'), os.path.relpath(os.path.join(deep, 'x.dic'), world)]
        os.symlink(dics[n], os.path.join(world, 'link' + n))
        places[n] += ['link' + n, 'my dir/../link' + n, os.path.join(world, 'my dir', n + '.dic')]
    # decoys where the program runs
    for rel in ('except.dic', 'data/except.dic', 'thpronun/except.dic', '.thpronun/except.dic'):
        os.makedirs(os.path.dirname(os.path.join(world, rel)), exist_ok=True)
        shutil.copy(dics['C'], os.path.join(world, rel))
    words = [w for w in keys + [k + ' ' + r.choice(keys) for k in keys[:5]] + [w for w in r.sample(real, min(20, len(real))) if len(w) <= 8]]
    with open(os.path.join(b, 'data', 'except.tsv'), encoding='utf-8') as f:
        shipped = [l.split('\t')[0] for l in f]
    words = [w for w in words if not w.startswith('-')][:30] + ['กา', 'ก็', 'กระเช้า'] + r.sample(shipped, min(7, len(shipped)))
    progs = {'own': os.path.join(b, 'thpronun')}
    for name in ('A', 'none', 'missing', 'cut'):
        place = os.path.join(sd, 'i' + name[0])
        os.makedirs(place)
        if name != 'missing':
            shutil.copy(bad[name] if name in bad else dics[name], os.path.join(place, 'except.dic'))
        p = installed(place)
        if p:
            progs[name] = p
    opts = [['-n', '-w'], ['-w'], ['-n', '-t', '-r'], ['-n', '-j', '-w']]
    refs = {}
    dics['own'] = os.path.join(b, 'data', 'except.dic')
    for o in range(len(opts)):
        for n in dics:
            x = run([progs['own']] + opts[o] + ['-d' + dics[n]] + words, cwd=world)
            if x.rc or x.crash() or x.timed_out:
                chk.violation('fails', {'dictionary': n}, 'program fails with a good dictionary: %s' % (x.crash() or x.rc))
                return chk.finish(1, 1, 'runs')
            refs[o, n] = x.out
    if len({refs[0, n] for n in ('A', 'B', 'C', 'none')}) < 4:
        chk.violation('alike', {'words': words}, 'dictionaries with different entries give the same answers')
        return chk.finish(1, 1, 'runs')
    done, kinds = 0, set()
    plans = []
    for i in range(chk.n(800, 6000)):
        prog = r.choice(list(progs))
        if i < 3 * len(progs):
            prog = list(progs)[i % len(progs)]
        given = []
        for _ in range(0 if i < len(progs) else r.choice([0, 1, 1, 1, 2, 2, 3])):
            if r.random() < .4:
                k = r.choice(list(bad))
                given.append((None, k, bad[k]))
            else:
                n = r.choice('ABC')
                given.append((n, 'good', r.choice(places[n])))
        plans.append((prog, given, r.randrange(len(opts)), r.random() < .3, r.random()))

    def one(plan):
        prog, given, o, stdin, x = plan
        ds = ['-d' + g[2] for g in given]
        args = list(opts[o])
        if stdin:
            args = args + ds if x < .5 else ds + args
            return run([progs[prog]] + args, stdin=''.join(w + '\n' for w in words).encode(), cwd=world)
        # the options stand in their order, anywhere
        cut = int(x * len(words))
        if len(ds) > 1:
            args = ds[:1] + args + words[:cut] + ds[1:] + words[cut:]
        else:
            args = args + words[:cut] + ds + words[cut:]
        return run([progs[prog]] + args, cwd=world)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for plan, x in zip(plans, ex.map(one, plans)):
            prog, given, o, stdin, _ = plan
            if x.timed_out:
                continue
            if given:
                used, what = given[-1][0], given[-1][1]
            elif prog == 'own':
                used, what = 'own', 'good'
            else:
                used, what = (prog, 'good') if prog in dics else (None, prog)
            done += 1
            kinds.add((prog, tuple((g[0], g[1], g[2]) for g in given), o, stdin))
            w = {'installed': prog, 'asked': [list(g) for g in given], 'options': opts[o], 'stdin': stdin}
            if x.rc or x.crash():
                chk.violation('fails', w, 'program fails: %s' % (x.crash() or 'status %d' % x.rc))
            elif x.out != refs[o, used or 'none']:
                other = [n for n in dics if x.out == refs[o, n]]
                chk.violation('other', w, 'dictionary %s should be in force (%s), but %s' % (used or 'none', what, 'the answers are those of ' + other[0] if other else 'the answers are those of none'))
            elif used and x.err:
                chk.violation('warns', w, 'a warning though the dictionary is good: %r' % x.err[:100])
            elif not used and not x.err:
                chk.violation('mute', w, 'no warning though the dictionary is unusable (%s)' % what)
            elif not used and given and given[-1][2].encode() not in x.err:
                chk.violation('unnamed', w, 'the warning does not name the dictionary: %r' % x.err[:200])
    if not done:
        raise HarnessError('nothing run')
    chk.samples += [str(k) for k in sorted(kinds, key=str)[:8]]
    return chk.finish(done, len(kinds), 'distinct (installed dictionary, dictionaries asked for, options) combinations', installations=len(progs) - 1)
