"""Common machinery of the checks: building /repo's sources, running monitors,
corpora, verdicts, known findings, evidence."""

import fcntl
import glob
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NCPU = min(8, os.cpu_count() or 1)

SAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all']
VARIANTS = {
    # name: (compiler pair, flags, C++-only flags)
    'rel':   (('gcc', 'g++'), ['-O2', '-g1', '-fno-strict-aliasing'], []),
    'ndebug': (('gcc', 'g++'), ['-O2', '-g1', '-DNDEBUG'], []),
    'san':   (('gcc', 'g++'), SAN, ['-D_GLIBCXX_DEBUG']),
    'asan':  (('gcc', 'g++'), SAN, []),
    'tsan':  (('gcc', 'g++'), ['-O1', '-g', '-fsanitize=thread'], []),
    'o0':    (('gcc', 'g++'), ['-O0', '-g1', '-ftrivial-auto-var-init=pattern'], []),
    'o3':    (('gcc', 'g++'), ['-O3', '-g1', '-DNDEBUG', '-funsigned-char'], []),
    'steps': (('gcc', 'g++'), ['-O1', '-g1', '-fsanitize-coverage=trace-pc'], []),
    'clang': (('clang', 'clang++'), ['-O2', '-g1'], []),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=97:detect_leaks=0:'
                    'detect_stack_use_after_return=1:strict_string_checks=1:'
                    'allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=3500',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=96:second_deadlock_stack=1:hard_rss_limit_mb=3500',
    'LSAN_OPTIONS': 'exitcode=95',
}


class HarnessError(Exception):
    """The check itself could not do its job (not a verdict)."""


# --------------------------------------------------------------------- build

def _run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def repo_sources():
    lib, cli, gen = [], [], []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '_build', '.git', 'm4', 'build-aux', 'autom4te.cache'))
        rel = os.path.relpath(root, REPO)
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(('.cxx', '.cc', '.cpp')):
                (cli if rel.split(os.sep)[0] == 'thpronun' else lib).append(p)
            elif f.endswith('.c') and rel.split(os.sep)[0] == 'dict':
                gen.append(p)
    if not lib or not cli or not gen:
        raise HarnessError('sources of the repository not found')
    return lib, cli, gen


def _tree_hash(extra):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '_build', '.git', 'autom4te.cache'))
        for f in sorted(files):
            if f.endswith(('.cxx', '.cc', '.cpp', '.c', '.h', '.inl', '.hpp', '.tsv')):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*'))):
        with open(f, 'rb') as fh:
            h.update(f.encode() + fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(variant, drivers=(), cli=True):
    """Build the repository's code (and harness drivers) with a variant's
    flags; returns the directory with thpronun, gen-lookup-dict, drivers and
    data/except.{tsv,dic}."""
    (cc, cxx), flags, cxxflags = VARIANTS[variant]
    drivers = tuple(sorted(drivers))
    tag = '%s-%s' % (variant, _tree_hash((variant, flags, cxxflags, drivers, cli)))
    out = os.path.join(BUILD, tag)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, tag + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'OK')):
            return out
        last = ''
        for std in ('-std=c++14', '-std=gnu++17'):
            tmp = tempfile.mkdtemp(prefix=tag + '.', dir=BUILD)
            try:
                err = _build_into(tmp, out, cc, cxx, flags, cxxflags + [std], drivers, cli)
                if err is None:
                    if os.path.isdir(out):
                        shutil.rmtree(out)
                    os.rename(tmp, out)
                    _prune(tag)
                    return out
                last = err
            finally:
                if os.path.isdir(tmp):
                    shutil.rmtree(tmp)
        raise HarnessError('build failed (%s):\n%s' % (variant, last[-4000:]))


def _build_into(tmp, final, cc, cxx, flags, cxxflags, drivers, cli):
    lib, climain, gen = repo_sources()
    inc = ['-I' + REPO, '-I' + os.path.join(VERIF, 'harness'), '-w']
    defs = ['-DEXCEPT_DICT_DIR="%s/data"' % final, '-DVERSION="9.9.verif"']
    plain = [f for f in flags if 'sanitize-coverage' not in f]
    jobs, libobjs, cliobjs, genobjs, drvobjs = [], [], [], [], {}

    def obj(src):
        return os.path.join(tmp, hashlib.md5(src.encode()).hexdigest()[:10] + '-' + os.path.basename(src) + '.o')
    for s in lib:
        libobjs.append(obj(s))
        jobs.append([cxx] + flags + cxxflags + inc + defs + ['-c', s, '-o', obj(s)])
    if cli:
        for s in climain:
            cliobjs.append(obj(s))
            jobs.append([cxx] + flags + cxxflags + inc + defs + ['-c', s, '-o', obj(s)])
    for s in gen:
        genobjs.append(obj(s))
        jobs.append([cc] + plain + inc + ['-c', s, '-o', obj(s)])
    for d in drivers:
        s = os.path.join(VERIF, 'harness', d + '.cc')
        drvobjs[d] = obj(s)
        jobs.append([cxx] + plain + cxxflags + inc + ['-c', s, '-o', obj(s)])
    # big ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, msg in ex.map(_run_cc, jobs):
            if rc:
                return msg
    links = [[cc] + flags + genobjs + ['-o', os.path.join(tmp, 'gen-lookup-dict'), '-ldatrie']]
    if cli:
        links.append([cxx] + flags + cliobjs + libobjs + ['-o', os.path.join(tmp, 'thpronun'), '-lthai', '-ldatrie', '-pthread'])
    for d in drivers:
        links.append([cxx] + flags + [drvobjs[d]] + libobjs + ['-o', os.path.join(tmp, d), '-lthai', '-ldatrie', '-pthread'])
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, msg in ex.map(_run_cc, links):
            if rc:
                return msg
    for f in glob.glob(os.path.join(tmp, '*.o')):
        os.unlink(f)
    # the shipped dictionary, made as data/Makefile.am makes it
    os.mkdir(os.path.join(tmp, 'data'))
    lines = shipped_lines()
    with open(os.path.join(tmp, 'data', 'except.tsv'), 'wb') as f:
        f.write(b''.join(l + b'\n' for l in lines))
    r = run([os.path.join(tmp, 'gen-lookup-dict'), os.path.join(tmp, 'data', 'except.tsv'),
             os.path.join(tmp, 'data', 'except.dic')], timeout=120)
    with open(os.path.join(tmp, 'data', 'gen-status.json'), 'w') as f:
        json.dump({'rc': r.rc, 'err': r.err.decode('utf-8', 'replace')}, f)
    with open(os.path.join(tmp, 'OK'), 'w') as f:
        f.write('ok\n')
    return None


def shipped_lines():
    lines = set()
    for f in glob.glob(os.path.join(REPO, 'data', 'ex-*.tsv')):
        with open(f, 'rb') as fh:
            lines.update(l for l in fh.read().split(b'\n') if l)
    return sorted(lines)


def _prune(keep):
    """Drop build trees of the same variant left from other source states."""
    variant = keep.split('-')[0]
    now = time.time()
    for d in glob.glob(os.path.join(BUILD, variant + '-*')):
        if os.path.isdir(d) and os.path.basename(d) != keep and now - os.path.getmtime(d) > 7200:
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------- running

class Result:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    def crash(self):
        """Text describing an abnormal ending, or None."""
        if self.timed_out:
            return None
        e = self.err.decode('utf-8', 'replace')
        for m in ('ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer',
                  'ERROR: LeakSanitizer', 'Error: attempt to', 'Assertion `', 'terminate called',
                  'AddressSanitizer:DEADLYSIGNAL', 'stack smashing', 'Sanitizer CHECK failed', 'hard rss limit exhausted'):
            i = e.find(m)
            if i >= 0:
                # ASan prints a pid-free line after the marker
                return e[i:i + 300].split('\n    #')[0].strip()
        if self.rc < 0:
            return 'killed by signal %d' % -self.rc
        if self.rc in (95, 96, 97, 98, 134, 139):
            return 'abnormal exit status %d' % self.rc
        return None


def _limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


HANGS = []                      # confirmed hangs of the code under test
DEADLINE = time.time() + 840    # a check gives its answer before it is cut off


def _feed(pipe, data):
    # a thread of its own: communicate() called again after a timeout does not
    # go on sending the input
    try:
        with pipe:
            pipe.write(data)
    except (BrokenPipeError, ValueError):
        pass


def run(cmd, stdin=b'', timeout=300, env=None, cwd=None, mem=None, tries=2, hang='stop'):
    """Run a command; a timeout is retried once, with three times the time, then
    reported as such.  After one confirmed hang nothing more is run, unless a
    hang means nothing (hang='ok')."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C.UTF-8'
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    if mem is None and os.path.basename(os.path.dirname(os.fsdecode(cmd[0]))).startswith(('rel-', 'ndebug-', 'o0-', 'o3-', 'clang-')):
        mem = 3500 << 20
    out = err = b''
    for attempt in range(tries):
        end = time.time() + (timeout / 3 if attempt + 1 < tries else timeout)
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, cwd=cwd,
                             preexec_fn=_limits(mem), start_new_session=True)
        threading.Thread(target=_feed, args=(p.stdin, stdin), daemon=True).start()
        p.stdin = None
        while True:
            try:
                out, err = p.communicate(timeout=max(.05, min(3, end - time.time())))
                if b'ReserveShadowMemoryRange failed' in err or b'failed to allocate 0xdfff' in err or b'unexpected memory mapping' in err:
                    raise HarnessError('sanitizer could not start: %r' % err[:300])
                return Result(p.returncode, out, err)
            except subprocess.TimeoutExpired:
                stop = 'stopped after a hang' if HANGS and hang == 'stop' else 'out of time' if time.time() > DEADLINE else None
                if stop or time.time() >= end:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    out, err = p.communicate()
                    if stop:
                        raise HarnessError(stop)
                    break
    if hang == 'stop':
        HANGS.append([os.fsdecode(os.path.basename(cmd[0]))] + [repr(a) for a in cmd[1:8]])
    return Result(-9, out, err, True)


# ------------------------------------------------------------------- corpora

CONS = [chr(c) for c in range(0xe01, 0xe2f) if c not in (0xe24, 0xe26)]
TONES = [chr(c) for c in range(0xe48, 0xe4c)]
ALPHABET = ([chr(c) for c in range(0xe01, 0xe3a)] + [chr(c) for c in range(0xe40, 0xe46)]
            + ['็'] + TONES + ['์'])
MIXED = ALPHABET + ['.', ' ', 'a']

FINALS = [c for c in CONS if c not in 'หอฮ']


def is_token(ch):
    o = ord(ch)
    return ch == '.' or 0xe01 <= o <= 0xe2e or 0xe30 <= o <= 0xe39 or 0xe40 <= o <= 0xe45 or 0xe47 <= o <= 0xe4c


def gen_initial(r):
    x = r.random()
    c = r.choice(CONS)
    if x < .45:
        return c
    if x < .6:
        return r.choice('กขคจซศสดตทบปพฟหธนภมวอ') + 'ร'
    if x < .7:
        return r.choice('กขคบปผพฟหสอ') + 'ล'
    if x < .77:
        return r.choice('กขคสห') + 'ว'
    if x < .85:
        return 'ห' + r.choice('งญณนมยรลวฬ')
    if x < .9:
        return 'บด'
    return c + r.choice(CONS)


def gen_syllable(r):
    """One roughly well-formed written syllable, all shapes represented."""
    x = r.random()
    i = gen_initial(r)
    t = r.choice(TONES) if r.random() < .3 else ''
    f = r.choice(FINALS) if r.random() < .55 else ''
    k = ''
    if r.random() < .18:
        k = r.choice([r.choice(CONS), r.choice(CONS) + r.choice('ิุ'),
                      r.choice(CONS) + r.choice(CONS)]) + '์'
    tail = ''
    if r.random() < .12:
        tail = r.choice(['ร', 'ิ', 'ุ', 'รา', 'ยา'])
    if x < .08:
        s = i + 'ะ'
    elif x < .18:
        s = i + t + 'า' + (k if r.random() < .3 else '') + f
    elif x < .24:
        s = i + 'ั' + t + (f or r.choice(FINALS))
    elif x < .28:
        s = i + 'ั' + t + 'ว' + r.choice(['', 'ะ'])
    elif x < .38:
        s = i + r.choice('ิีึุู') + t + f
    elif x < .41:
        s = i + 'ื' + t + (f or 'อ')
    elif x < .44:
        s = i + '็อ' + f
    elif x < .48:
        s = i + t + 'ำ'
    elif x < .52:
        s = i + t + 'อ' + f
    elif x < .55:
        s = i + t + 'ว' + f
    elif x < .59:
        s = i + t + r.choice(['ร', 'รร', 'รร' + r.choice(FINALS)])
    elif x < .63:
        s = i + t + (f or r.choice(FINALS))
    elif x < .67:
        s = r.choice(CONS) + 'ฤ' + r.choice(['', f, 'ๅ', 'ษ', 'ท', 'ณ'])
    elif x < .69:
        s = r.choice('ฤฦ') + r.choice(['', 'ๅ', 'า', f, 'ษ' + f, 'ท'])
    elif x < .73:
        s = 'เ' + i + t + r.choice(['', f, 'ะ'])
    elif x < .76:
        s = 'เ' + i + 'ิ' + t + f
    elif x < .79:
        s = 'เ' + i + 'ี' + t + 'ย' + r.choice(['', 'ะ', f])
    elif x < .82:
        s = 'เ' + i + 'ื' + t + 'อ' + r.choice(['', 'ะ', f])
    elif x < .84:
        s = 'เ' + i + t + 'อ' + r.choice(['', 'ะ', f])
    elif x < .86:
        s = 'เ' + i + t + 'า' + r.choice(['', 'ะ'])
    elif x < .88:
        s = 'เ' + i + '็' + f
    elif x < .90:
        s = 'เ' + i + t + 'ย'
    elif x < .94:
        s = 'แ' + i + r.choice([t, '็']) + r.choice(['', f, 'ะ'])
    elif x < .97:
        s = 'โ' + i + t + r.choice(['', f, 'ะ'])
    else:
        s = r.choice('ใไ') + i + t + r.choice(['', 'ย'])
    return s + k + tail


def gen_word(r, n=None):
    n = n or r.choice([1, 1, 2, 2, 3, 4])
    return ''.join(gen_syllable(r) for _ in range(n))


SEPS = [' ', '-', '/', 'a', 'Bc', '42', '๕', 'ๆ', 'ฯ', '(', '"', '\\', '​', 'ฺ', 'ํ', '😀', 'é', '中', '\t', '\x01']


def mutate(r, w):
    w = list(w)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(w) + 1)
        if k < .35 and w:
            w[r.randrange(len(w))] = r.choice(MIXED)
        elif k < .6:
            w.insert(i, r.choice(MIXED))
        elif k < .8 and len(w) > 1:
            del w[r.randrange(len(w))]
        elif len(w) > 1:
            j = r.randrange(len(w) - 1)
            w[j], w[j + 1] = w[j + 1], w[j]
    return ''.join(w)


_real = None


def real_words():
    """Thai words: the word breaker's own list, plus words of the shipped
    exception lists (falls back to generated ones if the list is unreadable)."""
    global _real
    if _real is None:
        ws = []
        for base in ('/usr/share/libthai/thbrk', '/usr/share/libthai/thbrk.tri'):
            if os.path.exists(base if base.endswith('.tri') else base + '.tri'):
                d = os.path.dirname(base)
                try:
                    r = subprocess.run(['trietool', '-p', d, 'thbrk', 'list'], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, timeout=60,
                                       env=dict(os.environ, LC_ALL='C.UTF-8'))
                    ws = [l.split('\t')[0] for l in r.stdout.decode('utf-8', 'replace').split('\n') if l]
                except (OSError, subprocess.TimeoutExpired):
                    ws = []
                break
        _real = [w for w in ws if w and all(0xe00 <= ord(c) < 0xe80 for c in w)]
    return _real


def shipped_dict():
    d = {}
    for l in shipped_lines():
        k, _, v = l.decode('utf-8').partition('\t')
        d[k] = v
    return d


def mixed_text(r, words):
    parts = []
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        x = r.random()
        if x < .4 and words:
            parts.append(r.choice(words))
        elif x < .7:
            parts.append(gen_word(r))
        elif x < .8:
            parts.append(''.join(r.choice(CONS) for _ in range(r.choice([1, 1, 2, 3, 4, 5]))) + r.choice(['.', '.', '']))
        elif x < .95:
            parts.append(r.choice(SEPS))
        else:
            parts.append(r.choice(['.', '..', ' .', '. ']))
    return ''.join(parts)


def long_text(r, words, n):
    """A text of n pieces: words, syllables, plain text."""
    return ''.join(r.choice(words) if words and r.random() < .6 else mixed_text(r, words) if r.random() < .3 else gen_word(r, 1)
                   for _ in range(n))


# ---------------------------------------------------------------- the monitor

_lock = threading.Lock()


class MonStats:
    def __init__(self):
        self.stat, self.rules, self.syls, self.shapes, self.viol = {}, {}, {}, set(), []

    def merge(self, o):
        for mine, other in ((self.stat, o.stat), (self.rules, o.rules), (self.syls, o.syls)):
            for k, v in other.items():
                mine[k] = mine.get(k, 0) + v
        self.shapes |= o.shapes

    def add(self, out):
        done = False
        for l in out.decode('utf-8', 'replace').split('\n'):
            if l.startswith('S '):
                _, k, v = l.split(' ')
                self.stat[k] = self.stat.get(k, 0) + int(v)
            elif l.startswith('R '):
                _, k, v = l.split(' ')
                self.rules[k] = self.rules.get(k, 0) + int(v)
            elif l.startswith('T '):
                _, k, v = l.split(' ')
                self.syls[k] = self.syls.get(k, 0) + int(v)
            elif l.startswith('H '):
                self.shapes.add(l[2:])
            elif l.startswith('V '):
                self.viol.append(tuple((l[2:].split('\t') + ['', ''])[:3]))
            elif l == 'DONE':
                done = True
        return done


def stretched(r):
    """Texts of unusual length with few readings, readable or not."""
    k = r.choice([20, 35, 60, 110, 150])
    return [r.choice(['กา ', 'มา ', 'ตา ']) * k + 'มา', 'ก.' * k, 'ไป' * k, r.choice(['ะา', '์', 'ิ', '่']) * k, 'กา' * k + 'ะะ', 'ก. ' * k,
            r.choice('x9é中😀') * (k * r.choice([1, 10, 40])), 'x' * (k * 12) + ' กา', 'กา' + '-' * (k * 5) + 'มา', ' ' * k + 'มา' + ' ' * k,
            'กา, ' * k, '"\\' * k]


def far(r, words, n):
    """n of the words, set far into a text: behind long plain text or many parts."""
    words = [w for w in words if len(w) < 60]
    out = []
    for i in range(n if words else 0):
        if i % 3:
            pre = r.choice('xZ9') * (r.choice([130, 260, 520, 1030, 4100, 9000]) + r.randint(0, 40)) + ' '
        else:
            part = r.choice(['กา ', 'มานี ', 'ก. ', 'กา x', 'ปลา '])
            pre = part * r.choice([20, 50, 110, 140, 320]) + ' '
        out.append(pre + r.choice(words))
    for k in (32740, 65510):
        out += ['x' * (k + i) + ' ' + r.choice(words) for i in (0, 9, 23, 40, 300)] if words else []
    return out


def far_thai(r, words, n):
    """n of the words, each behind a long run of syllables without a space."""
    words = [w for w in words if len(w) < 60]
    return [r.choice(['กา', 'มานี', 'ปลา', 'เสือ']) * r.choice([10, 20, 30, 70, 130, 270]) + r.choice(words) for _ in range(n if words else 0)]


def run_mon(chk, bdir, args, words=None, stats=None, timeout=600, driver='mon', shards=NCPU):
    """Run the monitor sharded; crashes and hangs become violations of the
    running check, attributed through the breadcrumb."""
    total = stats if stats is not None else MonStats()
    stats = MonStats()
    data = b''
    if words is not None:
        data = ''.join(w + '\n' for w in words).encode('utf-8')
    scratch = tempfile.mkdtemp(prefix='mon.', dir=chk.scratch)

    def one(i):
        crumb = os.path.join(scratch, 'crumb%d' % i)
        r = run([os.path.join(bdir, driver), '--crumb', crumb, '--shard', str(i), str(shards)] + args,
                stdin=data, timeout=timeout)
        word = ''
        if os.path.exists(crumb):
            with open(crumb, 'rb') as f:
                word = f.read().split(b'\0')[0].decode('utf-8', 'replace')
        return r, word
    hung = False
    with ThreadPoolExecutor(shards) as ex:
        for r, word in ex.map(one, range(shards)):
            done = stats.add(r.out)
            if r.timed_out or r.rc == 94:
                chk.violation('hang', {'word': word, 'args': args}, 'no answer for %r' % word)
                hung = True
            elif r.crash():
                chk.violation('crash', {'word': word, 'args': args}, 'crash on %r: %s' % (word, r.crash()))
            elif r.rc != 0 or not done:
                raise HarnessError('monitor failed rc=%s: %s' % (r.rc, r.err[-2000:].decode('utf-8', 'replace')))
    for kind, word, detail in stats.viol:
        chk.violation(kind, {'word': word, 'args': args}, '%s on %r: %s' % (kind, word, detail))
    with _lock:
        total.merge(stats)
    if hung and chk.viol:
        raise HarnessError('stopped after a hang')
    return total


# ------------------------------------------------------------------ CLI output

def cli(bdir, args, words=None, stdin=None, **kw):
    data = stdin if stdin is not None else (''.join(w + '\n' for w in words).encode('utf-8') if words is not None else b'')
    return run([os.path.join(bdir, 'thpronun')] + list(args), stdin=data, **kw)


def parse_list_output(out, words, nouts):
    """Split plain-list output into [word][output] -> list of lines.  Returns
    None if the stream does not have the promised shape."""
    res, pos = [], 0
    for w in words:
        head = w.encode('utf-8') + b':\n'
        if out[pos:pos + len(head)] != head:
            return None
        pos += len(head)
        outs = []
        for _ in range(nouts):
            lines = []
            while True:
                e = out.find(b'\n', pos)
                if e < 0:
                    return None
                l = out[pos:e]
                pos = e + 1
                if not l:
                    break
                lines.append(l.decode('utf-8', 'replace'))
            outs.append(lines)
        res.append(outs)
    return res if pos == len(out) else None


def parse_json_output(out, words, nouts):
    """-> [word][output] = raw JSON line (bytes), or None."""
    res, pos = [], 0
    for w in words:
        head = w.encode('utf-8') + b':\n'
        if out[pos:pos + len(head)] != head:
            return None
        pos += len(head)
        outs = []
        for _ in range(nouts):
            e = out.find(b'\n', pos)
            if e < 0:
                return None
            outs.append(out[pos:e])
            pos = e + 1
        res.append(outs)
    return res if pos == len(out) else None


# -------------------------------------------------------------------- verdicts

class Check:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = int(hashlib.md5(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.viol, self.known = [], []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.findings = load_findings()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, kind, witness, text):
        """kind + witness identify the violation."""
        key = {'kind': kind, 'witness': witness}
        for f in self.findings:
            if f.get('property') == self.pid and f.get('kind') == kind and f.get('witness') == witness:
                self.known.append(f.get('what', text))
                return
        if len(self.viol) < 200:
            self.viol.append((key, text))

    def finish(self, evaluations, distinct, rule, **extra):
        wall = time.time() - self.t0
        cov = {'evaluations': int(evaluations), 'distinct_nontrivial': int(distinct), 'rule': rule,
               'samples': self.samples[:12]}
        cov.update(extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(self.viol),
              'assumptions': self.assumptions}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        tmp = path + '.tmp%d' % os.getpid()
        with open(tmp, 'w', encoding='utf-8', errors='backslashreplace') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
            f.write('\n')
        os.rename(tmp, path)
        for k in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.viol:
            key, text = self.viol[0]
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            blob = json.dumps({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'key': key, 'what': text,
                               'others': [t for _, t in self.viol[1:20]]}, ensure_ascii=False, indent=1)
            rp = os.path.join(VERIF, 'replay', '%s-%s.json' % (self.pid, hashlib.md5(blob.encode('utf-8', 'replace')).hexdigest()[:10]))
            with open(rp, 'w', encoding='utf-8', errors='replace') as f:
                f.write(blob + '\n')
            for _, t in self.viol[:8]:
                print('  ' + t.encode('utf-8', 'backslashreplace').decode())
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if evaluations <= 0 or distinct <= 0:
            print('nothing was observed', file=sys.stderr)
            return 2
        print('held: property=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, evaluations, distinct, wall))
        return 0

    def close(self):
        if self.scratch.startswith(tempfile.gettempdir() + os.sep) and os.path.isdir(self.scratch):
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    res = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('{'):
                    res.append(json.loads(l))
    return res


def main(pid, body, level='exploration'):
    chk = Check(pid, level)
    try:
        rc = body(chk)
    except Exception as e:
        if HANGS and not chk.viol and isinstance(e, HarnessError):
            chk.violation('hang', {'command': HANGS[0]}, 'no end: %s' % ' '.join(HANGS[0]))
        if chk.viol:
            # a violation was already observed; report it
            rc = chk.finish(max(1, chk.cov.get('evaluations', 1)), 1, 'run cut short after a violation')
        else:
            if not isinstance(e, HarnessError):
                traceback.print_exc()
            print('check error: %s' % e, file=sys.stderr)
            rc = 2
    finally:
        chk.close()
    sys.stdout.flush()
    sys.exit(rc)
