"""Model-based histories over the graph container, order laws, grouping."""

import os
from concurrent.futures import ThreadPoolExecutor

import vlib
from vlib import HarnessError, MonStats, build, run


def driver(chk, b, name, arglists, timeout=300):
    """Run a seeded driver several times in parallel; returns merged stats."""
    st = MonStats()

    def one(args):
        return args, run([os.path.join(b, name)] + args, timeout=timeout)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for args, r in ex.map(one, arglists):
            done = st.add(r.out)
            if r.timed_out:
                chk.violation('hang', {'args': args}, 'no end: %s %s' % (name, args))
            elif r.crash():
                chk.violation('crash', {'args': args}, 'crash in %s %s: %s' % (name, args, r.crash()))
            elif r.rc or not done:
                raise HarnessError('%s rc=%s %s' % (name, r.rc, r.err[-1000:]))
            for kind, w, d in st.viol:
                chk.violation(kind, {'args': args, 'case': w.strip()}, '%s: %s [%s]' % (kind, d, w.strip()[:400]))
            st.viol = []
    return st


def c12(chk):
    b = build('san', ('graphs',), cli=False)
    n = chk.n(500, 5000)
    st = driver(chk, b, 'graphs', [['--history', str(chk.rng.getrandbits(40)), str(n)] + (['4'] if i == 0 else []) for i in range(8)])
    s = st.stat
    chk.samples += ['%s=%d' % kv for kv in sorted(s.items()) if kv[0].startswith('op-')]
    if not chk.viol and (not s.get('op-cut-many') or not s.get('op-remove') or not s.get('op-union')):
        raise HarnessError('operations not exercised')
    return chk.finish(s.get('states-checked', 0), len(st.shapes),
                      'a history ending in a triple of graphs not reached before; every state on the way compared with a set of edges',
                      histories=s.get('histories', 0), exhaustive_histories=s.get('exhaustive-histories', 0),
                      operations={k: v for k, v in s.items() if k.startswith('op-')})


def c13(chk):
    b = build('san', ('graphs',), cli=False)
    n = chk.n(60000, 600000)
    st = driver(chk, b, 'graphs', [['--order', str(chk.rng.getrandbits(40)), str(n)] for i in range(8)])
    s = st.stat
    chk.samples += ['%s=%d' % kv for kv in sorted(s.items())]
    return chk.finish(s.get('triples', 0) + s.get('readings', 0) + s.get('groups', 0), len(st.shapes),
                      'a distinct syllable (sounds or text, with position) put through the order laws',
                      triples=s.get('triples', 0), readings=s.get('readings', 0), groups=s.get('groups', 0))


def c28(chk):
    b = build('san', ('values',), cli=False)
    n = chk.n(6000, 60000)
    st = driver(chk, b, 'values', [[str(chk.rng.getrandbits(40)), str(n)] for i in range(8)])
    s = st.stat
    chk.samples += ['%s=%d' % kv for kv in sorted(s.items())]
    if not chk.viol and (s.get('merges', 0) < 1000 or s.get('graphs', 0) < 1000):
        raise HarnessError('operations not exercised')
    return chk.finish(s.get('operations', 0) + s.get('graphs', 0), len(st.shapes),
                      'a history of operations not tried before; every value compared with its model after every operation',
                      histories=s.get('histories', 0), operations=s.get('operations', 0), merges=s.get('merges', 0), graphs=s.get('graphs', 0))
