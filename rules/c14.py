"""C14: data shared between the threads of MVR-xchange is only touched under its lock; locks cannot deadlock."""
import re
from conc import Conc, SAFE
from report import Check

TECH = 'interprocedural lockset analysis with thread roots and join states'


def short(P, k):
    f = P.funcs.get(k)
    if f is None:
        return k.split('(')[0].split('::')[-1]
    n = 0
    while f.get('cls') == '(lambda)' and f.get('encl') in P.funcs:
        f = P.funcs[f['encl']]
        n += 1
    q = '::'.join(f['q'].split('(')[0].split('::')[-2:])
    return ('handler in ' if n else '') + q


def where(file, l):
    return '%s:%s' % (file.replace('/repo/', ''), l)


def model(P):
    return Conc(P, lambda f: '/src/mvrxchange/' in f or has_threads(P, f)).run()


def has_threads(P, f, memo={}):
    if f not in memo:
        memo[f] = any(re.search(r'std::(mutex|thread|condition_variable)\b', x['t']) for c, d in P.classes.items() if d.get('file') == f for x in d.get('fields', []))
    return memo[f]


def shared_classes(C):
    """classes whose objects more than one thread sees: those with threads, mutexes or contexts, and those whose handlers run elsewhere"""
    r = set()
    for c in C.classes:
        if any(SAFE.match(x['t']) or x['t'] == 'std::thread' for x in C.P.classes[c]['fields']):
            r.add(c)
    for k, n, kind, fn, refs in C.launches:
        f = C.P.funcs[k]
        while f.get('cls') == '(lambda)' and f.get('encl'):
            f = C.P.funcs[f['encl']]
        if f.get('cls') in C.classes:
            r.add(f['cls'])
    return r


def run(P, tier):
    C = model(P)
    ck = Check('C14', 'two accesses to the same data from different threads, one of them a write, hold a common mutex (or one thread is joined); every lock object locks a mutex; mutexes are taken in one order and never twice; nothing is waited for and no user callback runs while a mutex is held', TECH)
    sc = shared_classes(C)
    by = {}
    for a in C.acc:
        if a.key[0] == 'F' and C.fields[a.key[1]][0] not in sc:
            continue
        root = a.root
        if root in C.rootthread:
            a.held = a.held | {('run', C.rootthread[root])}
        elif root[0] == 'ctx':
            for t, fns in C.threadfn.items():
                if any(e[0] == 'run' and e[1] == root[1] and e[3] == ('thr', t) for e in C.events):
                    a.held = a.held | {('run', t)}
        by.setdefault(a.key, []).append(a)
    ctxthread = {}
    for e in C.events:
        if e[0] == 'run' and e[3][0] == 'thr':
            ctxthread.setdefault(('ctx', e[1]), e[3])

    def rid(r):
        return ctxthread.get(r, r)
    for key in sorted(by):
        v = by[key]
        roots = {rid(a.root) for a in v}
        many = any(rid(a.root) in C.many for a in v)
        if len(roots) < 2 and not many:
            continue
        name = key[1].split('::')[-2] + '::' + key[1].split('::')[-1] if key[0] == 'F' else 'local'
        writes = [a for a in v if a.write]
        pairs = 0
        bad = {}
        for w in writes:
            for a in v:
                if a is w and rid(a.root) not in C.many:
                    continue
                if rid(a.root) == rid(w.root) and rid(a.root) not in C.many:
                    continue
                pairs += 1
                if not (w.held & a.held):
                    # blame the side that holds no mutex
                    x = w if not any(h[0] != 'run' for h in w.held) else a
                    y = a if x is w else w
                    bad.setdefault(short(P, x.fn), (x, y))
        fns = sorted({short(P, a.fn) for a in v})
        if key[0] == 'L':
            name = 'local of ' + short(P, v[0].fn).replace('handler in ', '')
        for fn in fns:
            if fn in bad:
                x, y = bad[fn]
                ck.ob('race', '%s in %s' % (name, fn), False, where(x.file, x.l), '%s is %s in %s without a mutex that %s (%s) holds too, and the two run in different threads' % (
                    name, 'written' if x.write else 'read', fn, short(P, y.fn), where(y.file, y.l)))
            elif writes and pairs:
                x = next(a for a in v if short(P, a.fn) == fn)
                ck.ob('race', '%s in %s' % (name, fn), True, where(x.file, x.l), 'common lock or joined thread in %d pairs' % pairs)
    # lock objects
    seen = set()
    for k in sorted(C.funcs_walked):
        f = P.funcs[k]
        for n in C.walk_all(f['body']):
            if n.get('k') == 'decl':
                for x in n['v']:
                    from conc import GUARD
                    if GUARD.match(x.get('t') or ''):
                        ck.ob('lock-object', '%s in %s' % (x['n'], short(P, k)), not any(e[0] == 'empty' and e[2] == x['d'] and e[3] == k for e in C.events), where(f['file'], x['l']),
                              'the lock object %s locks no mutex' % x['n'])
            elif n.get('k') == 'ctor' and n.get('c') and GUARD.match(n['c']) and False:
                pass
    # order
    graph = {}
    for (a, b), (k, l, file) in C.edges.items():
        graph.setdefault(a, {})[b] = (k, l, file)

    def reach(a, b, seen):
        if a == b:
            return True
        seen.add(a)
        return any(reach(x, b, seen) for x in graph.get(a, {}) if x not in seen)
    for (a, b), (k, l, file) in sorted(C.edges.items(), key=str):
        ok = not reach(b, a, set())
        ck.ob('order', '%s then %s' % (C.name(a), C.name(b)), ok, where(file, l), '%s is taken while %s is held, and elsewhere the other way round' % (C.name(b), C.name(a)))
    for e in C.events:
        if e[0] == 'self':
            ck.ob('once', '%s in %s' % (C.name(e[1]), short(P, e[3])), False, where(e[5], e[4]), '%s is locked again by the thread that holds it (%s)' % (C.name(e[1]), ' > '.join(short(P, x) for x in e[2])))
        elif e[0] == 'block':
            ck.ob('wait', '%s in %s' % (e[1], short(P, e[4])), False, where(e[6], e[5]), '%s is called while %s is held (%s)' % (e[1], ', '.join(C.name(x) for x in e[2]), ' > '.join(short(P, x) for x in e[3])))
        elif e[0] == 'callback':
            ck.ob('callback', 'callback in %s' % short(P, e[3]), not e[1], where(e[5], e[4]), 'the callback of the application runs while %s is held' % ', '.join(C.name(x) for x in e[1]))
    ck.need('race', 6)
    ck.need('lock-object', 6)
    ck.need('callback', 1)
    return ck.finish(P, tier)
