"""C15: threads of MVR-xchange are started, stopped and waited for in an order that always ends."""
from conc import strip
from report import Check
from c14 import model, short, where

TECH = 'typestate over thread members, stop flags, handlers and waits'


def loopflags(C, fn, depth=0):
    """(flags with the value that keeps the thread function running, contexts it runs until they are stopped, everything understood)"""
    f = C.P.funcs[fn]
    flags, ctxs, ok = {}, set(), True

    def cond(n, pol):
        nonlocal ok
        n = strip(n)
        if n.get('k') == 'un' and n.get('op') == '!':
            return cond(n['e'], not pol)
        if n.get('k') == 'bin' and n.get('op') in ('&&',) and pol:
            cond(n['a'], pol)
            cond(n['b'], pol)
            return
        if n.get('k') == 'bin' and n.get('op') in ('==', '!='):
            for x, y in ((n['a'], n['b']), (n['b'], n['a'])):
                y = strip(y)
                if y.get('k') == 'int':
                    return cond(x, (pol == bool(y['v'])) if n['op'] == '==' else (pol != bool(y['v'])))
        if n.get('k') == 'call' and n.get('n') in ('operator bool', 'load', 'operator=='):
            n = strip(n['o'])
        if n.get('k') == 'mem':
            flags[n['f']] = pol
            return
        if n.get('k') == 'call' and n.get('fn') in C.inl:
            b = [x for x in (C.P.funcs[n['fn']]['body'].get('s') or []) if x.get('k') == 'ret' and x.get('e')]
            if len(b) == 1:
                return cond(b[0]['e'], pol)
        if n.get('k') == 'int':
            return
        ok = False

    def visit(n, inloop):
        if isinstance(n, list):
            for x in n:
                visit(x, inloop)
        elif isinstance(n, dict):
            if n.get('k') in ('while', 'do', 'for') and n.get('c'):
                cond(n['c'], True)
                visit(n.get('b'), True)
                return
            if n.get('k') == 'if' and inloop:
                # if(flag) break/return
                th = n.get('th') or {}
                body = th.get('s') if th.get('k') == 'seq' else [th]
                if body and body[-1].get('k') in ('break', 'ret'):
                    cond(n['c'], False)
            if n.get('k') == 'call':
                ot = (n.get('ot') or '').replace('const ', '')
                if ot.startswith('boost::asio::io_context') and n.get('n') in ('run',):
                    o = strip(n['o'])
                    if o.get('k') == 'mem':
                        ctxs.add(o['f'])
                if n.get('fn') in C.inl and depth < 4:
                    a, b, c = loopflags(C, n['fn'], depth + 1)
                    flags.update(a)
                    ctxs.update(b)
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k not in ('pt', 'caps'):
                    visit(v, inloop)
    visit(f['body'], False)
    return flags, ctxs, ok


def member(f):
    return '::'.join(f.split('::')[-2:])


def waits(C, n, depth=0):
    """does every execution of this statement wait for something"""
    if not isinstance(n, dict):
        return False
    k = n.get('k')
    if k == 'call':
        q = n.get('q') or ''
        if n.get('n') in ('get', 'wait') and ('future' in q or q.startswith('std::condition_variable')):
            return True
        if q == 'std::thread::join':
            return True
        if (n.get('ot') or '').replace('const ', '').startswith('boost::asio::io_context') and n.get('n') == 'run':
            return True
        if n.get('fn') in C.inl and depth < 6:
            if waits(C, C.P.funcs[n['fn']]['body'], depth + 1):
                return True
        return any(waits(C, x, depth) for x in [n.get('o')] + list(n.get('a') or []))
    if k == 'seq':
        return any(waits(C, x, depth) for x in n['s'])
    if k == 'decl':
        return any(waits(C, v.get('init'), depth) for v in n['v'])
    if k == 'if':
        c = strip(n['c'])
        if c.get('k') == 'un' and c.get('op') == '!' and 'stopped' in str(c.get('e')):
            return waits(C, n.get('th'), depth)       # run_for came back before the work was done
        if c.get('k') == 'call' and c.get('q') == 'std::thread::joinable':
            return waits(C, n.get('th'), depth)
        if waits(C, n['c'], depth):
            return True
        return bool(n.get('el')) and waits(C, n['th'], depth) and waits(C, n['el'], depth)
    if k == 'rfor':
        return waits(C, n.get('b'), depth)            # one future per element
    if k in ('for', 'while', 'do'):
        return waits(C, n.get('b'), depth)
    if k == 'try':
        return waits(C, n['b'], depth)
    return any(waits(C, v, depth) for kk, v in n.items() if isinstance(v, dict)) or any(waits(C, x, depth) for kk, v in n.items() if isinstance(v, list) and kk not in ('pt', 'caps') for x in v if isinstance(x, dict))


def after(n, target, out):
    """statements executed after the one that contains target, innermost block first"""
    if n is target:
        return True
    if isinstance(n, dict):
        if n.get('k') == 'lambda':
            return False
        for k, v in n.items():
            if k == 's' and n.get('k') == 'seq':
                for i, x in enumerate(v):
                    if after(x, target, out):
                        out.extend(v[i + 1:])
                        return True
            elif isinstance(v, (dict, list)) and k not in ('pt', 'caps'):
                if after(v, target, out):
                    return True
    elif isinstance(n, list):
        for x in n:
            if after(x, target, out):
                return True
    return False


def errparam(f):
    for p in f.get('p') or []:
        if 'error_code' in (p.get('t') or ''):
            return p
    return None


def guarded(C, f, p, uses):
    """nodes (by predicate uses) that are reached without the error code being known to be clear"""
    bad = []

    def truth(n):
        """('ok'|'err'|None) what the condition being true says, and being false"""
        n = strip(n)
        if n.get('k') == 'un' and n.get('op') == '!':
            a, b = truth(n['e'])
            return b, a
        if n.get('k') == 'bin' and n.get('op') == '&&':
            a, b = truth(n['a']), truth(n['b'])
            return a[0] or b[0], None
        if n.get('k') == 'bin' and n.get('op') == '||':
            a, b = truth(n['a']), truth(n['b'])
            return None, a[1] or b[1]
        if n.get('k') == 'bin' and n.get('op') in ('==', '!='):
            o = {strip(n['a']).get('d'), strip(n['b']).get('d')}
            if p and p['d'] in o:
                other = strip(n['b']) if strip(n['a']).get('d') == p['d'] else strip(n['a'])
                if 'aborted' in str(other):
                    return (None, 'ok') if n['op'] == '==' else ('ok', None)
                return ('ok', 'err') if n['op'] == '==' else ('err', 'ok')
        if n.get('k') == 'call' and n.get('n') in ('operator bool', 'failed', 'value', 'operator!', 'operator int'):
            o = strip(n.get('o') or {}) or {}
            if p and o.get('d') == p['d']:
                return ('ok', 'err') if n['n'] == 'operator!' else ('err', 'ok')
            if o.get('k') == 'mem' or o.get('k') == 'var':
                pass
        if n.get('k') == 'call' and n.get('op') in ('==', '!=') and p:
            xs = [strip(x) for x in (n.get('a') or [])] + ([strip(n['o'])] if n.get('o') else [])
            if any(x.get('d') == p['d'] for x in xs):
                if 'aborted' in str(xs):
                    return (None, 'ok') if n['op'] == '==' else ('ok', None)
                return ('ok', 'err') if n['op'] == '==' else ('err', 'ok')
        if n.get('k') == 'var' and p and n.get('d') == p['d']:
            return ('err', 'ok')
        return None, None

    def walk(n, ok):
        """returns whether ok holds afterwards, or 'end' when control does not go on"""
        if isinstance(n, list):
            for x in n:
                ok = walk(x, ok)
                if ok == 'end':
                    return ok
            return ok
        if not isinstance(n, dict):
            return ok
        k = n.get('k')
        if k == 'lambda':
            return ok
        if uses(n) and not ok:
            bad.append(n)
        if k == 'if':
            a, b = truth(n['c'])
            sc(n['c'], ok)
            r1 = walk(n.get('th'), ok or a == 'ok')
            el = n.get('el') if isinstance(n.get('el'), dict) else None
            r2 = walk(el, ok or b == 'ok') if el else (ok or b == 'ok')
            if r1 == 'end':
                return r2
            if r2 == 'end':
                return r1
            return r1 and r2
        if k in ('ret', 'throw', 'break', 'continue'):
            walk(n.get('e'), ok)
            return 'end'
        if k in ('while', 'for', 'rfor', 'do', 'switch'):
            for kk in ('i', 'r', 'c', 'b', 'inc'):
                walk(n.get(kk), ok)
            return ok
        if k == 'seq':
            return walk(n['s'], ok)
        for kk, v in n.items():
            if isinstance(v, (dict, list)) and kk not in ('pt', 'caps'):
                walk(v, ok)
        return ok

    def sc(n, ok):
        n = strip(n)
        if n.get('k') == 'bin' and n.get('op') == '&&':
            sc(n['a'], ok)
            sc(n['b'], ok or truth(n['a'])[0] == 'ok')
        elif n.get('k') == 'bin' and n.get('op') == '||':
            sc(n['a'], ok)
            sc(n['b'], ok or truth(n['a'])[1] == 'ok')
        else:
            walk(n, ok)
    walk(f['body'], False)
    return bad


def run(P, tier):
    C = model(P)
    ck = Check('C15', 'a thread member is joined before it is reassigned and in the destructor; before every join the flag or context the thread runs on is stopped, before every start the flag is cleared; waits have a condition; locals shared with a handler outlive it; handlers of cancelled timers do nothing; every connection is answered or closed; the server keeps accepting', TECH)
    info = {}
    for t, fns in C.threadfn.items():
        fl, cx, ok = {}, set(), True
        for fn in fns:
            if fn in P.funcs and P.funcs[fn].get('body'):
                a, b, c = loopflags(C, fn)
                fl.update(a)
                cx |= b
                ok = ok and c
            else:
                ok = False
        info[t] = (fl, cx, ok)
        if not ok:
            ck.skip('stop', member(t), 'the condition of the thread function is not understood')
    for e in C.events:
        if e[0] == 'start':
            _, t, st, flags, stopped, k, l, file, chain = e
            key = '%s in %s via %s' % (member(t), short(P, k), short(P, chain[0]))
            ck.ob('reassign', key, st == 'N', where(file, l), 'the thread %s is started again here while an earlier one may not be joined (std::terminate): %s' % (member(t), ' > '.join(short(P, x) for x in chain)))
            fl, cx, ok = info.get(t, ({}, set(), False))
            for f, run_ in sorted(fl.items()):
                if f in C.fields:
                    ck.ob('start', '%s before %s' % (member(f), key), flags.get(f) == run_, where(file, l), 'the thread is started while %s does not say that it shall run, it ends at once' % member(f))
            for c in sorted(cx):
                ck.ob('start', '%s before %s' % (member(c), key), c not in stopped, where(file, l), 'the thread is started on a stopped io_context, it ends at once')
        elif e[0] == 'join':
            _, t, st, flags, stopped, k, l, file, chain = e
            fl, cx, ok = info.get(t, ({}, set(), False))
            key = '%s in %s via %s' % (member(t), short(P, k), short(P, chain[0]))
            for f, run_ in sorted(fl.items()):
                if f in C.fields:
                    ck.ob('stop', '%s before join of %s' % (member(f), key), flags.get(f) == (not run_), where(file, l), '%s is joined but %s has not told it to end: the join never returns' % (member(t), member(f)))
            for c in sorted(cx):
                ck.ob('stop', '%s before join of %s' % (member(c), key), c in stopped, where(file, l), '%s is joined but %s, which it runs, has not been stopped: the join never returns' % (member(t), member(c)))
            ck.ob('joinable', key, st != 'N', where(file, l), '%s may be joined a second time' % member(t))
        elif e[0] == 'detach':
            _, t, st, flags, stopped, k, l, file, chain = e
            ck.ob('detach', '%s in %s' % (member(t), short(P, k)), False, where(file, l), '%s is detached, it can outlive the object it works on' % member(t))
        elif e[0] == 'dtor':
            _, t, ok, k, l, file = e
            ck.ob('dtor', member(t), ok, where(file, l), '%s may still run when the object is destroyed (std::terminate)' % member(t))
        elif e[0] == 'wait':
            _, nm, pred, own, k, l, file, n = e
            f = P.funcs[k]
            loop = any(x.get('k') in ('while', 'do', 'for') and any(y is n for y in C.walk_all(x.get('b'))) for x in C.walk_all(f['body']))
            ck.ob('wait', '%s in %s' % (nm, short(P, k)), pred or loop, where(file, l), 'the wait has no condition: a notification sent before it is lost and a spurious wake-up ends it early')
            ck.ob('wait-lock', '%s in %s' % (nm, short(P, k)), bool(own), where(file, l), 'the lock object handed to the wait owns no mutex')
    # every thread member has a destructor that joins it
    for f, (c, fl) in sorted(C.fields.items()):
        if fl['t'] == 'std::thread' and f in C.threadfn:
            if member(f) not in ck.obl.get('dtor', {}):
                ck.ob('dtor', member(f), False, '', 'no destructor joins %s' % member(f))
    # locals captured by reference
    for k, n, kind, fn, refs in C.launches:
        f = P.funcs[k]
        if not refs:
            continue
        rest = []
        after(f['body'], n, rest)
        ok = any(waits(C, x) for x in rest)
        ck.ob('captured', '%s of %s' % (', '.join(sorted(refs)), short(P, k)), ok, where(f['file'], n['l']), 'a handler that runs later uses %s of %s, which may have returned by then' % (', '.join(sorted(refs)), short(P, k)))
    # buffers of asynchronous operations
    for e in C.events:
        if e[0] != 'asio':
            continue
        _, nm, hs, k, l, file, n = e
        f = P.funcs[k]
        caps = {c.get('d'): c for fn, a in hs for c in (a.get('caps') or []) if c.get('d') is not None}
        for a in n.get('a') or []:
            for x in C.walk_all(a):
                if x.get('k') == 'lambda':
                    break
                if x.get('k') == 'call' and x.get('n') == 'buffer' and x.get('a'):
                    b = x['a'][0]
                    v = None
                    y = strip(b)
                    while isinstance(y, dict):
                        if y.get('k') == 'call' and y.get('o') is not None:
                            y = strip(y['o'])
                        elif y.get('k') == 'call' and y.get('a'):
                            y = strip(y['a'][0])
                        elif y.get('k') == 'mem':
                            v = y
                            y = strip(y.get('b') or {})
                            if y.get('k') == 'this' or not y:
                                break
                        elif y.get('k') == 'var':
                            v = y
                            break
                        elif y.get('k') == 'ctor' and y.get('a'):
                            y = strip(y['a'][0])
                        else:
                            break
                    if v is None:
                        ck.skip('buffer', short(P, k), 'the memory of the buffer is not understood')
                        continue
                    rest = []
                    after(f['body'], n, rest)
                    sync = any(waits(C, z) for z in rest)
                    ok = sync or v.get('k') == 'mem' or v.get('g') or (v.get('d') in caps and not caps[v['d']].get('ref'))
                    ck.ob('buffer', '%s of %s in %s' % (nm, v.get('n'), short(P, k)), ok, where(file, l), 'the memory of %s is read or written after %s has returned, and nothing keeps it' % (v.get('n'), short(P, k)))
        for fn, a in hs:
            h = P.funcs.get(fn)
            if not h or not h.get('body'):
                continue
            name = '%s handler in %s' % (nm, short(P, k))
            p = errparam(h)
            if nm == 'async_wait' and 'signal' not in (n.get('ot') or ''):
                bad = guarded(C, h, p, lambda x: x.get('k') == 'call' and x.get('fn') in C.inl)
                ck.ob('cancelled', name, p is not None and not bad or (p is None and not bad and h.get('cls') == '(lambda)'), where(h['file'], (bad or [h])[0]['l']), 'the handler runs its job although the timer was cancelled')
            if nm == 'async_accept':
                sp = [q for q in h.get('p') or [] if 'error_code' not in (q.get('t') or '')]
                ds = {q['d'] for q in sp}
                bad = guarded(C, h, p, lambda x: x.get('k') == 'var' and x.get('d') in ds)
                ck.ob('accepted', name, not bad, where(h['file'], (bad or [h])[0]['l']), 'the accepted socket is used without a look at the error code')
                for (kk, root), out in C.exits.items():
                    if kk == fn and out is not None:
                        ck.ob('accept-again', name, 'async_accept' in out.must, where(h['file'], h['l']), 'on some path the handler does not accept again: later connections are never answered')
            if nm in ('async_read', 'async_write', 'async_read_some', 'async_write_some', 'async_read_until') and h.get('cls') == '(lambda)':
                if not any(waits(C, z) for z in (lambda r: (after(f['body'], n, r), r)[1])([])):
                    for (kk, root), out in C.exits.items():
                        if kk == fn and out is not None:
                            ok = '@goes-on' in out.must
                            ck.ob('answered', name, ok, where(h['file'], h['l']), 'on some path the handler neither goes on with the connection nor closes it: the peer waits and the session stays in the list')
                if nm.startswith('async_read'):
                    # what was read is used only without an error
                    bufs = set()
                    for x in C.walk_all(n.get('a')):
                        if x.get('k') == 'call' and x.get('n') == 'buffer':
                            for y in C.walk_all(x):
                                if y.get('k') == 'mem' and (strip(y.get('b') or {}) or {'k': 'this'}).get('k') == 'this':
                                    bufs.add(y['f'])
                    bad = guarded(C, h, p, lambda x: x.get('k') == 'mem' and x.get('f') in bufs)
                    if bufs:
                        ck.ob('read', name, not bad, where(h['file'], (bad or [h])[0]['l']), 'what was read is used without a look at the error code')
    ck.need('reassign', 2)
    ck.need('dtor', 2)
    ck.need('stop', 2)
    ck.need('captured', 2)
    ck.need('answered', 2)
    return ck.finish(P, tier)
