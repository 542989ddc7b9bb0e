"""Threads, locks and handlers: an abstract interpreter over the syntax trees.

State at a program point: the locks held, which lock objects own which mutexes, what is known about the std::thread
members (joined or not), the last constant stored into flags, the io_contexts that were stopped. Calls into the
analysed files are walked in place (per calling state); a lambda handed to a thread, a future or an io_context becomes
a root of its own, any other lambda is walked where it is passed. Nothing is executed."""
import re

GUARD = re.compile(r'^(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
SAFE = re.compile(r'^(const )?(std::atomic<|std::(recursive_|timed_|shared_|recursive_timed_)?(timed_)?mutex|std::condition_variable|std::atomic_|std::once_flag|boost::asio::io_context)')
MUTEX = re.compile(r'^(const )?std::(recursive_|timed_|shared_)*(timed_)?mutex')
READS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'data', 'size', 'find', 'empty', 'get', 'operator->', 'operator*', 'count', 'length', 'c_str', 'joinable', 'operator bool'}


class St(object):
    __slots__ = ('held', 'guards', 'th', 'flags', 'stopped', 'pub', 'must')

    def __init__(s, held=(), guards=None, th=None, flags=None, stopped=frozenset(), pub=frozenset(), must=frozenset()):
        s.held, s.guards, s.th, s.flags, s.stopped = tuple(held), dict(guards or {}), dict(th or {}), dict(flags or {}), stopped
        s.pub, s.must = pub, must

    def copy(s):
        return St(s.held, s.guards, s.th, s.flags, s.stopped, s.pub, s.must)

    def sig(s):
        return (s.held, tuple(sorted(s.th.items())), tuple(sorted(s.flags.items())), s.stopped, s.pub)


def inter(d, e):
    return {k: v for k, v in d.items() if e.get(k) == v}


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    held = [x for x in a.held if x in b.held]
    return St(held, inter(a.guards, b.guards), inter(a.th, b.th), inter(a.flags, b.flags), a.stopped & b.stopped, a.pub | b.pub, a.must & b.must)


class Acc(object):
    def __init__(s, key, write, root, held, fn, l, file):
        s.key, s.write, s.root, s.held, s.fn, s.l, s.file = key, write, root, held, fn, l, file


def strip(n):
    while isinstance(n, dict) and n.get('k') == 'cast':
        n = n['e']
    return n


def peel(n):
    """The expression behind casts and copies: T(T(x)) is T(x), T(call()) is call()."""
    n = strip(n)
    while isinstance(n, dict) and n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
        m = strip(n['a'][0])
        if not isinstance(m, dict) or m.get('k') not in ('ctor', 'call') or not GUARD.match(m.get('t') or m.get('c') or ''):
            break
        n = m
    return n


class Conc(object):
    def __init__(s, P, files):
        s.P = P
        s.inl = {k for k, f in P.funcs.items() if f.get('body') and files(f['file'])}
        s.classes = set()
        for k in s.inl:
            c = P.funcs[k].get('cls')
            if c and c != '(lambda)' and c in P.classes:
                s.classes.add(c)
        s.fields = {}
        for c in s.classes:
            for x in P.classes[c]['fields']:
                s.fields[x['f']] = (c, x)
        s.callers = {}
        for k in s.inl:
            for n in s.walk_all(P.funcs[k].get('body')):
                if n.get('k') in ('call', 'fref') and n.get('fn'):
                    s.callers.setdefault(n['fn'], set()).add(k)
        s.acc, s.edges, s.events = [], {}, []
        s.roots = {}          # root -> set of entries (key)
        s.rootthread = {}     # root -> thread field
        s.threadfn = {}       # thread field -> function keys
        s.many = set()
        s.todo, s.done = [], set()
        s.memo = {}
        s.shared = set()      # locals captured by a handler that runs elsewhere
        s.launches = []       # (function key, node, kind, lambda, refs)
        s.funcs_walked = set()
        s.exits = {}

    # -- helpers
    def walk_all(s, n):
        if isinstance(n, dict):
            if 'k' in n:
                yield n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from s.walk_all(v)
        elif isinstance(n, list):
            for v in n:
                yield from s.walk_all(v)

    def mutexid(s, n, fk):
        n = strip(n)
        if n is None:
            return None
        if n.get('k') == 'un' and n.get('op') in ('*', '&'):
            return s.mutexid(n['e'], fk)
        if n.get('k') == 'mem':
            return ('F', n['f'])
        if n.get('k') == 'var':
            if n.get('g'):
                return ('G', n.get('q') or n['n'])
            al = s.alias.get((s.P.funcs[fk]['file'], n['d']))
            return al or ('L', s.P.funcs[fk]['file'], n['d'])
        return None

    def name(s, m):
        return m[1].split('::')[-1] if m[0] in 'FG' else 'local mutex'

    # -- entry
    def run(s):
        s.alias = {}
        for c in sorted(s.classes):
            for k in sorted(s.inl):
                f = s.P.funcs[k]
                if f.get('cls') != c:
                    continue
                public = f.get('acc') == 'public'
                if f.get('ctor') or f.get('dtor') or (public and (f.get('virt') or not s.callers.get(k))):
                    s.entry(k, ('user',), 'ctor' if f.get('ctor') else 'dtor' if f.get('dtor') else 'api')
        for k in sorted(s.inl):
            f = s.P.funcs[k]
            if not f.get('cls') and not s.callers.get(k):
                s.entry(k, ('user',), 'api')
        while s.todo:
            k, root = s.todo.pop()
            s.entry(k, root, 'root')
        return s

    def entry(s, k, root, kind):
        if (k, root) in s.done:
            return
        s.done.add((k, root))
        s.root, s.kind, s.stack, s.localthis = root, kind, [k], False
        s.ctorlive = kind != 'ctor'
        f = s.P.funcs[k]
        st = St()
        if kind == 'ctor':
            for x, (c, fl) in s.fields.items():
                if c == f.get('cls') and fl['t'] == 'std::thread':
                    st.th[x] = 'N'
        for i in f.get('inits') or []:
            st = s.ex(i.get('e'), st, k)
            if i.get('t') == 'std::thread' and i.get('w') and i['e'].get('a'):
                s.assign_thread(i['f'], i['e'], st, k)
        out = s.body(f, st, k)
        s.exits[(k, root)] = out
        if kind == 'dtor' and out is not None:
            for x, (c, fl) in sorted(s.fields.items()):
                if c == f['cls'] and fl['t'] == 'std::thread':
                    s.events.append(('dtor', x, out.th.get(x) == 'N', k, f['el'], f['file']))

    def body(s, f, st, k):
        s.funcs_walked.add(k)
        save = getattr(s, 'rets', None)
        s.rets = []
        o = s.stmt(f['body'], st.copy(), k)
        for r in s.rets:
            o = merge(o, r)
        s.rets = save
        if o is None:
            o = st.copy()
        o.held = st.held if not getattr(s, 'keep', None) else o.held
        return o

    # -- statements
    def stmt(s, n, st, k):
        if st is None or n is None:
            return st
        t = n.get('k')
        if t == 'seq':
            before = set(st.guards)
            for x in n['s']:
                st = s.stmt(x, st, k)
                if st is None:
                    return None
            for d in [d for d in st.guards if d not in before]:
                s.drop(st, d)
            return st
        if t == 'decl':
            for v in n['v']:
                st = s.declare(v, st, k)
            return st
        if t == 'if':
            if n.get('i'):
                st = s.stmt(n['i'], st, k)
            a, b = s.cond(n['c'], st, k)
            a = s.stmt(n.get('th'), a, k) if n.get('th') else a
            b = s.stmt(n.get('el'), b, k) if isinstance(n.get('el'), dict) else b
            return merge(a, b)
        if t in ('while', 'for', 'do', 'rfor'):
            if t == 'for':
                before = set(st.guards)
                st = s.stmt(n.get('i'), st, k)
            if t == 'rfor':
                st = s.ex(n.get('r'), st, k)
            save = getattr(s, 'brk', None)
            out = None
            cur = st
            for _ in range(3):
                s.brk = []
                if t in ('while', 'for') and n.get('c'):
                    cur, ex = s.cond(n['c'], cur, k)
                else:
                    ex = cur if t == 'rfor' or t == 'for' else None
                if t == 'while' and ex is not None and strip(n['c']).get('k') == 'int':
                    ex = None
                b = s.stmt(n.get('b'), cur.copy() if cur else None, k)
                for q in s.brk:
                    ex = merge(ex, q[1]) if q[0] == 'break' else ex
                    b = merge(b, q[1]) if q[0] == 'continue' else b
                if t == 'for' and b is not None and n.get('inc'):
                    b = s.ex(n['inc'], b, k)
                if t == 'do':
                    b, e2 = s.cond(n['c'], b, k) if b else (None, None)
                    ex = merge(ex, e2)
                out = merge(out, ex)
                nxt = merge(cur, b)
                if nxt is None or (cur is not None and nxt.sig() == cur.sig()):
                    break
                cur = nxt
            s.brk = save
            return out
        if t in ('break', 'continue'):
            if getattr(s, 'brk', None) is not None:
                s.brk.append((t, st.copy()))
            return None
        if t == 'ret':
            if n.get('e'):
                e = peel(n['e'])
                g = e.get('k') == 'ctor' and GUARD.match(e.get('c') or e.get('t') or '')
                if not g:
                    st = s.ex(n['e'], st, k)
                    if e.get('k') != 'call':
                        s.retguard = None
                if g:
                    a = [strip(x) for x in e.get('a') or []]
                    if len(a) == 1 and a[0].get('k') == 'var' and a[0].get('d') in st.guards:
                        s.retguard = st.guards[a[0]['d']]
                    else:
                        s.retguard = s.locks_of(e, k)
                        for m in s.retguard:
                            if 'adopt_lock' not in str(a):
                                s.acquire(m, st, k, n.get('l') or e.get('l'))
                elif e.get('k') == 'var' and e.get('d') in st.guards:
                    s.retguard = st.guards[e['d']]
            s.rets.append(st.copy())
            return None
        if t == 'throw':
            s.ex(n.get('e'), st, k)
            return None
        if t == 'switch':
            st = s.ex(n['c'], st, k)
            save = getattr(s, 'brk', None)
            s.brk = []
            out = st
            cur = None
            for x in (n['b'].get('s') or []):
                if x.get('k') in ('case', 'default'):
                    cur = merge(cur, st.copy())
                cur = s.stmt(x, cur, k)
            out = merge(out, cur)
            for q in s.brk:
                if q[0] == 'break':
                    out = merge(out, q[1])
            rest = [q for q in s.brk if q[0] != 'break']
            s.brk = save
            if save is not None:
                save.extend(rest)
            return out
        if t in ('case', 'default'):
            return s.stmt(n.get('s'), st, k) if isinstance(n.get('s'), dict) else st
        if t == 'try':
            o = s.stmt(n['b'], st.copy(), k)
            for h in n['h']:
                o = merge(o, s.stmt(h['b'], st.copy(), k))
            return o
        if t == 'nop':
            return st
        return s.ex(n, st, k)

    def drop(s, st, d):
        own = st.guards.pop(d, ())
        held = list(st.held)
        for m in own:
            if m in held:
                held.remove(m)
        st.held = tuple(held)

    def acquire(s, m, st, k, l):
        for h in st.held:
            if h == m:
                if 'recursive' not in (s.fields.get(m[1], (0, {'t': ''}))[1]['t'] if m[0] == 'F' else ''):
                    s.events.append(('self', m, s.chain(), k, l, s.P.funcs[k]['file']))
            else:
                s.edges.setdefault((h, m), (k, l, s.P.funcs[k]['file']))
        st.held = st.held + (m,)

    def chain(s):
        return list(s.stack)

    def locks_of(s, e, k):
        out = []
        for a in e.get('a') or []:
            t = (strip(a) or {}).get('t') or ''
            if 'defer_lock' in str(strip(a)):
                return []
            if MUTEX.match(t):
                m = s.mutexid(a, k)
                if m:
                    out.append(m)
        return out

    def declare(s, v, st, k):
        t = v.get('t') or ''
        i = v.get('init')
        if GUARD.match(t):
            e = peel(i) if i else None
            if e and e.get('k') == 'ctor':
                a = e.get('a') or []
                ms = s.locks_of(e, k)
                if not a:
                    s.events.append(('empty', v['n'], v['d'], k, v['l'], s.P.funcs[k]['file']))
                    st.guards[v['d']] = ()
                    return st
                if not ms and len(a) == 1 and strip(a[0]).get('k') in ('call', 'ctor'):
                    e = strip(a[0])
                    if e.get('k') == 'ctor':
                        ms = s.locks_of(e, k)
                if e.get('k') == 'ctor':
                    adopt = 'adopt_lock' in str(a)
                    for m in ms:
                        if adopt and m in st.held:
                            continue
                        s.acquire(m, st, k, v['l'])
                    st.guards[v['d']] = tuple(ms)
                    return st
            if e and e.get('k') == 'call':
                s.retguard = None
                s.keep = True
                st = s.ex(e, st, k)
                s.keep = False
                st.guards[v['d']] = tuple(s.retguard or ())
                return st
            st.guards[v['d']] = ()
            return st
        if i:
            if strip(i).get('k') == 'lambda':
                s.lambdavars[v['d']] = (strip(i)['fn'], strip(i))
            st = s.ex(i, st, k)
            if '&' in t and strip(i).get('k') in ('mem', 'var') and MUTEX.match(t):
                m = s.mutexid(i, k)
                if m:
                    s.alias[(s.P.funcs[k]['file'], v['d'])] = m
        return st

    # -- conditions
    def cond(s, n, st, k):
        if st is None:
            return None, None
        m = strip(n)
        if m.get('k') == 'un' and m.get('op') == '!':
            a, b = s.cond(m['e'], st, k)
            return b, a
        if m.get('k') == 'bin' and m.get('op') == '&&':
            a, b = s.cond(m['a'], st, k)
            c, d = s.cond(m['b'], a, k)
            return c, merge(b, d)
        if m.get('k') == 'bin' and m.get('op') == '||':
            a, b = s.cond(m['a'], st, k)
            c, d = s.cond(m['b'], b, k)
            return merge(a, c), d
        if m.get('k') == 'call' and m.get('q') == 'std::thread::joinable':
            st = s.ex(n, st, k)
            o = strip(m['o'])
            a, b = st.copy(), st.copy()
            if o.get('k') == 'mem':
                if st.th.get(o['f']) == 'N':
                    a = None
                if a:
                    a.th[o['f']] = 'Y'
                b.th[o['f']] = 'N'
            return a, b
        if m.get('k') == 'int' and 'v' in m:
            st = s.ex(n, st, k)
            return (st, None) if m['v'] else (None, st)
        st = s.ex(n, st, k)
        return (st.copy(), st.copy()) if st else (None, None)

    # -- expressions
    def lhs(s, n, st, k):
        """the target of a write"""
        n = strip(n)
        t = n.get('k')
        if t == 'mem':
            s.access(n, True, st, k)
            b = strip(n['b']) if n.get('b') else None
            if b and b.get('k') in ('mem', 'idx') and not n.get('ar'):
                return s.lhs(b, st, k)
            return s.ex(n.get('b'), st, k)
        if t == 'var':
            s.access(n, True, st, k)
            return st
        if t == 'idx':
            st = s.lhs(n['b'], st, k)
            return s.ex(n.get('i'), st, k)
        if t == 'call' and n.get('n') in ('operator[]', 'at', 'front', 'back', 'operator*', 'begin', 'end') and n.get('o'):
            st = s.lhs(n['o'], st, k)
            for a in n.get('a') or []:
                st = s.ex(a, st, k)
            return st
        if t == 'un' and n.get('op') == '*':
            return s.ex(n['e'], st, k)
        return s.ex(n, st, k)

    def access(s, n, write, st, k):
        if st is None:
            return
        if n['k'] == 'mem':
            f = n.get('f')
            if f not in s.fields:
                return
            c, fl = s.fields[f]
            if SAFE.match(fl['t']) or fl['t'] == 'std::thread':
                return
            if not s.ctorlive:
                return
            b = strip(n.get('b')) if n.get('b') else {'k': 'this'}
            if b.get('k') == 'this' and s.localthis:
                return
            if b.get('k') == 'var' and not n.get('ar') and '&' not in (b.get('t') or ''):
                return
            if b.get('k') not in ('this', 'var', 'mem', 'call', 'idx', 'un'):
                return
            if b.get('k') == 'mem' and not n.get('ar'):
                return      # part of a member that is looked at itself
            key = ('F', f)
        else:
            if n.get('g') or n.get('d') is None:
                return
            key = ('L', s.P.funcs[k]['file'], n['d'])
            if key not in s.shared or SAFE.match(n.get('t') or ''):
                return
            if key not in st.pub and s.P.funcs[k].get('cls') != '(lambda)':
                return
        held = set(st.held)
        for T, v in st.th.items():
            if v == 'N':
                held.add(('run', T))
        s.acc.append(Acc(key, write, s.root, frozenset(held), k, n['l'], s.P.funcs[k]['file']))

    def handlers(s, a):
        """functions a handler argument stands for"""
        a = strip(a)
        out = []
        if a.get('k') == 'lambda':
            out.append((a['fn'], a))
        elif a.get('k') in ('call', 'ctor') and re.search(r'\bbind|move|forward|function|wrap', (a.get('q') or a.get('c') or '')):
            for x in a.get('a') or []:
                out += s.handlers(x)
        elif a.get('k') == 'un' and a.get('op') == '&':
            out += s.handlers(a['e'])
        elif a.get('k') == 'fref':
            out.append((a['fn'], a))
        elif a.get('k') == 'var':
            l = s.lambdavars.get((a.get('d')))
            if l:
                out.append(l)
        return out

    lambdavars = {}

    def launch(s, root, hs, n, st, k, kind):
        for fn, a in hs:
            refs = []
            if a.get('k') == 'lambda':
                for c in a.get('caps') or []:
                    if c.get('ref') and c.get('d') is not None:
                        s.shared.add(('L', s.P.funcs[k]['file'], c['d']))
                        st.pub = st.pub | {('L', s.P.funcs[k]['file'], c['d'])}
                        refs.append(c['n'])
            s.launches.append((k, n, kind, fn, refs))
            if fn in s.P.funcs and s.P.funcs[fn].get('body'):
                s.roots.setdefault(root, set()).add(fn)
                s.todo.append((fn, root))

    def own_ctx(s, k):
        c = s.P.funcs[k].get('cls')
        f = s.P.funcs[k]
        while c == '(lambda)' and f.get('encl'):
            f = s.P.funcs[f['encl']]
            c = f.get('cls')
        x = [fl['f'] for fl in (s.P.classes.get(c) or {'fields': []})['fields'] if fl['t'] == 'boost::asio::io_context']
        return ('ctx', x[0]) if len(x) == 1 else ('handler', c)

    def assign_thread(s, f, e, st, k):
        s.events.append(('start', f, st.th.get(f), dict(st.flags), st.stopped, k, e['l'], s.P.funcs[k]['file'], s.chain()))
        e = strip(e)
        while e.get('k') in ('ctor', 'call') and not s.threadargs(e) and e.get('a'):
            e = strip(e['a'][0])
        hs = []
        for a in e.get('a') or []:
            hs += s.handlers(a)
        root = ('thr', f)
        s.rootthread[root] = f
        s.many.discard(root)
        for fn, a in hs:
            s.threadfn.setdefault(f, set()).add(fn)
        s.launch(root, hs, e, st, k, 'thread')
        st.th[f] = 'Y'
        s.ctorlive = True

    def threadargs(s, e):
        return any(s.handlers(a) for a in e.get('a') or [])

    def ex(s, n, st, k):
        if st is None or n is None:
            return st
        if isinstance(n, list):
            for x in n:
                st = s.ex(x, st, k)
            return st
        t = n.get('k')
        if t == 'mem':
            s.access(n, False, st, k)
            return s.ex(n.get('b'), st, k)
        if t == 'var':
            s.access(n, False, st, k)
            return st
        if t == 'bin':
            if n.get('as'):
                st = s.ex(n['b'], st, k)
                st = s.lhs(n['a'], st, k)
                a = strip(n['a'])
                if st is not None and a.get('k') == 'mem':
                    b = strip(n['b'])
                    if b.get('k') == 'int' and n['op'] == '=':
                        st.flags[a['f']] = bool(b['v'])
                    else:
                        st.flags.pop(a['f'], None)
                return st
            if n.get('op') in ('&&', '||'):
                a, b = s.cond(n, st, k)
                return merge(a, b)
            return s.ex(n['b'], s.ex(n['a'], st, k), k)
        if t == 'un' and n.get('op') in ('++', '--'):
            return s.lhs(n['e'], st, k)
        if t == 'cond':
            a, b = s.cond(n['c'], st, k)
            return merge(s.ex(n['a'], a, k), s.ex(n['b'], b, k))
        if t == 'lambda':
            return st
        if t == 'call':
            return s.call(n, st, k)
        if t == 'ctor':
            return s.ctor(n, st, k)
        if t == 'del':
            st = s.ex(n['e'], st, k)
            c = (n.get('t') or '').rstrip('* ').replace('const ', '')
            if not c:
                c = (strip(n['e']).get('t') or '').rstrip('* ')
            for q in s.inl:
                f = s.P.funcs[q]
                if f.get('dtor') and f.get('cls') == c:
                    return s.inline(q, st, k, n, False)
            return st
        if t in ('seq', 'if', 'while', 'for', 'do', 'rfor', 'decl', 'ret', 'try', 'switch', 'break', 'continue'):
            return s.stmt(n, st, k)
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key not in ('pt', 'caps'):
                st = s.ex(v, st, k)
        return st

    def inline(s, q, st, k, n, local):
        if len(s.stack) > 14 or q in s.stack:
            return st
        memo = (q, s.root, st.sig(), local or s.localthis, s.ctorlive, frozenset(s.shared))
        if memo in s.memo and not getattr(s, 'keep', None):
            o = s.memo[memo].copy()
            o.guards = dict(st.guards)
            o.must = o.must | st.must
            return o
        keep = getattr(s, 'keep', None)
        s.stack.append(q)
        sl = s.localthis
        s.localthis = local
        g = dict(st.guards)
        inner = st.copy()
        inner.guards = {}
        inner.must = frozenset()
        brk, s.brk = getattr(s, 'brk', None), None
        o = s.body(s.P.funcs[q], inner, q)
        s.brk = brk
        s.localthis = sl
        s.stack.pop()
        o.guards = g
        if not keep:
            o.held = st.held
            s.memo[memo] = o.copy()
        o.must = o.must | st.must
        o.pub = st.pub
        s.keep = False
        return o

    def ctor(s, n, st, k):
        c = n.get('c') or ''
        if c == 'std::thread' and s.threadargs(n):
            st = s.ex(n.get('a'), st, k)
            root = ('thr', None, n.get('l'))
            hs = []
            for a in n['a']:
                hs += s.handlers(a)
            s.launch(root, hs, n, st, k, 'free thread')
            return st
        pt = n.get('pt') or []
        for i, a in enumerate(n.get('a') or []):
            if i < len(pt) and pt[i].endswith('&') and not pt[i].startswith('const'):
                st = s.lhs(a, st, k)
            else:
                st = s.ex(a, st, k)
        return st

    def call(s, n, st, k):
        q = n.get('q') or ''
        nm = n.get('n') or ''
        o = strip(n['o']) if n.get('o') else None
        args = n.get('a') or []
        file = s.P.funcs[k]['file']
        ot = (n.get('ot') or '')
        st = st.copy()
        st.must = st.must | ({nm, '@goes-on'} if nm.startswith('async_') or nm in ('CloseSession', 'close') else {nm})
        # thread members
        if q == 'std::thread::operator=' and o is not None:
            if o.get('k') == 'mem':
                e = strip(args[0])
                st = s.ex(e.get('a'), st, k)
                s.assign_thread(o['f'], e, st, k)
            else:
                st = s.ex(args, st, k)
            return st
        if q in ('std::thread::join', 'std::thread::detach', 'std::thread::swap'):
            st = s.ex(n['o'], st, k)
            if o.get('k') == 'mem':
                s.events.append((nm, o['f'], st.th.get(o['f']), dict(st.flags), st.stopped, k, n['l'], file, s.chain()))
                st.th[o['f']] = 'N'
            if nm == 'join' and st.held:
                s.events.append(('block', 'join', st.held, s.chain(), k, n['l'], file))
            return st
        # flags
        if q.startswith('std::atomic<') or q.startswith('std::__atomic_base') or q.startswith('std::atomic::'):
            if o is not None and o.get('k') == 'mem' and nm in ('operator=', 'store', 'exchange'):
                st = s.ex(args, st, k)
                b = strip(args[0])
                if b.get('k') == 'int':
                    st.flags[o['f']] = bool(b['v'])
                else:
                    st.flags.pop(o['f'], None)
                return st
        # io_context
        if ot.replace('const ', '').startswith('boost::asio::io_context') or 'boost::asio::io_context::' in q:
            st = s.ex(args, s.ex(n.get('o'), st, k), k)
            if o is not None and o.get('k') == 'mem':
                if nm == 'stop':
                    st.stopped = st.stopped | {o['f']}
                elif nm in ('restart', 'reset'):
                    st.stopped = st.stopped - {o['f']}
                elif nm.startswith('run') or nm.startswith('poll'):
                    s.events.append(('run', o['f'], nm, s.root, k, n['l'], file))
            if nm.startswith('run') and st.held:
                s.events.append(('block', nm, st.held, s.chain(), k, n['l'], file))
            return st
        # mutexes and lock objects used by hand
        if o is not None and nm in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared', 'release'):
            if MUTEX.match((o.get('t') or '')):
                m = s.mutexid(o, k)
                if m and nm.startswith('lock'):
                    s.acquire(m, st, k, n['l'])
                elif m and m in st.held:
                    h = list(st.held)
                    h.remove(m)
                    st.held = tuple(h)
                return st
            if GUARD.match(o.get('t') or '') and o.get('k') == 'var':
                own = st.guards.get(o['d'], ())
                if nm == 'lock':
                    for m in own:
                        s.acquire(m, st, k, n['l'])
                elif nm in ('unlock', 'release'):
                    h = list(st.held)
                    for m in own:
                        if m in h:
                            h.remove(m)
                    st.held = tuple(h)
                return st
        if nm == 'operator=' and o is not None and GUARD.match(o.get('t') or '') and o.get('k') == 'var':
            s.drop(st, o['d'])
            e = strip(args[0])
            ms = s.locks_of(e, k) if e.get('k') == 'ctor' else []
            for m in ms:
                s.acquire(m, st, k, n['l'])
            st.guards[o['d']] = tuple(ms)
            return st
        # waiting
        if q.startswith('std::condition_variable') and nm.startswith('wait'):
            lk = strip(args[0])
            own = st.guards.get(lk.get('d'), ())
            npos = 1 + (0 if nm == 'wait' else 1)
            pred = len(args) > npos
            s.events.append(('wait', nm, pred, own, k, n['l'], file, n))
            if set(st.held) - set(own):
                s.events.append(('block', nm, tuple(set(st.held) - set(own)), s.chain(), k, n['l'], file))
            for a in args[1:]:
                for fn, x in s.handlers(a):
                    if fn in s.P.funcs:
                        st = s.inline(fn, st, k, n, s.localthis)
            return st
        if re.match(r'std::(__basic_future|future|shared_future)\b', q) and nm in ('get', 'wait', 'wait_for'):
            st = s.ex(n.get('o'), st, k)
            s.events.append(('future', nm, k, n['l'], file))
            if st.held:
                s.events.append(('block', 'future.' + nm, st.held, s.chain(), k, n['l'], file))
            return st
        if q.startswith('std::this_thread::sleep') and st.held:
            s.events.append(('block', nm, st.held, s.chain(), k, n['l'], file))
        # handlers
        hs, plain = [], []
        for a in args:
            h = s.handlers(a)
            (hs.extend(h) if h else plain.append(a))
        if hs:
            qb = q.split('<')[0]
            if qb in ('boost::asio::post', 'boost::asio::dispatch', 'boost::asio::defer') or (nm in ('post', 'dispatch', 'defer')):
                c = strip(args[0]) if not (o is not None and 'io_context' in ot) else o
                st = s.ex(plain, st, k)
                root = ('ctx', c['f']) if c.get('k') == 'mem' else ('handler', k)
                s.launch(root, hs, n, st, k, 'post')
                return st
            if qb in ('std::async',):
                st = s.ex(plain, st, k)
                for fn, a in hs:
                    r = ('async', fn)
                    s.many.add(r)
                    s.launch(r, [(fn, a)], n, st, k, 'async')
                return st
            if nm.startswith('async_'):
                st = s.ex(n.get('o'), s.ex(plain, st, k), k)
                root = s.root if s.root != ('user',) else s.own_ctx(k)
                s.events.append(('asio', nm, hs, k, n['l'], file, n))
                s.launch(root, hs, n, st, k, 'asio')
                return st
            if nm.startswith('bind') or nm in ('make_shared', 'make_unique') and 'thread' in q:
                return s.ex(plain, st, k)
            # walked in place
            st = s.ex(n.get('o'), s.ex(plain, st, k), k)
            for fn, a in hs:
                if fn in s.inl:
                    st = s.inline(fn, st, k, n, s.localthis)
            return st
        # operands
        for i, a in enumerate(args):
            pt = (n.get('pt') or [])
            t = pt[i] if i < len(pt) else ''
            w = (t.endswith('&') and not t.startswith('const ')) or (t.endswith('*') and not t.startswith('const ') and strip(a).get('k') == 'un')
            if w and strip(a).get('k') == 'un' and strip(a).get('op') == '&':
                st = s.lhs(strip(a)['e'], st, k)
            else:
                st = s.lhs(a, st, k) if w else s.ex(a, st, k)
        if n.get('o') is not None:
            if n.get('cm') or nm in READS:
                st = s.ex(n['o'], st, k)
            else:
                st = s.lhs(n['o'], st, k)
        if n.get('ce') is not None:
            st = s.ex(n['ce'], st, k)
            s.events.append(('callback', st.held, s.chain(), k, n['l'], file))
            return st
        if q.startswith('std::function<') and nm == 'operator()':
            s.events.append(('callback', st.held, s.chain(), k, n['l'], file))
            return st
        fn = n.get('fn')
        if fn in s.inl:
            local = False
            if o is None or o.get('k') == 'this':
                local = s.localthis and o is not None
            elif o.get('k') == 'var' and not n.get('ar') and '&' not in (o.get('t') or '') and '*' not in (o.get('t') or ''):
                local = True
            st = s.inline(fn, st, k, n, local)
        return st
