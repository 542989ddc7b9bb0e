"""Difference-bound analysis of one function (with small helpers inlined): which integer relations hold at a program point.

Values are linear forms {term: coefficient} + constant over canonical terms (locals, members, sizes of containers, results of pure calls).
A state holds constraints a - b <= c between terms, general linear facts, non-null facts, pending facts of searches and boolean locals.
Loops are solved by dropping every constraint that is not stable."""
import re

ZERO = ('0',)
INF = None
UNSIGNED = re.compile(r'^(const )?(unsigned|size_t|uint|Uint|std::size_t|bool|char16_t|char32_t)')
BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'char16_t': 16, 'int': 32, 'unsigned int': 32, 'wchar_t': 32, 'char32_t': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
BUFFER = set(BITS) | {'void', 'float', 'double'}
SIZE = ('size', 'length', 'GetLength', 'GetSize')


def bare(t):
    t = (t or '').strip()
    t = re.sub(r'^const ', '', t)
    t = re.sub(r' ?&+$', '', t)
    return re.sub(r'^const ', '', t).strip()


def integral(t):
    return bare(t) in BITS


def unsigned(t):
    return bool(UNSIGNED.match(bare(t)))


def strip(n):
    while isinstance(n, dict):
        if n.get('k') == 'cast' and n.get('e') is not None:
            n = n['e']
        elif n.get('k') == 'ctor' and n.get('cp') and len(n.get('a') or []) == 1:
            n = n['a'][0]
        else:
            return n
    return n


def lin(term, c=0):
    return ({term: 1} if term != ZERO else {}, c)


def add(x, y, s=1):
    if x is None or y is None:
        return None
    d = dict(x[0])
    for t, k in y[0].items():
        d[t] = d.get(t, 0) + s * k
        if d[t] == 0:
            del d[t]
    return d, x[1] + s * y[1]


def within(loc, t):
    """term t mentions location loc"""
    if t == loc:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(within(loc, x) for x in t)
    return False


class S(object):
    __slots__ = ('c', 'lf', 'nn', 'pend', 'bools', 'killed', 'ali', 'closed')

    def __init__(s):
        s.c, s.lf, s.nn, s.pend, s.bools, s.killed, s.ali = {}, {}, frozenset(), {}, {}, frozenset(), {}
        s.closed = None

    def copy(s):
        r = S()
        r.c, r.lf, r.nn, r.pend, r.bools, r.killed, r.ali = dict(s.c), dict(s.lf), s.nn, dict(s.pend), dict(s.bools), s.killed, dict(s.ali)
        r.closed = s.closed
        return r

    def assign_from(s, o):
        for a in S.__slots__:
            setattr(s, a, getattr(o, a))

    # a - b <= k
    def le(s, a, b, k):
        if a == b:
            return
        o = s.c.get((a, b))
        if o is None or k < o:
            s.c[(a, b)] = k
            s.closed = None

    def fact(s, f):
        """linear form f <= 0"""
        d, k = f
        pos = [t for t, x in d.items() if x == 1]
        neg = [t for t, x in d.items() if x == -1]
        if len(d) > 2 or len(pos) > 1 or len(neg) > 1 or len(pos) + len(neg) != len(d):
            key = frozenset(d.items())
            if key not in s.lf or s.lf[key] < k:
                s.lf[key] = k
            return
        s.le(pos[0] if pos else ZERO, neg[0] if neg else ZERO, -k)

    def close(s):
        if s.closed is not None:
            return s.closed
        c = dict(s.c)
        terms = {t for p in c for t in p}
        for t in list(terms):
            if t != ZERO and always_nonneg(t):
                if c.get((ZERO, t), 1) > 0:
                    c[(ZERO, t)] = 0
        terms.add(ZERO)
        out = {}
        for (a, b), k in c.items():
            out.setdefault(a, {})[b] = k
        for m in terms:
            om = out.get(m)
            if not om:
                continue
            for a in terms:
                oa = out.get(a)
                if not oa or m not in oa or a == m:
                    continue
                k = oa[m]
                for b, k2 in om.items():
                    if b != a:
                        v = oa.get(b)
                        if v is None or k + k2 < v:
                            oa[b] = k + k2
                    elif k + k2 < 0:
                        out = None
                        break
                if out is None:
                    break
            if out is None:
                break
        s.closed = out if out is not None else 'false'
        return s.closed

    def dead(s):
        return s.close() == 'false'

    def bound(s, a, b):
        """least k known with a - b <= k, None when unknown"""
        if a == b:
            return 0
        c = s.close()
        if c == 'false':
            return -10**30
        v = c.get(a, {}).get(b)
        if v is None and a == ZERO and always_nonneg(b):
            return 0
        if b != ZERO and a != ZERO:
            x, y = s.bound(a, ZERO), s.bound(ZERO, b)
            if x is not None and y is not None and (v is None or x + y < v):
                v = x + y
        return v

    def holds(s, f, deep=True):
        """f <= 0"""
        d, k = f
        if not d:
            return k <= 0
        pos = [t for t, x in d.items() if x == 1]
        neg = [t for t, x in d.items() if x == -1]
        if len(d) <= 2 and len(pos) <= 1 and len(neg) <= 1 and len(pos) + len(neg) == len(d):
            b = s.bound(pos[0] if pos else ZERO, neg[0] if neg else ZERO)
            if b is not None and b + k <= 0:
                return True
        elif len(d) <= 4 and all(x in (1, -1) for x in d.values()):
            # pair every positive term with a negative one
            for p in pairings(pos, neg):
                t = k
                for a, b in p:
                    v = s.bound(a, b)
                    if v is None:
                        t = None
                        break
                    t += v
                if t is not None and t <= 0:
                    return True
        if deep:
            for key, k0 in s.lf.items():
                g = add(f, (dict(key), k0), -1)
                if len(g[0]) <= len(d) + 1 and s.holds(g, False):
                    return True
        return False

    def forget(s):
        """drop what only served to evaluate finished statements"""
        s.killed = frozenset(l for l in s.killed if not passing(l))
        ts = {t for p in s.c for t in p if passing(t)}
        if len(ts) < 5:
            return
        n = s.close()
        if n == 'false':
            return
        s.c = {(a, b): k for a, m in n.items() if a not in ts for b, k in m.items() if b not in ts}
        s.closed = None
        s.lf = {k: v for k, v in s.lf.items() if not passing(tuple(k))}

    def kill(s, loc):
        n = {p: k for p, k in s.close().items()} if s.close() != 'false' else {}
        c = {}
        for a, m in n.items():
            if within(loc, a):
                continue
            for b, k in m.items():
                if not within(loc, b):
                    c[(a, b)] = k
        s.c = c
        s.closed = None
        s.lf = {k: v for k, v in s.lf.items() if not within(loc, k)}
        s.nn = frozenset(x for x in s.nn if not within(loc, x))
        s.pend = {k: v for k, v in s.pend.items() if not within(loc, (k,)) and not within(loc, v)}
        s.bools = {k: v for k, v in s.bools.items() if not within(loc, k) and not within(loc, v[1])}
        s.killed = s.killed | {loc}

    def set(s, loc, v):
        """loc = linear form v"""
        if v is not None and v[0].get(loc):
            if v[0] == {loc: 1}:
                k = v[1]
                c = {}
                cl = s.close()
                if cl == 'false':
                    return
                for a, m in cl.items():
                    for b, w in m.items():
                        if a == loc:
                            c[(a, b)] = w + k
                        elif b == loc:
                            c[(a, b)] = w - k
                        else:
                            c[(a, b)] = w
                s.c = {p: w for p, w in c.items() if not any(x != loc and within(loc, x) for x in p)}
                s.closed = None
                s.lf = {k2: w for k2, w in s.lf.items() if not within(loc, k2)}
                s.pend = {a: b for a, b in s.pend.items() if not within(loc, (a,)) and not within(loc, b)}
                s.bools = {a: b for a, b in s.bools.items() if not within(loc, a) and not within(loc, b[1])}
                s.killed = s.killed | {loc}
                return
            if v[0][loc] == 1 and len(v[0]) == 2 and not any(within(loc, x) for x in v[0] if x != loc):
                # loc grows by another term: what was known about the old value is known about new - term
                old = add(add(lin(loc), ({x: k for x, k in v[0].items() if x != loc}, v[1]), -1), ({}, 0))
                fs = []
                for (a, b), k in s.c.items():
                    if loc in (a, b) and not any(x != loc and within(loc, x) for x in (a, b)):
                        f = ({}, -k)
                        for t, sg in ((a, 1), (b, -1)):
                            f = add(f, old if t == loc else (({}, 0) if t == ZERO else lin(t)), sg)
                        fs.append(f)
                for key, k0 in s.lf.items():
                    d = dict(key)
                    if loc in d and not any(x != loc and within(loc, x) for x in d):
                        m = d.pop(loc)
                        f = add((d, k0), ({x: y * m for x, y in old[0].items()}, old[1] * m))
                        fs.append(f)
                s.kill(loc)
                for f in fs:
                    s.fact(f)
                return
            v = None
        s.kill(loc)
        if v is None:
            return
        s.fact(add(lin(loc), v, -1))
        s.fact(add(v, lin(loc), -1))


def pairings(pos, neg):
    n = max(len(pos), len(neg))
    if n > 3:
        return []
    pos = pos + [ZERO] * (n - len(pos))
    neg = neg + [ZERO] * (n - len(neg))
    import itertools
    return [list(zip(pos, q)) for q in set(itertools.permutations(neg))]


def always_nonneg(t):
    return t[0] in ('sz', 'cap', 'u', 'strlen')


def join(a, b):
    if a is None or a.dead():
        return b
    if b is None or b.dead():
        return a
    r = S()
    ca, cb = a.close(), b.close()
    once = {t for p in a.c for t in p} ^ {t for p in b.c for t in p}
    once = {t for t in once if passing(t)}
    for x in set(ca) | set(cb):
        if x in once:
            continue
        keys = set(ca.get(x, ())) | set(cb.get(x, ()))
        for y in keys:
            if y in once:
                continue
            v, w = a.bound(x, y), b.bound(x, y)
            if v is not None and w is not None:
                r.c[(x, y)] = max(v, w)
    for k in set(a.lf) | set(b.lf):
        d = dict(k)
        va = a.lf.get(k)
        vb = b.lf.get(k)
        if va is not None and vb is not None:
            r.lf[k] = min(va, vb)
        elif va is not None and b.holds((d, va), False):
            r.lf[k] = va
        elif vb is not None and a.holds((d, vb), False):
            r.lf[k] = vb
    r.nn = a.nn & b.nn
    r.pend = {k: v for k, v in a.pend.items() if b.pend.get(k) == v}
    r.bools = {k: v for k, v in a.bools.items() if b.bools.get(k) is v}
    r.ali = {k: v for k, v in a.ali.items() if b.ali.get(k) == v}
    r.killed = a.killed | b.killed
    return r


def widen(a, b, T=()):
    """constraints of a that also hold in b"""
    r = S()
    ca = a.close()
    if ca == 'false':
        return b
    for x, m in ca.items():
        for y, v in m.items():
            w = b.bound(x, y)
            if w is not None and w <= v:
                r.c[(x, y)] = v
            elif w is not None and y == ZERO:
                for t in T:
                    if t >= w:
                        r.c[(x, y)] = t
                        break
    r.lf = {k: v for k, v in a.lf.items() if b.lf.get(k, v - 1) >= v}
    r.nn = a.nn & b.nn
    r.pend = {k: v for k, v in a.pend.items() if b.pend.get(k) == v}
    r.bools = {k: v for k, v in a.bools.items() if b.bools.get(k) is v}
    r.ali = {k: v for k, v in a.ali.items() if b.ali.get(k) == v}
    r.killed = a.killed | b.killed
    return r


def lasting(locs):
    """without the locals of functions run in place"""
    return {l for l in locs if not passing(l)}


def passing(l):
    if isinstance(l, tuple):
        if l and (l[0] in ('o', 'u', 'obj') or l[0] == 'v' and l[1] >= 1000):
            return True
        return any(passing(x) for x in l)
    return False


def same(a, b):
    return a.close() == b.close() and a.lf == b.lf and a.nn == b.nn and lasting(a.killed) == lasting(b.killed) and set(a.pend) == set(b.pend) and set(a.bools) == set(b.bools)


class Frame(object):
    def __init__(s, key, fn, this, env, up):
        s.key, s.fn, s.this, s.env, s.up = key, fn, this, env, up
        s.rets, s.brk, s.cont = [], [], []
        s.id = (up.id + 1) if up else 0


class Zone(object):
    """hooks: at(node, state) is called for every call/ctor/idx/new node once, with the state before it"""
    def __init__(s, P, at=None, inline=None, on=None, result=None, invariants=None):
        s.P, s.at, s.inline_ok, s.on, s.result, s.invariants = P, at, inline, on, result, invariants
        s.rec = 1
        s.fr = None
        s.fresh = 0
        s.depth = 0
        s.uid = 0
        s.shared_memo = {}
        s.unwrapped = {}
        s.heads = {}
        s.thr = {}

    def run(s, key, state=None):
        f = s.P.funcs[key]
        s.fr = Frame(key, f, ('this',), {}, None)
        st = state or S()
        s.entry(f, st)
        out = s.stmt(f['body'], st)
        for e, r in s.fr.rets:
            out = join(out, r)
        s.out = out
        return out

    def entry(s, f, st):
        for p in f['p']:
            if unsigned(p['t']) and not p['t'].rstrip().endswith('*'):
                st.le(ZERO, ('v', s.fr.id, p['d']), 0)
        if s.invariants:
            s.invariants(s, f, st)
        for i in f.get('inits') or []:
            v = s.ev(i.get('e'), st)
            if i.get('f') and i.get('e') is not None:
                s.store(('m', s.fr.this, i['f']), i.get('t'), v, st, i['e'])
                s.ctorsize(('m', s.fr.this, i['f']), strip(i['e']), st)

    # ---- canonical locations
    def shared(s, key):
        """locals of a function that a lambda inside it writes"""
        r = s.shared_memo.get(key)
        if r is None:
            r = set()
            for n in walk(s.P.funcs[key]['body']):
                if n.get('k') == 'lambda' and n.get('fn') in s.P.funcs:
                    refs = {c.get('d') for c in n.get('caps') or [] if c.get('ref')}
                    if refs:
                        for x in walk(s.P.funcs[n['fn']]['body']):
                            t = written(x)
                            if t is not None and strip(t).get('k') == 'var' and strip(t).get('d') in refs:
                                r.add(strip(t)['d'])
            s.shared_memo[key] = r
        return r

    def loc(s, n, st):
        n = strip(n)
        if n is None or not isinstance(n, dict):
            return None
        k = n.get('k')
        if k == 'var':
            if n.get('g'):
                return ('g', n.get('q') or n['n'])
            d = n.get('d')
            if d in s.fr.env:
                v = s.fr.env[d]
                if v[0] == 'loc':
                    return v[1]
                return ('v', s.fr.id, d)
            a = st.ali.get(('v', s.fr.id, d))
            if a is not None:
                return a
            return ('v', s.fr.id, d)
        if k == 'this':
            return ('this*',) if s.fr.this == ('this',) else ('&', s.fr.this)
        if k == 'mem':
            b = strip(n['b'])
            if b is not None and b.get('k') == 'this':
                return ('m', s.fr.this, n['f'])
            l = s.loc(b, st)
            if l is None:
                return None
            if n.get('ar'):
                l = s.deref(l)
            return ('m', l, n['f'])
        if k == 'un' and n.get('op') == '*':
            l = s.loc(n['e'], st)
            return s.deref(l) if l is not None else None
        if k == 'un' and n.get('op') == '&':
            l = s.loc(n['e'], st)
            return ('&', l) if l is not None else None
        if k == 'un' and n.get('op') in ('++', '--') and not n.get('post'):
            return s.loc(n['e'], st)
        if k == 'idx':
            b = s.loc(n['b'], st)
            i = s.pure(n['i'], st)
            return ('i', b, fz(i)) if b is not None and i is not None else None
        if k == 'call':
            if n.get('n') in ('operator->', 'operator*', 'get') and n.get('o') is not None and not n.get('a'):
                l = s.loc(n['o'], st)
                if l is None:
                    return None
                return s.deref(l) if n['n'] == 'operator*' else l
            if n.get('n') in ('operator[]', 'at') and n.get('o') is not None and len(n.get('a') or []) == 1:
                b = s.loc(n['o'], st)
                i = s.pure(n['a'][0], st)
                return ('i', b, fz(i)) if b is not None and i is not None else None
            if n.get('n') in ('front', 'back', 'c_str', 'data') and n.get('o') is not None:
                b = s.loc(n['o'], st)
                return (n['n'], b) if b is not None else None
            if n.get('n') in ('move', 'forward') and len(n.get('a') or []) == 1:
                return s.loc(n['a'][0], st)
            x = s.simple(n)
            if x is not None:
                f, e = x
                return s.inframe(n, f, st, lambda: s.loc(e, st))
        return None

    def deref(s, l):
        if l[0] == '&':
            return l[1]
        if l == ('this*',):
            return ('this',)
        return ('*', l)

    def simple(s, n):
        """(function, expression) of an own function that only returns an expression"""
        f = s.P.funcs.get(n.get('fn'))
        if f is None or s.depth > 4 or (n.get('virt') and not n.get('nv') and s.P.overriders.get(n['fn'])):
            return None
        b = f.get('body')
        if not isinstance(b, dict) or b.get('k') != 'seq':
            return None
        x = [y for y in b['s'] if isinstance(y, dict) and y.get('k') not in ('nop',)]
        if len(x) == 1 and x[0].get('k') == 'ret' and x[0].get('e') is not None and f.get('cls') != '(lambda)':
            return f, x[0]['e']
        return None

    def bind(s, n, f, st):
        env = {}
        for p, a in zip(f['p'], n.get('a') or []):
            l = s.loc(a, st)
            if p['t'].endswith('&') and l is not None:
                env[p['d']] = ('loc', l)
            else:
                env[p['d']] = ('val', s.pure(a, st), l)
        this = s.fr.this
        if n.get('o') is not None:
            o = strip(n['o'])
            if o.get('k') != 'this':
                this = s.loc(n['o'], st)
                if this is not None and (n.get('ar') or str(n.get('ot') or '').endswith('*')):
                    this = s.deref(this)
                if this is None:
                    s.fresh += 1
                    this = ('obj', s.fresh)
        return env, this

    def inframe(s, n, f, st, what):
        env, this = s.bind(n, f, st)
        old = s.fr
        s.uid += 1
        s.fr = Frame(f['key'], f, this, env, old)
        s.fr.id = 1000 + s.uid
        s.depth += 1
        for p in f['p']:
            e = env.get(p['d'])
            if e and e[0] == 'val' and e[1] is not None:
                st.set(('v', s.fr.id, p['d']), e[1])
        try:
            return what()
        finally:
            s.depth -= 1
            s.fr = old

    # ---- values
    def pure(s, n, st):
        """the linear value of an expression without looking at its effects"""
        at, s.at = s.at, None
        try:
            c = st.copy()
            v = s.ev(n, c)
            if v is not None:
                for t in v[0]:
                    carry(c, st, t)
            return v
        finally:
            s.at = at

    def opaque(s, t=None):
        s.fresh += 1
        return ('u' if t and unsigned(t) else 'o', s.fresh, id(s.fr))

    def typed(s, term, t, st):
        if t and integral(t):
            b = BITS[bare(t)]
            if unsigned(t):
                st.le(ZERO, term, 0)
                if b < 64:
                    st.le(term, ZERO, 2 ** b - 1)
            elif b < 64:
                st.le(ZERO, term, 2 ** (b - 1))
                st.le(term, ZERO, 2 ** (b - 1) - 1)
        return term

    def narrowed(s, v, t, st, ft=None):
        """value v converted to type t"""
        if v is None or t is None or not integral(t):
            return v
        b = BITS[bare(t)]
        if not v[0]:
            if b < 64 and not (0 <= v[1] < 2 ** b if unsigned(t) else -2 ** (b - 1) <= v[1] < 2 ** (b - 1)):
                return ({}, v[1] % 2 ** b if unsigned(t) else (v[1] + 2 ** (b - 1)) % 2 ** b - 2 ** (b - 1))
            if b == 64 and unsigned(t) and v[1] < 0:
                return ({}, v[1] % 2 ** 64)
            return v
        if b <= 16:
            lo = 0 if unsigned(t) else -2 ** (b - 1)
            hi = 2 ** b - 1 if unsigned(t) else 2 ** (b - 1) - 1
            if st.holds(add(v, ({}, -hi))) and st.holds(add(({}, lo), v, -1)):
                return v
            o = s.typed(s.opaque(t), t, st)
            return lin(o)
        if b == 32 and ft is not None and integral(ft) and BITS[bare(ft)] == 64:
            if not unsigned(t):
                # a wrapped difference is itself again when it is narrowed
                w = s.unwrapped.get(next(iter(v[0])), v) if len(v[0]) == 1 and v[1] == 0 else v
                if w is not None and all(q[0] == 'sz' for q in w[0]) and abs(w[1]) < 2 ** 16 and sum(1 for x in w[0].values() if x == 1) <= 1 and all(x == 1 for x in w[0].values()):
                    return w
            if st.holds(add(v, ({}, -(2 ** (32 if unsigned(t) else 31) - 1)))):
                return v
            # the low part is not larger than a value that is not negative
            if st.holds(add(({}, 0), v, -1)):
                o = s.typed(s.opaque(t), t, st)
                st.fact(add(lin(o), v, -1))
                return lin(o)
            return lin(s.typed(s.opaque(t), t, st))
        return v

    def ev(s, n, st):
        """evaluate with effects; the linear value of an integer or None"""
        if n is None or not isinstance(n, dict):
            return None
        k = n.get('k')
        if k in ('int', 'enum', 'char', 'bool'):
            v = n.get('cv', n.get('v'))
            if isinstance(v, bool):
                return ({}, int(v))
            try:
                return ({}, int(v))
            except (TypeError, ValueError):
                return None
        if 'cv' in n and k not in ('call', 'bin', 'cond') or (k in ('bin',) and 'cv' in n):
            try:
                return ({}, int(n['cv']))
            except (TypeError, ValueError):
                pass
        if k == 'null':
            return ({}, 0)
        if k == 'var':
            d = n.get('d')
            if n.get('g'):
                g = s.P.globals.get(n.get('q') or '')
                if g and str(g.get('t') or '').startswith('const ') and isinstance(g.get('init'), dict) and 'cv' in g['init']:
                    try:
                        return ({}, int(g['init']['cv']))
                    except (TypeError, ValueError):
                        pass
            e = s.fr.env.get(d)
            if e and e[0] == 'val' and ('v', s.fr.id, d) not in st.killed and e[1] is not None:
                return e[1]
            l = s.loc(n, st)
            return s.rd(l, n.get('t'), st)
        if k in ('mem', 'idx'):
            if k == 'idx':
                s.see(n, st)
                s.ev(n.get('b'), st)
                s.ev(n.get('i'), st)
            elif n.get('b') is not None and strip(n['b']).get('k') not in ('this', 'var', 'mem'):
                s.ev(n['b'], st)
            return s.rd(s.loc(n, st), n.get('t'), st)
        if k == 'cast':
            v = s.ev(n['e'], st)
            return s.narrowed(v, n.get('t'), st, n.get('ft'))
        if k == 'un':
            op = n.get('op')
            if op in ('++', '--'):
                l = s.loc(n['e'], st)
                old = s.ev(n['e'], st)
                t = n['e'].get('t') if isinstance(n['e'], dict) else None
                if l is None:
                    return None
                if old is not None and old[0] == {l: 1} and old[1] == 0:
                    if n.get('post'):
                        # the old value
                        o = lin(s.opaque(t))
                        st.set(list(o[0])[0], old)
                        st.set(l, (old[0], 1 if op == '++' else -1))
                        if unsigned(t) and op == '--':
                            s.wrapdown(l, t, st)
                        return o
                    st.set(l, (old[0], 1 if op == '++' else -1))
                else:
                    st.kill(l)
                return s.rd(l, t, st)
            v = s.ev(n['e'], st)
            if op == '-' and v is not None and not v[0]:
                return ({}, -v[1])
            if op == '+':
                return v
            if op == '*':
                return s.rd(s.loc(n, st), n.get('t'), st)
            if op == '!':
                o = s.opaque('bool')
                st.le(ZERO, o, 0)
                st.le(o, ZERO, 1)
                return lin(o)
            return None
        if k == 'bin':
            return s.binary(n, st)
        if k == 'cond':
            s1 = s.refine(n['c'], st.copy(), True)
            s2 = s.refine(n['c'], st.copy(), False)
            o = s.opaque(n.get('t'))
            for x, e in ((s1, n.get('a')), (s2, n.get('b'))):
                if x is not None:
                    v = s.ev(e, x)
                    x.set(o, v)
            r = join(s1, s2)
            if r is not None:
                st.assign_from(r)
            return lin(o) if integral(n.get('t')) else None
        if k == 'call':
            return s.call(n, st)
        if k == 'ctor':
            if n.get('cp') and len(n.get('a') or []) == 1:
                return s.ev(n['a'][0], st)
            for a in n.get('a') or []:
                s.ev(a, st)
            s.see(n, st)
            s.args(n, st)
            return None
        if k == 'new':
            v = s.ev(n.get('sz'), st) if n.get('sz') else None
            for a in n.get('pl') or []:
                s.ev(a, st)
            s.ev(n.get('init'), st)
            s.see(n, st)
            return None
        if k == 'del':
            s.ev(n.get('e'), st)
            s.see(n, st)
            return None
        if k == 'lambda':
            return None
        if k == 'list':
            for a in n.get('a') or []:
                s.ev(a, st)
            if len(n.get('a') or []) == 1 and integral(n.get('t')):
                return s.ev(n['a'][0], st)
            return None
        if k in ('throw', 'other', 'stmtexpr', 'mfref', 'fref', 'str'):
            for a in n.get('a') or []:
                s.ev(a, st)
            if k == 'throw':
                s.ev(n.get('e'), st)
            if k == 'stmtexpr':
                r = s.stmt(n['s'], st)
                if r is not None:
                    st.assign_from(r)
            return None
        return None

    def wrapdown(s, l, t, st):
        if st.bound(ZERO, l) is None or st.bound(ZERO, l) > 0:
            st.kill(l)

    def rd(s, l, t, st):
        if l is None or not t or not (integral(t)):
            return None
        root = l
        while isinstance(root, tuple) and root and root[0] in ('m', 'i', '*', '&'):
            root = root[1]
        if isinstance(root, tuple) and root[0] == 'v' and root[1] == 0 and root[2] in s.shared(s.top().key):
            return lin(s.typed(s.opaque(t), t, st))
        if unsigned(t):
            st.le(ZERO, l, 0)
        if BITS[bare(t)] <= 32:
            s.typed(l, t, st)
        return lin(l)

    def top(s):
        f = s.fr
        while f.up is not None:
            f = f.up
        return f

    def see(s, n, st):
        if s.at and s.rec:
            s.at(s, n, st)

    def binary(s, n, st):
        op = n['op']
        if n.get('as'):
            l = s.loc(n['a'], st)
            if strip(n['a']).get('k') not in ('var', 'mem'):
                s.ev(n['a'], st)
            v = s.ev(n['b'], st)
            lt = n['a'].get('t') if isinstance(n['a'], dict) else None
            if op != '=':
                old = s.rd(l, lt, st)
                if op in ('+=', '-=') and old is not None and v is not None:
                    v = s.sum(old, v, 1 if op == '+=' else -1, lt, st)
                    if v is not None and len(v[0]) == 1 and list(v[0])[0][0] in ('o', 'u') and l is not None and op == '+=':
                        pass
                else:
                    v = None
            s.store(l, lt, v, st, n['b'])
            if s.on and s.rec:
                s.on(s, n, l, v, st)
            return s.rd(l, lt, st) if lt and integral(lt) else None
        if op in ('&&', '||'):
            # effects of the right side may happen
            s1 = s.refine(n['a'], st.copy(), op == '&&')
            s2 = s.refine(n['a'], st.copy(), op != '&&')
            if s1 is not None:
                s.ev(n['b'], s1)
            r = join(s1, s2)
            if r is not None:
                st.assign_from(r)
            return None
        a = s.ev(n['a'], st)
        b = s.ev(n['b'], st)
        if op == ',':
            return b
        if op in ('+', '-'):
            return s.sum(a, b, 1 if op == '+' else -1, n.get('t'), st)
        t = n.get('t')
        if op == '*' and a is not None and b is not None and (not a[0] or not b[0]):
            c, v = (a[1], b) if not a[0] else (b[1], a)
            return ({x: y * c for x, y in v[0].items()}, v[1] * c) if c else ({}, 0)
        if op == '*' and integral(t):
            return lin(('mul', fz(a), fz(b))) if a is not None and b is not None else None
        if op == '/' and b is not None and not b[0] and b[1] > 0 and a is not None and integral(t):
            o = lin(('div', fz(a), b[1]))
            if st.holds(add(({}, 0), a, -1)):
                st.le(ZERO, list(o[0])[0], 0)
                st.fact(add(o, a, -1))
            return o
        if op == '%' and b is not None and integral(t):
            o = lin(s.opaque(t))
            if a is not None and st.holds(add(({}, 0), a, -1)):
                st.le(ZERO, list(o[0])[0], 0)
                st.fact(add(add(o, b, -1), ({}, 1)))
                st.fact(add(o, a, -1))
            return o
        if op == '&' and b is not None and not b[0] and b[1] >= 0 and integral(t):
            o = lin(s.opaque(t))
            st.le(ZERO, list(o[0])[0], 0)
            st.fact(add(o, b, -1))
            return o
        if op == '>>' and a is not None and st.holds(add(({}, 0), a, -1)):
            o = lin(s.opaque(t))
            st.le(ZERO, list(o[0])[0], 0)
            st.fact(add(o, a, -1))
            return o
        return None

    def sum(s, a, b, sg, t, st):
        """a + sg * b; unsigned differences are only exact when they cannot wrap"""
        v = add(a, b, sg)
        if v is None:
            return None
        if t and integral(t) and unsigned(t):
            bits = BITS[bare(t)]
            if sg == -1 or any(x < 0 for x in v[0].values()) or v[1] < 0:
                if not st.holds(add(({}, 0), v, -1)):
                    o = s.typed(('wrap', fz(v), bits), t, st)
                    s.unwrapped[o] = v
                    return lin(o)
            if bits <= 32 and v[0] and not st.holds(add(v, ({}, -(2 ** bits - 1)))) and not (sg == -1):
                return lin(s.typed(s.opaque(t), t, st))
        return v

    def store(s, l, t, v, st, e=None):
        if l is None:
            return
        if t and integral(t):
            v = s.narrowed(v, t, st, (e or {}).get('t') if isinstance(e, dict) else None)
        else:
            v = None
        b = None
        if t and bare(t) == 'bool' and e is not None:
            b = e
        pend = s.find(e, st) if e is not None else None
        st.set(l, v)
        if pend:
            st.pend[l] = pend
        if t and integral(t) and l[0] != 'i':
            if unsigned(t):
                st.le(ZERO, l, 0)
        if b is not None and pureexpr(b):
            terms = tuple(sorted({repr(x): x for x in s.mentions(b, st)}.items()))
            if not any(within(l, x) for _, x in terms):
                st.bools[l] = (b, tuple(x for _, x in terms), s.fr)
        e0 = strip(e) if e is not None else None
        if e0 is not None and e0.get('k') == 'new' and e0.get('arr'):
            v = s.pure(e0.get('sz'), st)
            if v is not None:
                st.fact(add(lin(('cap', l)), v, -1))
                st.fact(add(v, lin(('cap', l)), -1))
            st.nn = st.nn | {l}
        elif e0 is not None and e0.get('k') == 'call' and e0.get('n') in ('malloc', 'operator new', 'operator new[]') and e0.get('fn') not in s.P.funcs and e0.get('a'):
            v = s.pure(e0['a'][0], st)
            if v is not None and bare(re.sub(r'\*$', '', bare(str(t))).strip()) in ('char', 'unsigned char', 'signed char', 'void'):
                st.fact(add(lin(('cap', l)), v, -1))
                st.fact(add(v, lin(('cap', l)), -1))
        elif e0 is not None and e0.get('k') == 'null' and t and str(t).rstrip().endswith('*'):
            st.set(('cap', l), ({}, 0))
        elif e0 is not None and t and str(t).rstrip().endswith('*'):
            # a copied pointer has the extent of its source
            src = s.loc(e0, st)
            if src is not None and src != l:
                if bare(re.sub(r'\*$', '', bare(t)).strip()) in BUFFER:
                    x, y = ('cap', l), ('cap', src)
                    st.le(x, y, 0)
                    st.le(y, x, 0)
                if src in st.nn:
                    st.nn = st.nn | {l}

    def mentions(s, n, st):
        r = []
        for x in walk(n):
            if x.get('k') in ('var', 'mem', 'call'):
                l = s.loc(x, st)
                if l is not None:
                    r.append(l)
        return r

    def find(s, e, st):
        """('found', limit) of a search: when it succeeds the result is at most size + limit of the object"""
        e = strip(e)
        if e is None or e.get('k') != 'call' or e.get('o') is None:
            return None
        if not re.match(r'(?i)^r?(reverse)?find', e.get('n') or ''):
            return None
        if not integral(e.get('t')):
            return None
        o = s.loc(e['o'], st)
        if strip(e['o']).get('k') == 'this':
            o = s.fr.this
        if o is None:
            return None
        obj = s.strobj(o, e)
        a = (e.get('a') or [None])[0]
        a = strip(a) if a else None
        one = a is not None and (a.get('k') in ('char',) or (a.get('k') == 'str' and len(str(a.get('v') or a.get('s') or 'x')) > 0) or bare(a.get('t')) in ('char', 'char16_t', 'wchar_t') or 'OneOf' in e['n'] or '_of' in e['n'] or (a.get('k') == 'int'))
        return ('found', obj, -1 if one else 0)

    def strobj(s, o, e):
        """the container whose size counts"""
        if 'TXString' in str(e.get('q') or '') or 'TXString' in str(e.get('ot') or ''):
            return ('m', o, 'VectorworksMVR::TXString::stdUStr')
        return o

    def sizeof_obj(s, n, st):
        o = strip(n['o'])
        l = s.fr.this if o.get('k') == 'this' else s.loc(n['o'], st)
        if l is None:
            return None
        if n.get('ar') or str(n.get('ot') or '').rstrip().endswith('*'):
            if o.get('k') != 'this':
                l = s.deref(l)
        return l

    def call(s, n, st):
        o, a = n.get('o'), n.get('a') or []
        name = n.get('n') or ''
        if n.get('op') == '=' and o is not None:
            v = s.ev(a[0], st) if a else None
            s.see(n, st)
            l = s.loc(o, st)
            if l is not None:
                src = s.loc(a[0], st) if a else None
                st.kill(l)
                if src is not None and not within(l, src):
                    x, y = ('sz', l), ('sz', src)
                    st.le(x, y, 0)
                    st.le(y, x, 0)
            return None
        if o is not None and strip(o).get('k') not in ('this', 'var', 'mem'):
            s.ev(o, st)
        for x in a:
            s.ev(x, st)
        if n.get('ce') is not None:
            s.ev(n['ce'], st)
        s.see(n, st)
        ext = n.get('fn') not in s.P.funcs
        if o is not None and ext and name in SIZE and not a:
            l = s.sizeof_obj(n, st)
            if l is not None:
                return lin(('sz', l))
            return lin(s.typed(s.opaque('size_t'), 'unsigned long', st))
        if name in ('strlen', 'wcslen') and a:
            l = s.loc(a[0], st)
            return lin(('strlen', l)) if l is not None else lin(s.opaque('size_t'))
        if name in ('min', 'max') and len(a) >= 2 and 'std::' in str(n.get('q')):
            t = bare(n.get('t'))
            o1 = lin(s.opaque(t))
            x, y = s.pure(a[0], st), s.pure(a[1], st)
            for v in (x, y):
                if v is not None:
                    st.fact(add(o1, v, -1) if name == 'min' else add(v, o1, -1))
            if x is not None and y is not None:
                for z in lower(st, x, y) if name == 'min' else ():
                    st.fact(add(({}, z), o1, -1))
            return o1
        x = s.simple(n) if not ext else None
        if x is not None:
            f, e = x
            at, s.at = s.at, None
            try:
                v = s.inframe(n, f, st, lambda: s.ev(e, st))
            finally:
                s.at = at
            if not pureexpr(e):
                s.args(n, st)
            if v is not None:
                return s.narrowed(v, f['ret'], st)
            return s.rescall(n, st)
        if not ext and s.inline_ok and s.depth < 3 and s.inline_ok(s, n):
            r = s.inlined(n, st)
            out = None
            t = n.get('t')
            tmp = s.opaque(t)
            for e, q in r:
                if e is not None and integral(t):
                    q.set(tmp, e[0])
                out = join(out, q)
            if out is not None:
                st.assign_from(out)
            return lin(tmp) if integral(t) else None
        if s.result:
            v = s.result(s, n, st)
        else:
            v = None
        if o is not None and ext and name in ('push_back', 'emplace_back', 'pop_back', 'push_front', 'pop_front', 'emplace_front') and re.match(r'^std::(__cxx11::|__debug::)?(vector|deque|list|basic_string)<', str(n.get('q'))):
            l = s.sizeof_obj(n, st)
            if l is not None:
                for w in ('back', 'front'):
                    st.kill((w, l))
                s.resized(l, 1 if 'pop' not in name else -1, st)
                return s.rescall(n, st)
        inv = []
        if not ext and (o is None or strip(o).get('k') == 'this'):
            r = getattr(s.invariants, '__self__', None)
            f = s.P.funcs[n['fn']]
            if r is not None and f.get('cls') and not f.get('st') and not f.get('ctor') and not f.get('dtor'):
                inv = r.of(f, s.fr.this)
                if not all(st.holds(g) for g in inv):
                    inv = []
        s.args(n, st)
        for g in inv:
            # the called function keeps what holds between the members
            st.fact(g)
        if o is not None and ext:
            l = s.sizeof_obj(n, st)
            if l is not None:
                s.container(n, name, l, a, st)
        return v if v is not None else s.rescall(n, st)

    def resized(s, l, by, st):
        """the container has one element more or less"""
        sz = ('sz', l)
        st.set(sz, lin(sz, by))
        st.le(ZERO, sz, -1 if by > 0 else 0)

    def container(s, n, name, l, a, st):
        """what a container call does to the size of the container"""
        sz = ('sz', l)
        if name == 'clear':
            st.set(sz, ({}, 0))
        elif name in ('resize', 'reserve', 'assign') and a and integral(str((n.get('pt') or [''])[0])) and name == 'resize':
            st.set(sz, s.pure(a[0], st))
        elif name in ('push_back', 'emplace_back') and 'basic_json' not in str(n.get('q')):
            st.le(ZERO, sz, -1)

    def rescall(s, n, st):
        t = n.get('t')
        if not integral(t):
            return None
        if n.get('o') is not None and n.get('cm') or (n.get('o') is None and not any(re.search(r'(?<!const)[&*]', x) for x in n.get('pt') or [])):
            l = s.sizeof_obj(n, st) if n.get('o') is not None else ('fn',)
            if str(n.get('n')).startswith('find') and 'std::basic_string<' in str(n.get('q')) and len(n.get('a') or []) > 1:
                # not before the place where the search begins
                o = lin(s.typed(s.opaque(t), t, st))
                b = s.pure(n['a'][1], st)
                if b is not None:
                    st.fact(add(b, o, -1))
                return o
            args = [s.pure(x, st) for x in n.get('a') or []]
            locs = [s.loc(x, st) if y is None else fz(y) for x, y in zip(n.get('a') or [], args)]
            if l is not None and not any(x is None for x in locs):
                return lin(s.typed(('call', n.get('fn'), l, tuple(locs)), t, st))
        return lin(s.typed(s.opaque(t), t, st))

    def args(s, n, st):
        """what a call may change"""
        o = n.get('o')
        own = n.get('fn') in s.P.funcs
        if o is not None and not n.get('cm') and n.get('n') not in ('operator->', 'operator*', 'get', 'c_str', 'data', 'begin', 'end', 'operator[]', 'at', 'back', 'front', 'operator bool', 'find', 'lock', 'unlock', 'operator&'):
            l = s.fr.this if strip(o).get('k') == 'this' else s.loc(o, st)
            if l is not None:
                if strip(o).get('k') == 'this':
                    s.killthis(n, st)
                else:
                    if n.get('ar') or str(n.get('ot') or '').rstrip().endswith('*'):
                        l = s.deref(l)
                    st.kill(l)
        for p, a in zip(n.get('pt') or [], n.get('a') or []):
            p = p.strip()
            if p.endswith('&') and not p.startswith('const ') and not p.endswith('&&') or (p.endswith('*') and not p.startswith('const ')):
                x = strip(a)
                if x is None:
                    continue
                if x.get('k') == 'un' and x.get('op') == '&':
                    l = s.loc(x['e'], st)
                    if l is not None:
                        st.kill(l)
                elif p.endswith('&'):
                    l = s.loc(x, st)
                    if l is not None:
                        st.kill(l)
                else:
                    l = s.loc(x, st)
                    if l is not None:
                        st.kill(s.deref(l))
            elif p.endswith('&&'):
                l = s.loc(a, st)
                if l is not None:
                    st.kill(l)
        if own and o is None and n.get('k') == 'call':
            f = s.P.funcs[n['fn']]
            if f.get('cls') and not f.get('st') and not f.get('cm'):
                s.killthis(n, st)

    def killthis(s, n, st):
        f = s.P.funcs.get(n.get('fn'))
        fields = s.writes(n['fn']) if f is not None and not (n.get('virt') and s.P.overriders.get(n['fn'])) else None
        if fields is None:
            for t in list(terms(st)):
                if t[0] == 'm' and t[1] == s.fr.this:
                    st.kill(t)
            st.kill(('m', s.fr.this, '*'))
        else:
            for x in fields:
                st.kill(('m', s.fr.this, x))

    def writes(s, key, seen=None):
        """fields of this a function may write (or whose object it may change); None when unknown"""
        memo = s.P.__dict__.setdefault('_zone_writes', {})
        if key in memo:
            return memo[key]
        seen = seen or set()
        if key in seen:
            return set()
        seen = seen | {key}
        f = s.P.funcs.get(key)
        if f is None or not f.get('body'):
            return None
        r = set()
        for x in walk(f['body']):
            t = written(x)
            ts = [t] if t is not None else []
            if x.get('k') == 'call':
                if x.get('o') is not None and not x.get('cm'):
                    if strip(x['o']).get('k') == 'this':
                        w = s.writes(x['fn'], seen) if x.get('fn') in s.P.funcs and not (x.get('virt') and s.P.overriders.get(x['fn'])) else None
                        if w is None:
                            return memo.setdefault(key, None)
                        r |= w
                    else:
                        ts.append(x['o'])
                for p, a in zip(x.get('pt') or [], x.get('a') or []):
                    if re.search(r'[&*]$', p) and not p.startswith('const '):
                        ts.append(a)
            for t in ts:
                while isinstance(t, dict):
                    t = strip(t)
                    if t.get('k') == 'mem' and strip(t.get('b') or {}).get('k') == 'this':
                        r.add(t['f'])
                        break
                    t = t.get('b') or t.get('e') or t.get('o')
        memo[key] = r
        return r

    def inlined(s, n, st):
        """[(return value, state)] of an own function run in place"""
        f = s.P.funcs[n['fn']]

        def go():
            out = s.stmt(f['body'], st)
            r = [(e, q) for e, q in s.fr.rets]
            if out is not None:
                r.append((None, out))
            return r
        return s.inframe(n, f, st, go)

    # ---- conditions
    def refine(s, n, st, pol):
        """the state when condition n evaluates to pol; None when that cannot be"""
        if st is None:
            return None
        n0 = n
        if n is None:
            return st if pol else None
        k = n.get('k')
        if k == 'cast':
            return s.refine(n['e'], st, pol)
        if k == 'un' and n.get('op') == '!':
            return s.refine(n['e'], st, not pol)
        if k == 'call' and n.get('n') == 'operator!' and n.get('o') is not None:
            return s.refine(n['o'], st, not pol)
        if k in ('bool', 'int') or 'cv' in n and k != 'call':
            try:
                v = bool(int(n.get('cv', n.get('v'))))
                return st if v == pol else None
            except (TypeError, ValueError):
                pass
        if k == 'bin' and n['op'] in ('&&', '||') and not n.get('as'):
            both = (n['op'] == '&&') == pol
            if both:
                return s.refine(n['b'], s.refine(n['a'], st, pol), pol)
            a = s.refine(n['a'], st.copy(), pol)
            b = s.refine(n['a'], st.copy(), not pol)
            b = s.refine(n['b'], b, pol)
            return join(a, b)
        if k == 'un' and n.get('op') in ('++', '--') and n.get('post'):
            # the value is the one before the step
            st = s.refine(n['e'], st, pol)
            if st is not None:
                s.ev(n, st)
            return st
        if k == 'bin' and n['op'] in ('<', '>', '<=', '>=', '==', '!=') and not n.get('as'):
            for x, y in (('a', 'b'), ('b', 'a')):
                u = strip(n[x])
                if u.get('k') == 'un' and u.get('op') in ('++', '--') and u.get('post') and strip(u['e']).get('k') == 'var' and \
                        not any(z.get('k') == 'var' and z.get('d') == strip(u['e']).get('d') for z in walk(n[y])):
                    m = dict(n)
                    m[x] = u['e']
                    st = s.refine(m, st, pol)
                    if st is not None:
                        s.ev(u, st)
                    return st
            a = s.ev(n['a'], st)
            b = s.ev(n['b'], st)
            return s.compare(n['op'], a, b, n, st, pol)
        if k == 'call' and n.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            s.ev(n, st)
            xs = ([n['o']] if n.get('o') is not None else []) + (n.get('a') or [])
            if len(xs) == 2 and n['op'] in ('==', '!='):
                # begin() and end() of one container: empty or not
                ys = [strip(x) for x in xs]
                if all(y.get('k') == 'call' and y.get('o') is not None for y in ys) and {str(y.get('n')).lstrip('c') for y in ys} == {'begin', 'end'}:
                    l, m = [s.sizeof_obj(y, st) for y in ys]
                    if l is not None and l == m:
                        if (n['op'] == '==') == pol:
                            st.le(('sz', l), ZERO, 0)
                        else:
                            st.le(ZERO, ('sz', l), -1)
                        return None if st.dead() else st
            if len(xs) == 2:
                for x, y in (xs, xs[::-1]):
                    if strip(y).get('k') == 'null':
                        l = s.loc(x, st)
                        if l is not None and (n['op'] == '!=') == pol:
                            st.nn = st.nn | {l}
            return st
        if k == 'call':
            if n.get('n') == 'empty' or n.get('n') == 'IsEmpty':
                s.ev(n, st)
                l = s.sizeof_obj(n, st) if n.get('o') is not None else None
                if l is not None:
                    if n['n'] == 'IsEmpty':
                        l = s.strobj(l, n)
                    if pol:
                        st.le(('sz', l), ZERO, 0)
                    else:
                        st.le(ZERO, ('sz', l), -1)
                return None if st.dead() else st
            if n.get('n') in ('operator bool', 'valid', 'has_value') and n.get('o') is not None:
                s.ev(n, st)
                l = s.loc(n['o'], st)
                if l is not None and pol:
                    st.nn = st.nn | {l}
                return st
            x = s.simple(n)
            if x is not None and bare(x[0]['ret']) == 'bool':
                for a in n.get('a') or []:
                    s.ev(a, st)
                s.see(n, st)
                r = s.inframe(n, x[0], st, lambda: s.refine(x[1], st, pol))
                if r is not None and not pureexpr(x[1]):
                    s.args(n, r)
                return r
            if n.get('fn') in s.P.funcs and s.depth < 3 and bare(n.get('t')) == 'bool' and s.smallfn(n):
                for a in n.get('a') or []:
                    s.ev(a, st)
                s.see(n, st)
                at, s.at = s.at, None
                try:
                    out = None
                    f = s.P.funcs[n['fn']]

                    def go():
                        o = s.stmt(f['body'], st)
                        r = None
                        for e, q in s.fr.rets:
                            x = s.refine(e[1], q, pol) if e is not None and e[1] is not None else q
                            r = join(r, x)
                        return r
                    return s.inframe(n, f, st, go)
                finally:
                    s.at = at
            v = s.ev(n, st)
            l = s.loc(n, st)
            if l is not None and pol:
                st.nn = st.nn | {l}
            if v is not None and bare(n.get('t')) != 'bool':
                return s.compare('!=', v, ({}, 0), None, st, pol)
            return st
        v = s.ev(n, st)
        if k == 'bin' and n.get('as'):
            l = s.loc(n['a'], st)
            if l is not None:
                if pol:
                    st.nn = st.nn | {l}
            if v is not None and bare(n.get('t')) != 'bool':
                return s.compare('!=', v, ({}, 0), None, st, pol)
            return st
        l = s.loc(n, st)
        if l is not None:
            b = st.bools.get(l)
            if b is not None:
                old = s.fr
                s.fr = b[2]
                try:
                    return s.refine(b[0], st, pol)
                finally:
                    s.fr = old
            if pol:
                st.nn = st.nn | {l}
        if v is not None and integral(n.get('t')) and bare(n.get('t')) != 'bool':
            return s.compare('!=', v, ({}, 0), None, st, pol)
        return st

    def smallfn(s, n):
        f = s.P.funcs[n['fn']]
        if n.get('virt') and not n.get('nv') and s.P.overriders.get(n['fn']):
            return False
        c = 0
        fr = s.fr
        while fr is not None:
            if fr.key == f['key']:
                return False
            fr = fr.up
        for x in walk(f.get('body')):
            c += 1
            if c > 150 or x.get('k') in ('goto', 'try', 'lambda'):
                return False
        return bool(f.get('body'))

    def compare(s, op, a, b, n, st, pol):
        if n is not None:
            for x, y in ((n['a'], n['b']), (n['b'], n['a'])):
                if strip(y).get('k') == 'null':
                    l = s.loc(x, st)
                    if l is not None and ((op == '!=') == pol):
                        st.nn = st.nn | {l}
            if not pol:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
        elif not pol:
            op = {'!=': '==', '==': '!='}[op]
        if a is None or b is None:
            return st
        ta = n['a'].get('t') if n is not None else None
        tb = n['b'].get('t') if n is not None else None
        if n is not None:
            xa, xb = strip(n['a']), strip(n['b'])
            sa, sb = not unsigned(xa.get('t') if n['a'].get('k') != 'cast' else n['a'].get('t')), not unsigned(xb.get('t') if n['b'].get('k') != 'cast' else n['b'].get('t'))
            if not integral(ta) or not integral(tb):
                sa = sb = True
            mixed_a = sa and not sb and BITS.get(bare(tb), 0) >= 32 and not (not a[0] and a[1] >= 0)
            mixed_b = sb and not sa and BITS.get(bare(ta), 0) >= 32 and not (not b[0] and b[1] >= 0)
            # a constant below zero on the unsigned side (npos)
            if mixed_a and not a[0]:
                a = ({}, a[1] % 2 ** 64)
                mixed_a = False
            if mixed_b and not b[0]:
                b = ({}, b[1] % 2 ** 64)
                mixed_b = False
        else:
            mixed_a = mixed_b = False
        if op in ('>', '>='):
            a, b, mixed_a, mixed_b = b, a, mixed_b, mixed_a
            op = {'>': '<', '>=': '<='}[op]
        pa, pb = s.pended(a, st), s.pended(b, st)
        if op in ('<', '<='):
            if mixed_b and not st.holds(add(({}, 0), b, -1)):
                return st
            if mixed_a and not st.holds(add(({}, 0), a, -1)):
                # the converted value is below something, so it was not negative
                st.fact(add(({}, 0), a, -1))
            st.fact(add(add(a, b, -1), ({}, 1 if op == '<' else 0)))
            # found positions: 0 <= x or -1 < x
            if pb and not a[0] and a[1] >= (0 if op == '<=' else -1):
                s.activate(b, pb, st)
        elif op == '==':
            st.fact(add(a, b, -1))
            st.fact(add(b, a, -1))
        else:
            for x, y, p in ((a, b, pa), (b, a, pb)):
                if p and not y[0] and y[1] in (-1, 2 ** 64 - 1, 2 ** 32 - 1):
                    s.activate(x, p, st)
            # x != c next to a bound
            for x, y in ((a, b), (b, a)):
                d = add(x, y, -1)
                if st.holds(d):
                    st.fact(add(d, ({}, 1)))
                    break
        return None if st.dead() else st

    def pended(s, v, st):
        if v is not None and len(v[0]) == 1 and v[1] == 0:
            return st.pend.get(list(v[0])[0])
        return None

    def activate(s, v, p, st):
        st.fact(add(add(v, lin(('sz', p[1])), -1), ({}, -p[2])))
        st.fact(add(({}, 0), v, -1))

    # ---- statements
    def stmt(s, n, st):
        if st is None or n is None:
            return st
        k = n.get('k')
        f = getattr(s, 's_' + k, None) if k else None
        if f:
            return f(n, st)
        s.ev(n, st)
        return None if k == 'throw' else st

    def s_seq(s, n, st):
        for x in n['s']:
            if isinstance(x, dict) and x.get('k') in ('case', 'default', 'label') and st is None:
                pass
            st = s.stmt(x, st)
            if st is not None and s.fr.up is None:
                st.forget()
            if st is None:
                # labels below may still be reached
                return s.rest(n['s'], x)
        return st

    def rest(s, body, x):
        return None

    def s_decl(s, n, st):
        for v in n['v']:
            l = ('v', s.fr.id, v['d'])
            if v.get('t', '').endswith('&') and v.get('init') is not None:
                s.ev(v['init'], st)
                src = s.loc(v['init'], st)
                if src is not None:
                    st.ali[l] = src
                    continue
            st.ali.pop(l, None)
            e = v.get('init')
            val = s.ev(e, st) if e is not None else None
            st.kill(l)
            s.store(l, v.get('t'), val, st, e)
            if e is not None and s.on and s.rec:
                s.on(s, {'k': 'decl', 'v': v, 'l': n.get('l'), 'b': e}, l, val, st)
            e0 = strip(e) if e is not None else None
            if e0 is not None and e0.get('k') == 'ctor':
                s.ctorsize(l, e0, st)
        return st

    def ctorsize(s, l, e, st):
        t = str(e.get('t') or '')
        a = [x for x in e.get('a') or [] if strip(x).get('k') != 'defarg']
        if not re.match(r'^(const )?std::(__cxx11::)?(vector|basic_string|deque)\b', t):
            return
        pt = e.get('pt') or []
        if not a or (len(a) == 1 and 'allocator' in (pt[0] if pt else '')):
            st.set(('sz', l), ({}, 0))
        elif a and pt and integral(pt[0]) and ('vector' in t):
            st.set(('sz', l), s.pure(a[0], st))

    def s_if(s, n, st):
        st = s.stmt(n.get('init'), st)
        if n.get('cvd'):
            s.s_decl({'v': [n['cvd']]}, st)
        a = s.refine(n['c'], st.copy(), True)
        q, s.rec = s.rec, 0 if not s.rec else s.rec
        at, s.at = s.at, None          # the condition was already seen
        on, s.on = s.on, None
        b = s.refine(n['c'], st.copy(), False)
        s.at, s.on, s.rec = at, on, q
        if a is not None and a.dead():
            a = None
        if b is not None and b.dead():
            b = None
        a = s.stmt(n.get('th'), a) if a is not None else None
        b = s.stmt(n['el'], b) if n.get('el') is not None and b is not None else b
        return join(a, b)

    def thresholds(s):
        """the constants the function compares with"""
        f = s.fr.fn
        r = s.thr.get(f['key'])
        if r is None:
            r = set()
            for x in walk(f['body']):
                if x.get('k') == 'bin' and x.get('op') in ('<', '<=', '>', '>=', '!='):
                    for y in (x['a'], x['b']):
                        v = strip(y).get('cv', strip(y).get('v') if strip(y).get('k') == 'int' else None)
                        if isinstance(v, (int, str)) and re.match(r'^-?\d+$', str(v)) and 0 <= int(v) < 2 ** 31:
                            r |= {int(v) - 1, int(v)}
            r = s.thr[f['key']] = sorted(r)[:8]
        return r

    def resume(s, n, st):
        """an inner loop starts from what an earlier round of the loop around it found"""
        h = s.heads.get((id(n), s.fr.id))
        return join(st, h) if h is not None else st

    def loop(s, n, st, cond, body, inc, first):
        head = s.resume(n, st)
        q = s.rec
        s.rec = 0
        for it in range(12):
            h = head.copy()
            out, brk = s.once(h, cond, body, inc, first)
            new = join(head, out) if out is not None else head
            if it < 11:
                nh = new if it < 2 else widen(head, new, s.thresholds())
            else:
                nh = S()
                nh.killed = new.killed
            if same(nh, head):
                break
            head = nh
        s.rec = q
        s.heads[(id(n), s.fr.id)] = head
        h = head.copy()
        out, brk = s.once(h, cond, body, inc, first)
        if first:
            ex = s.exitcond
        else:
            at, s.at = s.at, None
            ex = s.refine(cond, head.copy(), False) if cond is not None else None
            s.at = at
        for b in brk:
            ex = join(ex, b)
        return ex

    def once(s, st, cond, body, inc, first):
        ob, oc = s.fr.brk, s.fr.cont
        s.fr.brk, s.fr.cont = [], []
        nr = len(s.fr.rets)
        if not first and cond is not None:
            st = s.refine(cond, st, True)
        st = s.stmt(body, st) if st is not None else None
        for c in s.fr.cont:
            st = join(st, c)
        if st is not None and inc is not None:
            s.ev(inc, st)
        if first:
            e = st
            s.exitcond = s.refine(cond, e.copy(), False) if e is not None else None
            st = s.refine(cond, e, True) if e is not None else None
        brk = s.fr.brk
        s.fr.brk, s.fr.cont = ob, oc
        if not s.rec:
            del s.fr.rets[nr:]      # the last round finds them again
        return st, brk

    def s_for(s, n, st):
        st = s.stmt(n.get('i'), st)
        return s.loop(n, st, n.get('c'), n.get('b'), n.get('inc'), False)

    def s_while(s, n, st):
        return s.loop(n, st, n['c'], n['b'], None, False)

    def s_do(s, n, st):
        return s.loop(n, st, n['c'], n['b'], None, True)

    def s_rfor(s, n, st):
        s.ev(n['r'], st)
        v = n['v']
        l = ('v', s.fr.id, v['d'])
        r = s.loc(n['r'], st)

        def pre(x):
            x.kill(l)
            x.ali.pop(l, None)
            if v['t'].endswith('&') and r is not None:
                s.fresh += 1
                x.ali[l] = ('i', r, ('each', s.fresh))
        head = s.resume(n, st)
        q = s.rec
        s.rec = 0
        for it in range(12):
            h = head.copy()
            pre(h)
            out, brk = s.once(h, None, n['b'], None, False)
            new = join(head, out) if out is not None else head
            nh = widen(head, new, s.thresholds())
            if same(nh, head):
                break
            head = nh
        s.rec = q
        s.heads[(id(n), s.fr.id)] = head
        h = head.copy()
        pre(h)
        out, brk = s.once(h, None, n['b'], None, False)
        ex = head
        for b in brk:
            ex = join(ex, b)
        return ex

    def s_switch(s, n, st):
        v = s.ev(n['c'], st)
        ob = s.fr.brk
        s.fr.brk = []
        cur = None
        has = False
        body = n['b']['s'] if isinstance(n.get('b'), dict) and n['b'].get('k') == 'seq' else [n.get('b')]

        def label(x, cur):
            nonlocal has
            while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                e = st.copy()
                if x['k'] == 'case':
                    c = s.pure(x['v'], e)
                    if c is not None and v is not None:
                        e = s.compare('==', v, c, None, e, True)
                else:
                    has = True
                cur = join(cur, e)
                x = x.get('s')
            return s.stmt(x, cur) if cur is not None else None
        for x in body:
            if isinstance(x, dict) and x.get('k') in ('case', 'default'):
                cur = label(x, cur)
            elif cur is not None:
                cur = s.stmt(x, cur)
        out = cur
        for b in s.fr.brk:
            out = join(out, b)
        s.fr.brk = ob
        if not has:
            out = join(out, st)
        return out

    def s_case(s, n, st):
        return s.stmt(n.get('s'), S())

    s_default = s_case
    s_label = s_case

    def s_break(s, n, st):
        s.fr.brk.append(st)
        return None

    def s_continue(s, n, st):
        s.fr.cont.append(st)
        return None

    def s_ret(s, n, st):
        e = n.get('e')
        v = None
        if e is not None:
            pre = st.copy()
            v = s.ev(e, st)
            if bare(s.fr.fn.get('ret')) == 'bool' and s.fr.up is not None:
                st = pre
        s.fr.rets.append(((v, e) if e is not None else None, st))
        return None

    def s_goto(s, n, st):
        return None

    def s_try(s, n, st):
        out = s.stmt(n['b'], st.copy())
        for h in n.get('h') or []:
            t = S()
            t.killed = st.killed | {('m', s.fr.this, '*')}
            t.ali = dict(st.ali)
            out = join(out, s.stmt(h.get('b'), t))
        return out

    def s_nop(s, n, st):
        return st

    def s_otherstmt(s, n, st):
        for x in n.get('s') or []:
            st = s.stmt(x, st)
        return st


def lower(st, x, y):
    """constants that bound both values from below"""
    r = []
    for v in (x, y):
        for c in (1, 0):
            if st.holds(add(({}, c), v, -1)):
                r.append(c)
                break
        else:
            return []
    return [min(r)]


def carry(src, dst, term):
    """keep what was found out about a new term while looking at an expression"""
    for (a, b), k in src.c.items():
        if a == term or b == term:
            o = dst.c.get((a, b))
            if o is None or k < o:
                dst.c[(a, b)] = k
                dst.closed = None


def terms(st):
    r = set()
    for p in st.c:
        for t in p:
            r.add(t)
    for k in st.lf:
        for t, _ in k:
            r.add(t)
    out = set()

    def sub(t):
        if isinstance(t, tuple):
            if t and t[0] == 'm':
                out.add(t)
            for x in t:
                sub(x)
        elif isinstance(t, frozenset):
            for x in t:
                sub(x)
    for t in r:
        sub(t)
    for t in st.nn:
        sub(t)
    for t in st.bools:
        sub(t)
    return out


def fz(v):
    return (frozenset(v[0].items()), v[1]) if v is not None else None


def pureexpr(n):
    for x in walk(n):
        if x.get('k') in ('call', 'new', 'lambda', 'ctor') and not x.get('cp') and not (x.get('k') == 'call' and (x.get('cm') or x.get('n') in SIZE or x.get('op') in ('==', '!=', '->', '*', '[]'))):
            return False
        if x.get('k') == 'un' and x.get('op') in ('++', '--') or x.get('k') == 'bin' and x.get('as'):
            return False
    return True


def written(x):
    if x.get('k') == 'bin' and x.get('as'):
        return x['a']
    if x.get('k') == 'un' and x.get('op') in ('++', '--'):
        return x['e']
    return None


def walk(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)
