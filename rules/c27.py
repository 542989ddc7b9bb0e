"""C27: no container is grown, shrunk or replaced while a loop walks over it."""
from astx import *
from report import Check, Broken

GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'pop_back', 'resize', 'push_front', 'pop_front', 'assign', 'swap', 'reserve', 'shrink_to_fit', 'merge', 'splice', 'remove', 'sort', 'try_emplace'}
CONT = ('std::vector', 'std::map', 'std::set', 'std::list', 'std::deque', 'std::unordered', 'std::basic_string', 'TXString', 'std::__')


def is_cont(t):
    return any(c in t for c in CONT)


class An:
    def __init__(self, P):
        self.P = P
        self.G = Getters(P)
        self.al = {}
        self.sums = {}

    def aliases(self, fn):
        """local references bound to a path"""
        if fn['key'] in self.al:
            return self.al[fn['key']]
        a = self.al[fn['key']] = {}
        for x in nodes(fn):
            if x['k'] == 'decl':
                for v in x['v']:
                    if v['t'].endswith(('&', '*')) and v.get('init'):
                        p = self.G.path(v['init'], fn)
                        if p:
                            a[v['d']] = p
        return a

    def path(self, e, fn):
        p = self.G.path(e, fn)
        n = 0
        al = self.aliases(fn)
        while p and p[0][0] == 'var' and p[0][1] in al and n < 5:
            p = al[p[0][1]] + p[1:]
            n += 1
        return p

    def direct(self, x, fn):
        """container path changed by node x itself, or None"""
        if x['k'] == 'call' and x.get('o') is not None:
            t = x.get('ot', '') or ''
            if x['n'] in GROW and is_cont(x.get('cls', '')):
                return self.path(x['o'], fn)
            if x['n'] == 'operator=' and is_cont(x.get('cls', '')):
                return self.path(x['o'], fn)
            if x['n'] == 'operator[]' and 'unordered_map' in x.get('cls', ''):
                return self.path(x['o'], fn)
        return None

    def summary(self, key, depth=0):
        """paths (rooted at this or at parameter i) of containers a function may change"""
        if key in self.sums:
            return self.sums[key]
        self.sums[key] = {}
        fn = self.P.funcs.get(key)
        if fn is None or depth > 12:
            return {}
        par = {p['d']: i for i, p in enumerate(fn.get('p', [])) if p['t'].endswith(('&', '*'))}
        out = {}

        def add(p, w):
            if p[0] == ('this',) or p[0][0] == 'glob':
                out.setdefault(p, w)
            elif p[0][0] == 'var' and p[0][1] in par:
                out.setdefault((('par', par[p[0][1]]),) + p[1:], w)
        for x in nodes(fn):
            p = self.direct(x, fn)
            if p:
                add(p, where(fn, x))
            if x['k'] == 'call':
                for q, w in self.effects(x, fn, depth + 1):
                    add(q, w)
        self.sums[key] = out
        return out

    def targets(self, x):
        k = x.get('fn')
        r = [k] if k in self.P.funcs else []
        if x.get('virt') and not x.get('nv'):
            r += [o for o in self.P.overriders.get(k, ()) if o in self.P.funcs][:40]
        return r

    def effects(self, x, fn, depth=0):
        for t in self.targets(x):
            for p, w in self.summary(t, depth).items():
                if p[0] == ('this',):
                    if x.get('o') is None:
                        continue
                    b = self.path(x['o'], fn)
                    if b:
                        yield b + p[1:], w
                elif p[0][0] == 'par':
                    if p[0][1] < len(x.get('a', [])):
                        b = self.path(x['a'][p[0][1]], fn)
                        if b:
                            yield b + p[1:], w
                else:
                    yield p, w


def leaves_after(body, x):
    """is the statement holding x followed, in the same block, by a statement that leaves the loop?"""
    for s in walk(body):
        if s['k'] == 'seq':
            for i, c in enumerate(s['s']):
                if c is not None and any(y is x for y in walk(c)):
                    if any(d and d['k'] in ('break', 'ret') for d in s['s'][i:]):
                        return True
                    if c['k'] == 'ret':
                        return True
    return False


def run(P, tier):
    C = Check('C27', 'inside a loop over a container (range loop, or iterator loop from begin()), neither the body nor anything it calls on the same object inserts into, erases from or replaces that container, unless the loop is left right after or the iterator is renewed from the call',
              'interprocedural effect analysis: access paths of containers walked against access paths of containers changed')
    A = An(P)
    n = 0
    cnt = {}
    for key, fn in sorted(P.funcs.items()):
        if not fn.get('body'):
            continue
        its = {}
        for x in nodes(fn):
            if x['k'] == 'decl':
                for v in x['v']:
                    i = strip(v.get('init'))
                    if i and i['k'] == 'call' and i['n'] in ('begin', 'cbegin', 'rbegin', 'find') and i.get('o') is not None and is_cont(i.get('cls', '')):
                        its[v['d']] = A.path(i['o'], fn)
        for x in nodes(fn):
            if x['k'] == 'rfor':
                p = A.path(x['r'], fn)
                body, it = x['b'], None
            elif x['k'] in ('for', 'while', 'do'):
                # an iterator loop advances the iterator in the loop
                p, body, it = None, {'k': 'seq', 's': [y for y in (x.get('b'), x.get('inc')) if y]}, None
                for y in walk(x.get('c')):
                    if y['k'] == 'var' and y.get('d') in its:
                        p, it = its[y['d']], y['d']
            else:
                continue
            if not p or (len(p) == 1 and p[0][0] not in ('var', 'glob')):
                continue
            n += 1
            nm = '%s over %s' % (fn['q'] if 'lambda' not in fn['key'] else 'lambda in ' + str(fn.get('encl', ''))[:60], '.'.join(str(s).split('::')[-1] if isinstance(s, str) else s[0] for s in p))
            cnt[nm] = cnt.get(nm, 0) + 1
            if cnt[nm] > 1:
                nm += ' #%d' % cnt[nm]
            bad = None
            for y in walk(body):
                if y['k'] != 'call':
                    continue
                q = A.direct(y, fn)
                hits = [(q, where(fn, y))] if q else []
                hits += list(A.effects(y, fn))
                for q, w in hits:
                    if q == p and not leaves_after(body, y):
                        if it is not None and renewed(body, y, it):
                            continue
                        bad = (w, where(fn, y))
                        break
                if bad:
                    break
            C.ob('walk', nm, not bad, where(fn, x), '' if not bad else 'the list %s is changed at %s (called at %s) while it is being walked: its iterators become invalid' % ('.'.join(str(s).split('::')[-1] if isinstance(s, str) else s[0] for s in p), bad[0], bad[1]))
    if n < 150:
        raise Broken('only %d loops over containers found' % n)
    return C.finish(P, tier)


def renewed(body, call, d):
    for y in walk(body):
        if y['k'] == 'call' and y['n'] == 'operator=' and y.get('o') and strip(y['o']).get('d') == d and any(z is call for z in walk(y.get('a'))):
            return True
        if y['k'] == 'bin' and y.get('as') and strip(y['a']).get('d') == d and any(z is call for z in walk(y['b'])):
            return True
    return False
