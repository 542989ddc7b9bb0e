"""Small queries over the extracted trees."""
KIDS_SKIP = ('k', 'l', 't', 'n', 'q', 'fn', 'cls', 'pt', 'ot', 'ck', 'op', 'st', 'ft', 'd', 'f', 'cv', 'el_')


def kids(x):
    if isinstance(x, dict):
        for k, y in x.items():
            if isinstance(y, (dict, list)):
                yield y
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                yield y


def walk(x):
    """every node of a tree, parents first"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict) and 'k' in y:
            yield y
        st.extend(reversed(list(kids(y))))


def bodies(fn):
    """the trees of a function: initialisers and body"""
    for i in fn.get('inits', []):
        if i.get('e'):
            yield i['e']
    if fn.get('body'):
        yield fn['body']


def nodes(fn):
    for b in bodies(fn):
        for x in walk(b):
            yield x


def calls(fn):
    for x in nodes(fn):
        if x['k'] == 'call':
            yield x


def strip(e):
    """without casts, dereferences and address-of"""
    while e is not None:
        if e['k'] == 'cast':
            e = e['e']
        elif e['k'] == 'un' and e['op'] in ('*', '&'):
            e = e['e']
        elif e['k'] == 'call' and e.get('op') in ('*', '->') and not e.get('a'):
            e = e['o']
        elif e['k'] == 'ctor' and e.get('cp') and len(e.get('a', [])) == 1:
            e = e['a'][0]
        elif e['k'] == 'call' and e['n'] in ('move', 'forward') and len(e.get('a', [])) == 1:
            e = e['a'][0]
        else:
            break
    return e


def where(fn, x=None):
    return '%s:%s' % (fn['file'].replace('/repo/', ''), (x or fn).get('l'))


class Getters:
    """functions that only hand out a member of their object"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def field(self, key):
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        fn = self.P.funcs.get(key)
        r = None
        if fn and fn.get('cls') and fn.get('body'):
            b = [s for s in fn['body']['s'] if s and s['k'] != 'nop'] if fn['body']['k'] == 'seq' else [fn['body']]
            rets = [x for x in walk(fn['body']) if x['k'] == 'ret']
            if len(rets) == 1 and rets[0].get('e'):
                p = self.path(rets[0]['e'], fn)
                if p and p[0] == ('this',) and len(p) > 1:
                    r = p[1:]
        self.memo[key] = r
        return r

    def path(self, e, fn=None):
        """access path of an lvalue-like expression: (root, member, ...); getters are looked through.
        root: ('this',), ('var', decl id), ('glob', name); None if it is anything else"""
        e = strip(e)
        if e is None:
            return None
        k = e['k']
        if k == 'this':
            return (('this',),)
        if k == 'var':
            return (('glob', e['q']),) if e.get('g') else (('var', e['d']),)
        if k == 'mem':
            b = self.path(e['b'], fn) if e.get('b') else None
            return b + (e['f'],) if b else None
        if k == 'call' and e.get('o') is not None and not e.get('a'):
            if e['n'] in ('get', 'operator*', 'operator->') or e['n'].startswith('operator '):
                return self.path(e['o'], fn)
            f = self.field(e['fn'])
            b = self.path(e['o'], fn)
            if f and b:
                return b + f
            if b and e.get('cm') is None:
                return b + ('call:' + e['n'],)
        return None
