"""C26: objects are used as what they are: every downcast is reached only by objects of the class it names."""
import re
import facts
from report import Check
from c10 import nodes
from c13 import Paths, Stop, strip, text

RAW = True
OWN = re.compile('^' + re.escape(facts.REPO) + r'/src/')
LIMIT = 5000
NULL = ('k', 0)
PUSH = {'push_back', 'emplace_back', 'push_front', 'insert', 'push'}


def cls(t):
    t = re.sub(r'\b(const|class|struct) ?', '', t or '').strip().rstrip('&').strip()
    if t.endswith('*') and not t.endswith('**') and '(' not in t:
        return t[:-1].strip()
    return None


class Tree:
    """classes, what derives from what, and what tells them apart"""
    def __init__(s, P):
        s.P = P
        s.kids = {}
        s.up = {}
        for q, c in P.classes.items():
            for b in c.get('bases') or []:
                s.kids.setdefault(b, set()).add(q)
                s.up.setdefault(q, set()).add(b)
        s.memo = {}
        s.methods = {}
        for key, f in P.funcs.items():
            if f.get('cls'):
                s.methods.setdefault((f['cls'], f['n']), []).append(f)
        s.newed = set()
        for f in P.funcs.values():
            if f.get('body') and OWN.match(f['file']):
                for x in nodes([f['body'], f.get('inits') or []]):
                    if x['k'] == 'new' and not x.get('arr'):
                        s.newed.add(re.sub(r'\b(const|class|struct) ?', '', x.get('t', '')).rstrip('*').strip())
        s.tags = {}
        s.late = None
        s.kept = None
        s.elems = {}
        s.rets = {}
        s.ask = set()

    def subs(s, q):
        if q not in s.memo:
            out, todo = set(), [q]
            while todo:
                x = todo.pop()
                if x not in out:
                    out.add(x)
                    todo += list(s.kids.get(x, ()))
            s.memo[q] = frozenset(out)
        return s.memo[q]

    def live(s, q):
        """the classes an object reached through a pointer to q can have"""
        r = frozenset(x for x in s.subs(q) if x in s.newed)
        return r

    def returned(s, fn):
        """the classes of the objects a function returns"""
        if fn not in s.rets:
            s.rets[fn] = None
            f = s.P.funcs.get(fn)
            if f and f.get('body') and OWN.match(f['file']) and not f.get('virt') and cls(f['ret']):
                W = Walk(s, f, {})
                try:
                    W.run()
                    k = set()
                    for st, v in W.exits:
                        if v and v[0] == 'o':
                            k |= set(st.cls.get(v[1], s.live(cls(f['ret']))))
                        elif not v or v[0] != 'k':
                            k |= s.live(cls(f['ret']))
                    s.rets[fn] = frozenset(k)
                except Stop:
                    pass
        return s.rets[fn]

    def holds(s, fld):
        """the classes of the objects stored in a pointer member, from the types of what is assigned to it"""
        if s.kept is None:
            s.kept = {}
            sent = {}
            for f in s.P.funcs.values():
                if f.get('body'):
                    for x in nodes([f['body'], f.get('inits') or []]):
                        if x['k'] in ('call', 'ctor') and x.get('fn'):
                            sent.setdefault(x['fn'], []).append(x)
            for f in s.P.funcs.values():
                if not f.get('body'):
                    continue
                w = [(strip(x['a']).get('f'), x['b']) for x in nodes(f['body']) if x['k'] == 'bin' and x.get('as') and strip(x['a']).get('k') == 'mem']
                w += [(i['f'], i.get('e') or {}) for i in f.get('inits') or [] if i.get('f')]
                w += [(strip(x['e']).get('f'), None) for x in nodes(f['body']) if x['k'] == 'un' and x['op'] == '&' and strip(x['e']).get('k') == 'mem']
                for fl, e in w:
                    if const(e or {}) == 0:
                        continue
                    y = e
                    while isinstance(y, dict) and y.get('k') == 'cast' and cls(y.get('ft')) and cls(y.get('t')) in s.up.get(cls(y['ft']), ()):
                        y = y['e']
                    i = next((i for i, p in enumerate(f['p']) if isinstance(y, dict) and y.get('k') == 'var' and y.get('d') == p['d']), None)
                    src = [y] if i is None else [(x.get('a') or [None] * 9)[i] if i < len(x.get('a') or []) else None for x in sent.get(f['key'], [])]
                    for z in src:
                        q = cls(z.get('t')) if isinstance(z, dict) else None
                        if isinstance(z, dict) and const(z) == 0:
                            continue
                        k = s.returned(z['fn']) if isinstance(z, dict) and z.get('k') == 'call' and z.get('fn') else None
                        s.kept.setdefault(fl, set()).update(k if k is not None else s.live(q) if q else ['?'])
        k = s.kept.get(fld)
        return None if k is None or '?' in k else frozenset(k)

    def method(s, c, n):
        """the body a call of n without arguments runs on an object of class c"""
        todo, seen = [c], set()
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.add(x)
            for f in s.methods.get((x, n), []):
                if not f['p']:
                    return f
            todo += sorted(s.up.get(x, ()))
        return None

    def tag(s, c, n):
        """the constant method n returns on objects of class c"""
        k = (c, n)
        if k not in s.tags:
            s.tags[k] = None
            f = s.method(c, n)
            if f and f.get('body'):
                r = [x for x in f['body'].get('s', []) if x and x.get('k') != 'nop']
                if len(r) == 1 and r[0]['k'] == 'ret' and r[0].get('e'):
                    s.tags[k] = const(r[0]['e'])
                    y = strip(r[0]['e'])
                    if s.tags[k] is None and y['k'] == 'mem' and (not y.get('b') or strip(y['b']).get('k') == 'this'):
                        s.tags[k] = s.field(c, y.get('f'))
        return s.tags[k]

    def field(s, c, fld):
        """the constant every constructor of class c gives a member that nothing changes later"""
        if s.late is None:
            s.late = set()
            for f in s.P.funcs.values():
                if f.get('body') and not f.get('ctor'):
                    for x in nodes(f['body']):
                        y = None
                        if x['k'] == 'bin' and x.get('as'):
                            y = strip(x['a'])
                        elif x['k'] == 'un' and x['op'] in ('++', '--', '&'):
                            y = strip(x['e'])
                        if isinstance(y, dict) and y.get('k') == 'mem':
                            s.late.add(y.get('f'))
        if fld in s.late or not fld:
            return None
        k = (c, 'field', fld)
        if k not in s.tags:
            vals = set()
            for f in s.methods.get((c, c.split('::')[-1]), []):
                if f.get('ctor') and not f.get('cp'):
                    vals.add(s.made(f, fld, {}, 0))
            s.tags[k] = vals.pop() if len(vals) == 1 else None
        return s.tags[k]

    def made(s, f, fld, env, depth):
        val = None
        def look(e):
            v = const(e)
            y = strip(e)
            return env.get(y['d']) if v is None and isinstance(y, dict) and y.get('k') == 'var' and 'd' in y else v
        for i in f.get('inits') or []:
            e = i.get('e') or {}
            if i.get('f') == fld:
                val = look(e['a'][0] if e.get('k') == 'list' and e.get('a') else e)
            elif i.get('base') and e.get('k') == 'ctor' and depth < 5:
                g = s.P.funcs.get(e.get('fn'))
                if g:
                    v = s.made(g, fld, {p['d']: look(x) for p, x in zip(g['p'], e.get('a') or [])}, depth + 1)
                    val = v if v is not None else val
        for x in nodes(f.get('body') or {}):
            if x['k'] == 'bin' and x.get('as') and x['op'] == '=' and strip(x['a']).get('k') == 'mem' and strip(x['a']).get('f') == fld:
                val = look(x['b'])
        return val


def const(e):
    e0 = e
    while isinstance(e, dict):
        if 'cv' in e:
            return e['cv']
        if e.get('k') == 'cast':
            e = e['e']
            continue
        if e.get('k') in ('enum', 'int', 'bool', 'char'):
            v = e.get('v')
            return int(v) if isinstance(v, (bool, int)) else None
        if e.get('k') == 'null':
            return 0
        return None
    return None


class St:
    __slots__ = ('cell', 'cls', 'ali')

    def __init__(s):
        s.cell, s.cls, s.ali = {}, {}, {}

    def copy(s):
        r = St()
        r.cell, r.cls, r.ali = dict(s.cell), dict(s.cls), dict(s.ali)
        return r

    def key(s):
        return (tuple(sorted(s.cell.items(), key=str)), tuple(sorted(((k, tuple(sorted(v))) for k, v in s.cls.items()), key=str)), tuple(sorted(s.ali.items(), key=str)))


class Shift:
    def __init__(s):
        s.copies = {}

    def get(s, f, depth):
        k = (f['key'], depth)
        if k not in s.copies:
            def go(x):
                if isinstance(x, dict):
                    return {a: b + 100000 * depth if a == 'd' and isinstance(b, int) else go(b) for a, b in x.items()}
                return [go(y) for y in x] if isinstance(x, list) else x
            s.copies[k] = {'p': go(f['p']), 'body': go(f['body']), 'cls': f.get('cls', '')}
        return s.copies[k]


SH = Shift()


class Walk(Paths):
    def __init__(s, T, f, pairs, args=None):
        s.T, s.P, s.f, s.pairs = T, T.P, f, pairs
        s.n, s.depth, s.stack = 0, 0, [f['key']]
        s.exits = []
        s.casts = {}            # node id -> [node, bad classes]
        s.pushed = []           # (container field, classes)
        s.calls = []            # calls of the setters of wrappers
        s.args = args or {}
        s.this = ['this']
        s.watch = None
        s.coarse = False
        s.tested = set()        # objects that are asked what they are
        s.blind = {}            # node id -> objects that reach a cast wrongly after states were joined

    def run(s):
        st = St()
        for p in s.f['p']:
            if p['n'] in s.args:
                st.cell[('v', p['d'])] = s.args[p['n']]
            elif cls(p['t']):
                st.cell[('v', p['d'])] = s.obj(st, ('p', p['d']), cls(p['t']))
        q = s.f.get('cls')
        for x in nodes(s.f['body']):
            if x['k'] == 'this' and cls(x.get('t')):
                q = cls(x['t'])
                break
        if q:
            st.cls['this'] = s.T.live(q) or s.T.subs(q)
        for r in s.block(s.f['body'], [st]):
            s.exits.append((r[0], r[2]))
        return s

    # ---- what no variable leads to any more need not be told apart
    def block(s, n, sts):
        if s.depth:
            return Paths.block(s, n, sts)
        gone = [v.get('d') for x in (n or {}).get('s') or [] if isinstance(x, dict) and x.get('k') == 'decl' for v in x['v']] if (n or {}).get('k') == 'seq' else []
        res, seen = [], set()
        for st, how, tok, node in Paths.block(s, n, sts):
            st = s.tidy(st, gone, tok)
            k = (st.key(), how, tok, id(node))
            if k not in seen:
                seen.add(k)
                res.append((st, how, tok, node))
        return res

    def tidy(s, st, gone, tok):
        st = st.copy()
        for d in gone:
            st.cell.pop(('v', d), None)
            st.ali.pop(d, None)
            st.ali.pop(('v', d), None)
        todo = list(s.this) + [v[1] for c, v in st.cell.items() if c[0] == 'v' and v and v[0] in ('o', 'tag')] + ([tok[1]] if tok and tok[0] in ('o', 'tag') else [])
        for v in list(st.ali.values()) + [v[1] for v in st.cell.values() if v and v[0] == 'at' and v[1]]:
            if isinstance(v, tuple) and v[0] == 'm':
                todo.append(v[1])
        by = {}
        for c, v in st.cell.items():
            if c[0] == 'm' and v and v[0] in ('o', 'tag'):
                by.setdefault(c[1], []).append(v[1])
        keep = set()
        while todo:
            o = todo.pop()
            if o not in keep:
                keep.add(o)
                todo += by.get(o, [])
                if isinstance(o, tuple) and o[0] == 'm':
                    todo.append(o[1])
        for c in [c for c in st.cell if c[0] == 'm' and c[1] not in keep]:
            del st.cell[c]
        for o in [o for o in st.cls if o not in keep]:
            del st.cls[o]
        return st

    # ---- statements the base class treats too coarsely
    def stmt(s, n, sts):
        k = n.get('k') if n else None
        if len(sts) > 6 and s.n > 1500:
            sts = [s.join(sts)]
        if k == 'rfor':
            s.n += len(sts)
            if s.n > LIMIT:
                raise Stop()
            out = [(st, 'next', None, None) for st in sts]
            v = n['v']
            vs = v.get('v') if v.get('k') == 'decl' else [v]
            live = sts
            for rnd in range(2):
                go = []
                for st in live:
                    for a, c in s.ev(n['r'], st):
                        a = a.copy()
                        q = cls(vs[0].get('t'))
                        if vs and q:
                            a.cell[('v', vs[0].get('d'))] = s.obj(a, ('e', n['l'], vs[0].get('d')), q, s.T.elems.get(c[1]) if c and c[0] == 'cont' else None)
                        go.append(a)
                live = []
                for r in s.block(n['b'], go):
                    if r[1] in ('next', 'cont'):
                        live.append(r[0])
                        out.append((r[0], 'next', None, None))
                    elif r[1] == 'break':
                        out.append((r[0], 'next', None, None))
                    else:
                        out.append(r)
                seen, l2 = set(), []
                for a in live:
                    if a.key() not in seen:
                        seen.add(a.key())
                        l2.append(a)
                live = l2
            return out
        if k == 'switch':
            out = []
            for st in sts:
                for a, v in s.ev(n['c'], st):
                    b = n['b']
                    items = [x for x in (b['s'] if b.get('k') == 'seq' else [b]) if x]
                    labels = []         # (index, constant or None for default)
                    for i, x in enumerate(items):
                        while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                            labels.append((i, const(x.get('v')) if x['k'] == 'case' else None))
                            x = x.get('s')
                    consts = [c for _, c in labels if c is not None]
                    for i, c in labels + ([(len(items), None)] if not any(c is None for _, c in labels) else []):
                        if c is not None:
                            go = [x for x, r in s.equal(v, c, a) if r]
                        else:
                            go = [a]
                            for c2 in consts:
                                go = [x for y in go for x, r in s.equal(v, c2, y) if not r]
                        if go:
                            for r in s.block({'k': 'seq', 's': items[i:]}, go):
                                out.append((r[0], 'next', None, None) if r[1] == 'break' else r)
            return out
        return Paths.stmt(s, n, sts)

    def join(s, sts):
        """one state for many: what they agree on; a verdict that then fails is no verdict"""
        s.coarse = True
        r = sts[0].copy()
        for a in sts[1:]:
            for c in list(r.cell):
                x, y = r.cell[c], a.cell.get(c)
                if x == y:
                    continue
                if y == NULL and x[0] == 'o':
                    continue
                if x == NULL and y and y[0] == 'o':
                    r.cell[c] = y
                    continue
                del r.cell[c]
            for o, k in a.cls.items():
                r.cls[o] = r.cls.get(o, frozenset()) | k
            r.ali = {k: v for k, v in r.ali.items() if a.ali.get(k) == v}
        return r

    # ---- values
    def obj(s, st, oid, q, classes=None):
        u = s.T.live(q)
        st.cls[oid] = u & classes if classes is not None else u
        for k in [k for k in st.cell if k[0] == 'm' and k[1] == oid]:
            del st.cell[k]
        return ('o', oid)

    def cellof(s, e, st):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e['k'] == 'var' and 'd' in e and not e.get('g'):
            c = ('v', e['d'])
            return st.ali.get(c, c)
        if e['k'] == 'mem':
            b = e.get('b')
            if not b or strip(b).get('k') == 'this':
                return ('m', s.this[-1], e.get('f') or e.get('n'))
            v = s.peek(b, st)
            if v and v[0] == 'o':
                return ('m', v[1], e.get('f') or e.get('n'))
        if e['k'] == 'un' and e['op'] == '*':
            v = s.peek(e['e'], st)
            if v and v[0] == 'at':
                return v[1]
        return None

    def peek(s, e, st):
        e = strip(e)
        if isinstance(e, dict) and e['k'] in ('var', 'mem', 'this'):
            r = s.ev(e, st)
            return r[0][1] if len(r) == 1 else None
        return None

    def assign(s, c, val, st, node):
        if c is None:
            return
        c = st.ali.get(c, c)
        if val is None:
            st.cell.pop(c, None)
        else:
            st.cell[c] = val

    def read(s, c, e, st):
        """what a variable or member holds"""
        if c in st.cell:
            return st.cell[c]
        q = cls(e.get('t'))
        if c[0] == 'm':
            pr = s.pairs.get(c[2])
            if pr:                       # a tag kept next to a pointer
                o = ('m', c[1], pr[0])
                v = st.cell.get(o)
                if v is None:
                    st.cell[o] = v = s.obj(st, o, pr[1])
                if v[0] == 'o':
                    return ('tag', v[1], c[2])
                return None
            if q and q in s.P.classes:
                st.cell[c] = s.obj(st, c, q, s.T.holds(c[2]))
                return st.cell[c]
            cs = st.cls.get(c[1])
            if not q and cs and all(s.T.field(x, c[2]) is not None for x in cs):
                return ('tag', c[1], 'field:' + c[2])
            if not q and re.search(r'(vector|list|deque|set)<|Array\b', e.get('t') or ''):
                return ('cont', c[2])
            return None
        if q and q in s.P.classes:
            st.cell[c] = s.obj(st, c, q)
            return st.cell[c]
        return None

    def ev(s, e, st):
        if not isinstance(e, dict):
            return [(st, None)]
        k = e.get('k')
        if k != 'cast':
            c = const(e)
            if c is not None and k != 'un':
                return [(st, ('k', c))]
        if k == 'this':
            return [(st, ('o', s.this[-1]))]
        if k == 'cast':
            return s.cast(e, s.ev(e['e'], st))
        if k in ('var', 'mem'):
            if k == 'var' and (e.get('g') or 'd' not in e):
                return [(st, None)]
            base = [(st, None)]
            if k == 'mem' and isinstance(e.get('b'), dict) and e['b'].get('k') not in ('this', 'var', 'mem'):
                base = s.ev(e['b'], st)
            out = []
            for a, bv in base:
                a = a.copy()
                c = s.cellof(e, a)
                if c is None and bv and bv[0] == 'o':
                    c = ('m', bv[1], e.get('f') or e.get('n'))
                out.append((a, s.read(c, e, a) if c else None))
            return out
        if k == 'un' and e['op'] == '&':
            c = s.cellof(e['e'], st)
            return [(a, ('at', c) if c else None) for a, _ in s.ev(e['e'], st)]
        if k == 'un' and e['op'] == '*':
            out = []
            for a, v in s.ev(e['e'], st):
                if v and v[0] == 'at':
                    a = a.copy()
                    out.append((a, s.read(v[1], e, a)))
                elif v and v[0] == 'it':
                    a = a.copy()
                    q = cls(e.get('t'))
                    out.append((a, s.obj(a, ('e', e.get('l'), 'it'), q, s.T.elems.get(v[1])) if q else None))
                else:
                    out.append((a, None))
            return out
        if k == 'un' and e['op'] in ('!',):
            return [(a, ('k', int(b))) for a, b in s.truth(e, st)]
        if k == 'bin' and e.get('as'):
            out = []
            for a, v in s.ev(e['b'], st):
                a = a.copy()
                c = s.cellof(e['a'], a)
                s.assign(c, v if e['op'] == '=' else None, a, e)
                out.append((a, v))
            return out
        if k == 'bin' and e['op'] in ('&&', '||', '==', '!='):
            return [(a, ('k', int(b))) for a, b in s.truth(e, st)]
        if k == 'cond':
            out = []
            for a, b in s.truth(e['c'], st):
                out += s.ev(e['a'] if b else e['b'], a)
            return out
        if k == 'new':
            q = re.sub(r'\b(const|class|struct) ?', '', e.get('t', '')).rstrip('*').strip()
            r = s.parts(e, st)
            if q in s.P.classes and not e.get('arr'):
                out = []
                for a, _ in r:
                    a = a.copy()
                    out.append((a, s.obj(a, ('n', e.get('l'), q), q, frozenset({q}))))
                return out
            return [(a, None) for a, _ in r]
        if k == 'idx':
            out = []
            for a, v in s.ev(e['b'], st):
                q = cls(e.get('t'))
                if v and v[0] == 'cont' and q:
                    a = a.copy()
                    out.append((a, s.obj(a, ('e', e.get('l'), 'idx'), q, s.T.elems.get(v[1]))))
                else:
                    out.append((a, None))
            return out
        if k == 'call':
            return s.call(e, st)
        if k == 'lambda':
            return [(st, None)]
        return s.parts(e, st)

    def cast(s, e, r):
        a, b = cls(e.get('ft')), cls(e.get('t'))
        if not (a and b and a != b and b in s.T.subs(a)):
            return r
        ok = s.T.subs(b)
        out = []
        for st, v in r:
            if e.get('st') == 'dynamic':
                if v and v[0] == 'o':
                    s.tested.add(v[1])
                    y, z = st.copy(), st.copy()
                    y.cls[v[1]] = st.cls.get(v[1], s.T.live(a)) & ok
                    z.cls[v[1]] = st.cls.get(v[1], s.T.live(a)) - ok
                    if y.cls[v[1]]:
                        out.append((y, v))
                    out.append((z, NULL))
                else:
                    out.append((st, None))
                continue
            if s.depth == 0:
                rec = s.casts.setdefault(id(e), [e, set(), 0])
                rec[2] += 1
                if v is None or v[0] not in ('o', 'k'):
                    st = st.copy()
                    rec[1] |= set(s.T.live(a)) - set(ok)
                    if s.coarse:
                        s.blind.setdefault(id(e), set()).add('?')
                        s.tested.add('?')
                elif v[0] == 'o':
                    bad = set(st.cls.get(v[1], s.T.live(a))) - set(ok)
                    rec[1] |= bad
                    if bad and s.coarse:
                        s.blind.setdefault(id(e), set()).add(v[1])
            if v and v[0] == 'o':
                st = st.copy()
                st.cls[v[1]] = st.cls.get(v[1], s.T.live(a)) & ok
                out.append((st, v))
            else:
                out.append((st, v if v and v[0] == 'k' else None))
        return out

    def call(s, e, st):
        n = e.get('n')
        o = e.get('o')
        cur = s.ev(o, st) if isinstance(o, dict) else [(st, None)]
        if o is None and e.get('op') is None and e.get('cls'):
            cur = [(a, ('o', s.this[-1])) for a, _ in cur]
        out = []
        f = s.P.funcs.get(e.get('fn'))
        for a, ov in cur:
            # containers
            if ov and ov[0] == 'cont':
                if n in PUSH:
                    for x in e.get('a') or []:
                        for b, v in s.ev(x, a):
                            q = cls(strip(x).get('t') if isinstance(strip(x), dict) else None) or cls(x.get('t'))
                            if v and v[0] == 'o':
                                s.pushed.append((ov[1], b.cls.get(v[1], frozenset())))
                            elif v and v[0] == 'k':
                                pass
                            else:
                                s.pushed.append((ov[1], s.T.live(q) if q else frozenset({'?'})))
                            out.append((b, None))
                    continue
                if n in ('at', 'operator[]', 'back', 'front') and cls(e.get('t')):
                    for b in [x for y in [s.parts({'a': e.get('a')}, a)] for x, _ in y]:
                        b = b.copy()
                        out.append((b, s.obj(b, ('e', e.get('l'), n), cls(e['t']), s.T.elems.get(ov[1]))))
                    continue
                if n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend'):
                    out.append((a, ('it', ov[1])))
                    continue
            if ov and ov[0] == 'it' and n in ('operator*',):
                b = a.copy()
                out.append((b, s.obj(b, ('e', e.get('l'), n), cls(e['t']), s.T.elems.get(ov[1])) if cls(e.get('t')) else None))
                continue
            # a method that tells what an object is
            if ov and ov[0] == 'o' and not e.get('a'):
                cs = a.cls.get(ov[1])
                if cs and all(s.T.tag(c, n) is not None for c in cs):
                    out.append((a, ('tag', ov[1], n)))
                    continue
            vals = [()]
            sts = [(a, ())]
            for i, x in enumerate(e.get('a') or []):
                nxt = []
                for b, vs in sts:
                    for c, v in s.ev(x, b):
                        nxt.append((c, vs + ((v, s.cellof(x, c)),)))
                sts = nxt
                if len(sts) > 64:
                    raise Stop()
            own = f and f.get('body') and OWN.match(f['file']) and s.depth < 3 and e['fn'] not in s.stack and len(f['p']) == len(e.get('a') or []) and not ((f.get('virt') or e.get('virt')) and not (isinstance(o, dict) and o.get('k') == 'this' and False)) and s.small(f)
            if f and s.watch and f['n'] == s.watch[0] and f.get('cls') == s.watch[1]:
                for b, vs in sts:
                    s.calls.append((b, [v for v, _ in vs], f))
            if own:
                out += s.enter(e, f, sts, ov)
                continue
            for b, vs in sts:
                # pointers and references handed to an unknown function may be changed by it
                b = b.copy()
                pts = e.get('pt') or []
                for i, (v, c) in enumerate(vs):
                    t = pts[i] if i < len(pts) else ''
                    if v and v[0] == 'at' and v[1]:
                        b.cell.pop(v[1], None)
                    elif c and t.endswith('&') and 'const' not in t:
                        b.cell.pop(c, None)
                q = cls(e.get('t'))
                if q and q in s.P.classes:
                    out.append((b, s.obj(b, ('c', e.get('l'), n), q, s.T.returned(e['fn']) if f and e.get('fn') in s.T.ask else None)))
                else:
                    out.append((b, None))
        return out

    def small(s, f):
        if '_small' not in f:
            f['_small'] = sum(1 for _ in nodes(f['body'])) < 160 and (f['ret'] != 'void' and (cls(f['ret']) is not None or re.search(r'bool|int|unsigned|Error|EScene|EGdtf|Array|vector', f['ret']) is not None) or any(p['t'].endswith('&') and 'const' not in p['t'] or p['t'].endswith('**') for p in f['p']))
        return f['_small']

    def enter(s, e, f, sts, ov):
        s.depth += 1
        s.stack.append(e['fn'])
        g = SH.get(f, s.depth)
        out = []
        s.this.append(ov[1] if ov and ov[0] == 'o' else ('x', e.get('l'), s.depth))
        try:
            for a, vs in sts:
                a = a.copy()
                for p, (v, c) in zip(g['p'], vs):
                    k = ('v', p['d'])
                    a.ali.pop(k, None)
                    a.cell.pop(k, None)
                    if c and p['t'].endswith('&'):
                        a.ali[k] = c
                    elif v is not None:
                        a.cell[k] = v
                    elif cls(p['t']):
                        a.cell[k] = s.obj(a, ('p', p['d']), cls(p['t']))
                lim = 100000 * s.depth
                for r in s.block(g['body'], [a]):
                    b = r[0].copy()
                    for k in [k for k in b.cell if k[0] == 'v' and isinstance(k[1], int) and k[1] >= lim]:
                        del b.cell[k]
                    for k in [k for k in b.ali if isinstance(k[1], int) and k[1] >= lim]:
                        del b.ali[k]
                    out.append((b, r[2] if r[1] == 'ret' else None))
        finally:
            s.depth -= 1
            s.stack.pop()
            s.this.pop()
        res, seen = [], set()
        for b, v in out:
            k = (b.key(), v)
            if k not in seen:
                seen.add(k)
                res.append((b, v))
        return res

    # ---- conditions
    def truth(s, e, st):
        while isinstance(e, dict) and e.get('k') == 'cast' and not cls(e.get('t')):
            e = e['e']
        if not isinstance(e, dict):
            return [(st, True), (st, False)]
        k = e.get('k')
        if k == 'un' and e['op'] == '!':
            return [(a, not b) for a, b in s.truth(e['e'], st)]
        if k == 'bin' and not e.get('as') and e['op'] in ('&&', '||'):
            out = []
            for a, b in s.truth(e['a'], st):
                if b == (e['op'] == '||'):
                    out.append((a, b))
                else:
                    out += s.truth(e['b'], a)
            return out
        if k == 'bin' and not e.get('as') and e['op'] in ('==', '!='):
            out = []
            for a, v in s.ev(e['a'], st):
                for b, w in s.ev(e['b'], a):
                    if v and w and v[0] == 'k' and w[0] == 'k':
                        r = [(b, v[1] == w[1])]
                    elif w and w[0] == 'k':
                        r = s.equal(v, w[1], b)
                    elif v and v[0] == 'k':
                        r = s.equal(w, v[1], b)
                    elif v and w and v[0] == 'tag' and w[0] == 'tag' and v[1] == w[1] and v[2] == w[2]:
                        r = [(b, True)]
                    else:
                        r = [(b, True), (b, False)]
                    out += [(c, x if e['op'] == '==' else not x) for c, x in r]
            return out
        out = []
        for a, v in s.ev(e, st):
            if v and v[0] == 'k':
                out.append((a, bool(v[1])))
            elif v and v[0] == 'tag':
                out += [(b, not r) for b, r in s.equal(v, 0, a)]
            else:
                out += s.equal(v, 0, a, True) if v and v[0] == 'o' else [(a, True), (a, False)]
        return out

    def equal(s, v, c, st, flip=False):
        """[(state, v == c)]"""
        if v and v[0] == 'k':
            return [(st, v[1] == c)]
        if v and v[0] == 'tag':
            s.tested.add(v[1])
            cs = st.cls.get(v[1])
            if cs is None:
                return [(st, True), (st, False)]
            yes, no = set(), set()
            for x in cs:
                t = s.tagset(x, v[2])
                if t is None or c in t:
                    yes.add(x)
                if t is None or t - {c}:
                    no.add(x)
            out = []
            if yes:
                a = st.copy()
                a.cls[v[1]] = frozenset(yes)
                out.append((a, True))
            if no:
                a = st.copy()
                a.cls[v[1]] = frozenset(no)
                out.append((a, False))
            return out
        if v and v[0] == 'o' and c == 0:
            r = [(st, True), (st, False)]
            a = st.copy()
            for k in [k for k, x in a.cell.items() if x == v]:
                a.cell[k] = NULL
            r = [(a, True), (st, False)]
            return [(x, not y) for x, y in r] if flip else r
        return [(st, True), (st, False)]

    def tagset(s, c, n):
        if n in s.pairs:
            m = s.pairs[n][2]
            return None if m is None else m.get(c, set())
        t = s.T.field(c, n[6:]) if n.startswith('field:') else s.T.tag(c, n)
        return None if t is None else {t}


def wrappers(T, P):
    """members that say what the object a neighbouring pointer member points to is: {tag member: (pointer member, class, {class: values})}"""
    pairs = {}
    for q, c in sorted(P.classes.items()):
        if not OWN.match(c.get('file', '')):
            continue
        ptrs = [x for x in c.get('fields') or [] if cls(x.get('t')) and len(T.live(cls(x['t']))) > 1 and not cls(x['t']).startswith('VectorworksMVR')]
        tags = [x for x in c.get('fields') or [] if re.search(r'ESceneObjType|EGdtfObjectType|ESceneDataObjectType|^bool$', x.get('t', ''))]
        if not ptrs or not tags:
            continue
        for key in sorted(P.funcs):
            f = P.funcs[key]
            if f.get('cls') != q or not f.get('body') or f.get('ctor'):
                continue
            w = {strip(x['a']).get('n') for x in nodes(f['body']) if x['k'] == 'bin' and x.get('as') and x['op'] == '=' and strip(x['a']).get('k') == 'mem' and (not strip(x['a']).get('b') or strip(strip(x['a'])['b']).get('k') == 'this')}
            for p in ptrs:
                for t in tags:
                    if p['n'] in w and t['n'] in w:
                        pairs.setdefault((q, t['n']), (q, p, t, []))[3].append(f)
    return pairs


def setter(T, P, q, p, t, fs):
    """{class: the values the tag has when the pointer points to an object of it}"""
    pf, tf = q + '::' + p['n'], q + '::' + t['n']
    rel = {}
    init = None
    unset = set()
    for c in T.methods.get((q, q.split('::')[-1]), []):
        for i in c.get('inits') or []:
            if i.get('n') == t['n'] or i.get('f') == tf:
                init = const(i.get('e') or i.get('init') or {})
        if c.get('body'):
            for x in nodes(c['body']):
                if x['k'] == 'bin' and x.get('as') and strip(x['a']).get('n') == t['n']:
                    init = const(x['b'])
    for f in fs:
        runs = []
        byarg = None
        for x in nodes(f['body']):
            if x['k'] == 'bin' and x.get('as') and strip(x['a']).get('n') == t['n'] and strip(x['b']).get('k') == 'var' and any(strip(x['b']).get('d') == y['d'] for y in f['p']):
                byarg = strip(x['b'])['n']
        if byarg:
            for key in sorted(P.funcs):
                g = P.funcs[key]
                if not g.get('body') or not OWN.match(g['file']) or not any(x['k'] == 'call' and x.get('fn') == f['key'] for x in nodes(g['body'])):
                    continue
                W = Walk(T, g, {})
                W.watch = (f['n'], q)
                W.run()
                for st, vals, _ in W.calls:
                    pv = tv = None
                    for prm, v in zip(f['p'], vals):
                        if prm['n'] == byarg:
                            tv = v
                        elif cls(prm['t']) == cls(p['t']):
                            pv = v
                    if not pv or pv[0] != 'o':
                        if pv and pv[0] == 'k':
                            continue
                        return None
                    for c in st.cls.get(pv[1], ()):
                        if tv and tv[0] == 'k':
                            rel.setdefault(c, set()).add(tv[1])
                        elif tv and tv[0] == 'tag' and tv[1] == pv[1] and T.tag(c, tv[2]) is not None:
                            rel.setdefault(c, set()).add(T.tag(c, tv[2]))
                        else:
                            return None
            continue
        W = Walk(T, f, {})
        W.run()
        if W.coarse:
            return None
        for st, _ in W.exits:
            pv = st.cell.get(('m', 'this', pf))
            tv = st.cell.get(('m', 'this', tf))
            if not pv or pv[0] == 'k':
                continue
            if pv[0] != 'o':
                return None
            for c in st.cls.get(pv[1], ()):
                if tv is None:
                    unset.add(c)
                elif tv[0] == 'k':
                    rel.setdefault(c, set()).add(tv[1])
                elif tv[0] == 'tag' and T.tag(c, tv[2]) is not None:
                    rel.setdefault(c, set()).add(T.tag(c, tv[2]))
                else:
                    return None
    # what the setter has no value for keeps the one of the constructor; if it sets one for others, these are not expected
    if not rel:
        if init is None:
            return None
        for c in unset:
            rel.setdefault(c, set()).add(init)
    return rel


def isiid(e):
    e = strip(e)
    return e.get('q') if isinstance(e, dict) and e.get('k') == 'var' and e.get('g') and 'VWIID' in (e.get('t') or '') else None


def values(e):
    return tuple(values(x) for x in e.get('a') or []) if e.get('k') == 'list' else const(e)


def ask(C, T, P):
    """asking for an interface by its id gives an object of that interface"""
    made = {}
    for f in P.funcs.values():
        if f['n'] != 'VWQueryInterface' or not f.get('body') or not OWN.match(f['file']):
            continue
        for x in nodes(f['body']):
            if x['k'] != 'if' or not x.get('th'):
                continue
            c = strip(x['c'])
            if not isinstance(c, dict) or c.get('k') != 'call' or c.get('n') != 'operator==':
                continue
            ids = [i for i in map(isiid, [c.get('o')] + (c.get('a') or [])) if i]
            nw = {re.sub(r'\b(const|class|struct) ?', '', y.get('t', '')).strip() for y in nodes(x['th']) if y['k'] == 'new'}
            if len(ids) == 1 and len(nw) == 1:
                made.setdefault(ids[0], (nw.pop(), '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), x.get('l') or f['l'])))
    seen = {}
    for i, (c, where) in sorted(made.items()):
        g = P.globals.get(i)
        v = values(g['init']) if g and g.get('init') else None
        if v is None or 'None' in str(v):
            continue
        C.ob('id', i, v not in seen, where, '' if v not in seen else '%s and %s are the same id' % (i, seen[v]))
        seen.setdefault(v, i)

    def is_a(c, q):
        return c in T.subs(q)
    for key in sorted(P.funcs):
        f = P.funcs[key]
        if not f.get('body') or not OWN.match(f['file']):
            continue
        for x in nodes([f['body'], f.get('inits') or []]):
            q = i = None
            if x['k'] == 'call' and x.get('n') == 'VWQueryInterface' and len(x.get('a') or []) == 2:
                i = isiid(x['a'][0])
                y = strip(x['a'][1])
                while isinstance(y, dict) and y.get('k') == 'cast':
                    y = strip(y['e'])
                if isinstance(y, dict) and y.get('k') == 'un' and y['op'] == '&':
                    q = cls(strip(y['e']).get('t'))
            elif x['k'] in ('ctor', 'call'):
                t = (x.get('c') if x['k'] == 'ctor' else x.get('cls')) or ''
                m = re.match(r'VectorworksMVR::VCOMPtr<(.*)>$', t)
                if m and x.get('a'):
                    q, i = re.sub(r'\b(const|class|struct) ?', '', m.group(1)).strip(), isiid(x['a'][0])
            if not i or not q or q not in P.classes or q.endswith('IVWUnknown'):
                continue
            k = '%s/%s' % (key, i.split('::')[-1])
            where = '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), x.get('l'))
            if i not in made:
                C.skip('iid', k, 'cannot tell what is created for this id')
                continue
            ok = is_a(made[i][0], q)
            C.ob('iid', k, ok, where, '' if ok else '%s asks for %s, gets a %s and uses it as a %s' % (f['q'], i.split('::')[-1], made[i][0].split('::')[-1], q.split('::')[-1]))


def run(P, tier):
    C = Check('C26', __doc__, 'path-sensitive analysis of the possible classes of every object at every downcast', 'proof-modulo')
    T = Tree(P)
    down, ifc = [], []
    for key in sorted(P.funcs):
        f = P.funcs[key]
        if not f.get('body') or not OWN.match(f['file']):
            continue
        for x in nodes(f['body']):
            if x['k'] == 'cast' and x.get('st') != 'dynamic':
                a, b = cls(x.get('ft')), cls(x.get('t'))
                if a and b and a != b and b in T.subs(a) and (a.split('::')[-1].startswith('I') and 'VCOMPtr<' not in f.get('cls', '') or any(T.tag(c, 'GetObjectType') is not None for c in T.live(a))):
                    (ifc if a.split('::')[-1].startswith('I') and len(T.live(a)) <= 1 else down).append((f, x, a, b))
    # interfaces with a single implementation
    for f, x, a, b in ifc:
        if b.split('::')[-1].startswith('I') and 'VCOMPtr' in f.get('cls', ''):
            continue
        live = T.live(a)
        bad = sorted(live - T.subs(b))
        C.ob('interface', '%s/%s' % (f['q'], b), not bad, '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), x.get('l')), '' if not bad else '%s takes a %s for a %s, but it can be a %s' % (f['q'], a, b, bad[0]))
    # what lists hold
    users = {f['key'] for f, x, a, b in down}
    for f, x, a, b in down:
        y = strip(x['e'])
        vs = {y.get('d')} if y.get('k') == 'var' else set()
        for z in [y] + [w for v in nodes(f['body']) if v['k'] == 'decl' for w in [strip(d.get('init')) for d in v['v'] if d.get('d') in vs] if w] + [strip(v['b']) for v in nodes(f['body']) if v['k'] == 'bin' and v.get('as') and strip(v['a']).get('d') in vs and vs]:
            if isinstance(z, dict) and z.get('k') == 'call' and z.get('fn'):
                T.ask.add(z['fn'])
    roots = set()
    for f, x, a, b in down:
        r = a
        while T.up.get(r):
            r = sorted(T.up[r])[0]
        roots.add(r)
    for rnd in range(2):
        elems = {}
        for key in sorted(P.funcs):
            f = P.funcs[key]
            if not f.get('body') or not OWN.match(f['file']) or not any(x['k'] == 'call' and x.get('n') in PUSH and any(cls((strip(y) or {}).get('t')) in P.classes for y in x.get('a') or []) for x in nodes(f['body'])):
                continue
            W = Walk(T, f, {})
            try:
                W.run()
                for c, k in W.pushed:
                    elems.setdefault(c, set()).update(k)
            except Stop:
                for x in nodes(f['body']):
                    if x['k'] == 'call' and x.get('n') in PUSH:
                        y = strip(x.get('o'))
                        if isinstance(y, dict) and y.get('f'):
                            elems.setdefault(y['f'], set()).add('?')
        T.elems = {k: frozenset(v) for k, v in elems.items() if '?' not in v}
        T.rets, T.kept = {}, None
    pairs = {}
    for (q, n), (q, p, t, fs) in sorted(wrappers(T, P).items()):
        rel = setter(T, P, q, p, t, fs)
        where = '%s:%s' % (fs[0]['file'].replace(facts.REPO + '/', ''), fs[0]['l'])
        if rel is None:
            C.skip('pair', q + '::' + n, 'cannot tell which values go with which class')
            continue
        pairs[q + '::' + n] = (q + '::' + p['n'], cls(p['t']), rel)
        C.ob('pair', q + '::' + n, True, where)
    for key in sorted(users):
        f = P.funcs[key]
        W = Walk(T, f, pairs)
        where = f['file'].replace(facts.REPO + '/', '')
        mine = [(x, a, b) for g, x, a, b in down if g is f]
        try:
            W.run()
        except Stop:
            for x, a, b in mine:
                C.skip('cast', '%s/%s' % (key, b), 'too many paths')
            continue
        for i, (x, a, b) in enumerate(mine):
            rec = W.casts.get(id(x))
            if rec is None:
                C.skip('cast', '%s/%s#%s' % (key, b, i), 'not reached')
                continue
            bad = sorted(rec[1])
            if bad and W.blind.get(id(x), set()) & W.tested:
                C.skip('cast', '%s/%s#%s' % (key, b, i), 'many paths')
                continue
            C.ob('cast', '%s/%s#%s' % (key, b, i), not bad, '%s:%s' % (where, x.get('l')), '' if not bad else '%s takes an object for a %s that can be a %s there' % (f['q'], b.split('::')[-1], ', '.join(y.split('::')[-1] for y in bad[:3])))
    ask(C, T, P)
    # every class says what it is
    fams = {}
    for f, x, a, b in down:
        for c in T.live(a):
            for n in ('GetObjectType',):
                if T.tag(c, n) is not None:
                    r = 'SceneDataObj' if c.startswith('SceneData::SceneData') else 'GdtfObject'
                    fams.setdefault(r, {})[c] = T.tag(c, n)
    for r, m in sorted(fams.items()):
        for c, v in sorted(m.items()):
            same = [d for d in m if d != c and m[d] == v]
            C.ob('named', c, not same, 'src', '' if not same else '%s and %s say they are the same kind of object' % (c, same[0]))
    C.need('cast', 130)
    C.need('interface', 30)
    C.need('iid', 60)
    C.need('id', 40)
    C.need('named', 30)
    return C.finish(P, tier)
