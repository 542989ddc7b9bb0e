"""References between MVR objects: which member receives which looked-up object after a scene was read."""
from mmodel import *
from links import LinkHooks

ENTRY = 'SceneData::SceneDataExchange::ReadFromGeneralSceneDescription'


class MvrLinkHooks(LinkHooks, MvrHooks):
    on_write = LinkHooks.on_write

    def on_call(self, eng, st, e, obj, argv, argl):
        if e['n'] in ('Equal', 'EqualNoCase') and obj and argv:
            for o in eng.vals(obj, st):
                for a in argv[0]:
                    self.log.append(('equal', o, a, st.pc, eng.where(e), e['n']))
        return MvrHooks.on_call(self, eng, st, e, obj, argv, argl)

    def extra(self, eng, st, e, obj, argv, argl):
        if e['n'] in ('find', 'count', 'at', 'operator[]', 'emplace', 'insert') and obj:
            self.log.append((e['n'], obj, argv, st.pc, eng.where(e), [f.fn['q'] for f in eng.stack]))
        if e['n'].startswith(('Read', 'Process')) and e.get('fn') in eng.P.funcs and not inline_links(eng, e['fn'], e):
            self.log.append(('reading', e['n'], None, st.pc, eng.where(e), None))
        return None


def inline_links(eng, key, call):
    n = call.get('n', '')
    if n.startswith(('Read', 'Process')) and n != 'ReadFromGeneralSceneDescription':
        return False
    return inline_mvr(eng, key, call)


_mem = {}


def mvr_log(P):
    if 'h' not in _mem:
        k = [k for k, f in P.funcs.items() if f['q'] == ENTRY]
        if not k:
            return None
        h = MvrLinkHooks(P)
        Engine(P, h, inline_links).run(k[0])
        _mem['h'] = h
    return _mem['h']


def owner_field(loc):
    return loc[2].rsplit('::', 1)


def elem_base(t):
    """collection (term) a looked-up object stands for an element of"""
    if t[0] == 'elem':
        return t[1]
    if t[0] == 'fld' and t[2].endswith('second'):
        return elem_base(t[1])
    return None


def texts(a, b, base):
    """(unresolved member of base, path of the identifying text below the candidate) of a comparison"""
    for x, y in ((a, b), (b, a)):
        for s in subterms(x):
            if isinstance(s, tuple) and len(s) == 3 and s[0] == 'fld' and s[1] == base and not s[2].endswith('::fGuid'):
                return s[2].split('::')[-1], y
    return None


def mvr_links(P):
    """[{field, cls, key, coll, how, where, pc}]"""
    h = mvr_log(P)
    if h is None:
        return None
    out = []
    for i, l in enumerate(h.log):
        if l[0] != 'write' or l[1][0] != 'fld':
            continue
        loc, vals = l[1], l[2]
        base = loc[1]
        if base[0] != 'elem':
            continue
        for v in vals:
            coll = elem_base(v)
            if v == NULL or coll is None:
                continue
            key = how = ident = None
            for j in range(i - 1, max(-1, i - 200), -1):
                m = h.log[j]
                if m[0] == 'find' and isinstance(m[1], frozenset) and coll in m[1] and m[2]:
                    ks = [s for t in m[2][0] for s in subterms(t) if isinstance(s, tuple) and s and s[0] == 'fld' and s[1] == base]
                    if ks:
                        key, how, ident = ks[0][2].split('::')[-1], 'find', None
                        break
                c = None
                if m[0] == 'cond':
                    t = m[1]
                    while t[0] == 'un':
                        t = t[2]
                    if t[0] == 'bin' and t[1] in ('==', '!='):
                        c = texts(t[2], t[3], base)
                        hw = '=='
                elif m[0] == 'equal':
                    c = texts(m[1], m[2], base)
                    hw = m[5]
                if c and any(s == v for s in subterms(c[1]) if isinstance(s, tuple)):
                    key, how, ident = c[0], hw, c[1]
                    break
            out.append(dict(cls=owner_field(loc)[0], field=owner_field(loc)[1], base=base, coll=coll, key=key, how=how, ident=ident, where=l[4], pc=l[3], i=i))
    return out
