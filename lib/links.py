"""Reference resolution of the GDTF model: which member receives which looked-up object, keyed by which unresolved text."""
from gmodel import *


class LinkHooks(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.log = []
        self.jumps = []      # break/return inside a loop: (statement, pc, where, stack, loops)

    def on_jump(self, eng, st, s):
        self.jumps.append((s, st.pc, eng.where(s), [f.fn['q'] for f in eng.stack], list(eng.loops)))

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc[0] == 'fld' and not init:
            self.log.append(('write', loc, vals, st.pc, eng.where(node), [f.fn['q'] for f in eng.stack], [id(l[1]) for l in eng.loops]))

    def on_cond(self, eng, st, v, e):
        for t in v:
            self.log.append(('cond', t, None, st.pc, eng.where(e), [f.fn['q'] for f in eng.stack]))

    def on_cast(self, eng, st, e, v):
        return v        # a checked cast gives the object itself; that it may fail is C26's business

    def extra(self, eng, st, e, obj, argv, argl):
        n = e['n']
        if key_call(eng, e):
            self.log.append(('call', obj, argv, st.pc, eng.where(e), [f.fn['q'] for f in eng.stack], e['fn']))
        if n == 'AddError':
            self.log.append(('adderr', argv, None, st.pc, eng.where(e), [f.fn['q'] for f in eng.stack]))
            return E()
        if n in ('find', 'count', 'at', 'operator[]', 'emplace', 'insert', 'equal_range') and obj:
            self.log.append((n, obj, argv, st.pc, eng.where(e), [f.fn['q'] for f in eng.stack]))
        return None


def key_call(eng, e):
    return e.get('fn') in eng.P.funcs and any(f.fn['key'] == e['fn'] for f in eng.stack)


def inline_res(eng, key, call):
    if call.get('n') in ('GetNodeReference', 'AddError', 'CheckAbort'):
        return False
    f = eng.P.funcs[key]
    if f['q'].startswith(CONV):
        return False
    return f['file'].endswith(('GDTFManager.cpp', 'GDTFManager.h')) or f['n'] == 'operator()'


def resolve_log(P):
    h = LinkHooks(P)
    eng = Engine(P, h, inline_res)
    k = [k for k, f in P.funcs.items() if f['q'] == 'SceneData::GdtfFixture::ResolveAllReferences']
    if not k:
        return None, None
    ex, v, _, fr = eng.run(k[0])
    return h, ex


def fields_of(t):
    """[(base, 'Class::field')] of every member mentioned in a term"""
    for s in subterms(t):
        if isinstance(s, tuple) and len(s) == 3 and s[0] == 'fld':
            yield s


def link_table(P):
    """[{class, field, loc, values, keys, where, log index}] for every pointer member the resolution pass assigns, with the
    unresolved texts (members of the same object) that were used as lookup key for the assigned value"""
    h, ex = resolve_log(P)
    if h is None:
        return None, None
    out = []
    seen = set()
    for i, l in enumerate(h.log):
        if l[0] != 'write' or l[1][0] != 'fld':
            continue
        loc, vals = l[1], l[2]
        base = loc[1]
        if base[0] == 'new' or base == THIS:
            continue
        keys = set()
        colls = set()
        idents = set()
        for v in vals:
            if v == NULL:
                continue
            c = coll_of(v)
            if c:
                colls.add(c)
            if v[0] == 'out' and v[1].startswith('Convert'):
                for f in fields_of(v[4]) if len(v) > 4 else ():
                    if f[1] == base:
                        keys.add((f[2], v[1]))
            if v[0] == 'fld' and v[1] == base:
                keys.add((v[2], 'copy'))
        # last keyed lookups before the assignment whose collection is one the value can come from
        for c in colls:
            for j in range(i - 1, max(-1, i - 400), -1):
                m = h.log[j]
                k = lookup_key(m, c)
                if k is not None:
                    for f in k:
                        if f[1] == base:
                            keys.add((f[2], 'key'))
                    idents |= ident_of(m, c, h.log, {f[2].split('::')[-1] for f in k if f[1] == base})
                    break
        out.append({'cls': loc[2].rsplit('::', 1)[0], 'field': loc[2].rsplit('::', 1)[1], 'loc': loc, 'vals': vals, 'keys': keys, 'idents': idents, 'colls': colls, 'where': l[4], 'i': i, 'pc': l[3], 'stack': l[5], 'loops': l[6]})
    return out, h


def coll_of(v):
    """container a looked-up object comes from"""
    if v[0] == 'elem':
        return v[1]
    if v[0] == 'fld' and v[2].endswith('second'):
        return coll_of(v[1])
    return None


def lookup_key(m, c):
    if m[0] in ('find', 'at', 'operator[]', 'count') and isinstance(m[1], frozenset) and c in m[1] and m[2]:
        return [f for t in m[2][0] for f in fields_of(t)]
    if m[0] == 'cond':
        t = m[1]
        while t[0] == 'un':
            t = t[2]
        if t[0] == 'bin' and t[1] in ('==', '!='):
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if names_elem(x, ('elem', c)):
                    r = list(fields_of(y))
                    if r:
                        return r
    return None


def names_elem(x, el):
    """x is the identifying text of element el: its node reference or one of its members"""
    if x[0] == 'call' and x[1] == 'GetNodeReference':
        return bool(x[3]) and (x[3][0] == el or (isinstance(x[3][0], frozenset) and el in x[3][0]))
    return x[0] == 'fld' and x[1] == el and not x[2].endswith(('::second', '::first'))


def ident_of(m, c, log, own=frozenset()):
    """by which text of the candidate objects a lookup selects: {'ref'} for the node reference, or member names"""
    r = set()
    if m[0] == 'cond':
        t = m[1]
        while t[0] == 'un':
            t = t[2]
        for x in (t[2], t[3]):
            r |= text_ident(x, ('elem', c))
        return {'ref'} if 'ref' in r else r - own
    for l in log:
        if l[0] in ('emplace', 'insert', 'operator[]') and c in l[1] and len(l[2]) >= 2:
            for k in l[2][0]:
                for v in l[2][1]:
                    r |= text_ident(k, v) or {'?' + show(k)}
    return r


def text_ident(x, el):
    if x[0] == 'call' and x[1] == 'GetNodeReference' and names_elem(x, el):
        return {'ref'}
    if x[0] == 'fld' and x[1] == el:
        return {x[2].split('::')[-1]}
    return set()
