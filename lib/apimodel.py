"""What the API wrapper classes (src/Implementation) do to the model objects behind them."""
from model import *

API = 'VectorworksMVR::'
MODEL = ('GDTFManager.cpp', 'GDTFManager.h', 'SceneDataExchange.cpp', 'SceneDataExchange.h', 'CieColor.h', 'CieColor.cpp', 'VWPoint2D.h', 'VWPoint2D.cpp', 'VWPoint3D.h', 'VWPoint3D.cpp', 'RGBColor.cpp', 'RGBColor.h', 'UUID.h')


def inline_api(eng, key, call):
    f = eng.P.funcs[key]
    if f['n'] in ('AddError', 'CheckAbort', 'AddRef', 'Release', 'VWQueryInterface'):
        return False
    if f['q'].startswith('SceneData::GdtfConverter::Convert') or '::GdtfUtil::' in f['q'] and f['n'] not in ('ConvertMatrix', 'ConvertVector3'):
        return False
    if f.get('virt') and call.get('virt') and f['n'] in ('GetNodeName', 'GetNodeReference'):
        return False
    return f['file'].endswith(MODEL) or '/Implementation/' in f['file'] or f['n'] == 'operator()' or f['q'].endswith(('GdtfUtil::ConvertMatrix', 'GdtfUtil::ConvertVector3'))

NOT_STORE = {'push_back', 'emplace_back', 'insert', 'size', 'begin', 'end', 'find', 'at', 'erase', 'count', 'empty'}


class ApiHooks:
    def __init__(self, P):
        self.P = P
        self.writes = []        # (loc, values, pc, where, index)
        self.calls = []
        self.derefs = []
        self.n = 0

    def on_write(self, eng, st, loc, vals, node, init=False):
        if init:
            return
        self.note(eng, st, loc, vals, node)
        for v in vals:
            if v[0] in ('tmp', 'L', 'new'):
                self.parts(eng, st, loc, v, node)

    def note(self, eng, st, loc, vals, node):
        self.n += 1
        self.writes.append((loc, vals, st.pc, eng.where(node), self.n))
        st.must = st.must | {('w', loc)}

    def parts(self, eng, st, loc, src, node):
        """the parts of a copied local object"""
        for k, vs in list(st.env.items()):
            if k[0] in ('fld', 'elem', 'idx') and k != src:
                d = rebase(k, src, loc)
                if d is not None:
                    self.note(eng, st, d, vs, node)

    def on_call(self, eng, st, e, obj, argv, argl):
        n = e['n']
        self.n += 1
        if 'ostream' in e.get('q', '') or obj and any(o == ('G', 'std::cout') for o in obj) or argv and any(v[0] == 'G' and v[1].startswith('std::c') for v in argv[0]):
            return obj or (argv[0] if argv else E())
        if n == 'operator=' and obj and argl and argl[0] and not (e.get('fn') in self.P.funcs and inline_api(eng, e['fn'], e)):
            for o in obj:
                for l in argl[0]:
                    if l[0] in ('L', 'tmp'):
                        self.parts(eng, st, o, l, e)
        if n in ('memcpy', 'memmove') and len(argv) == 3:
            # the content of the buffer, kept in whatever holds the pointer
            for d in argv[0]:
                for k, vs in list(st.env.items()):
                    if k == d or d in vs:
                        self.note(eng, st, ('fld', k, '::[content]'), E([('fld', s, '::[content]') for s in argv[1]]), e)
        if n == 'DoesNameContainInvalidChars':
            return E()          # takes characters out that no name may have
        self.calls.append((n, obj, argv, st.pc, eng.where(e), e, self.n, len(eng.stack)))
        st.must = st.must | {('c', n, o) for o in obj or ()}
        if e.get('cls') and not e.get('cm') and obj and argv and not (e.get('fn') in self.P.funcs and inline_api(eng, e['fn'], e)) and n not in NOT_STORE and not n.startswith('operator'):
            # an opaque method that changes a member: the member holds what it was given
            for o in obj:
                if mpath(o):
                    self.writes.append((o, E([('call', n, e.get('cls'), (), tuple(a if len(a) != 1 else next(iter(a)) for a in argv))]), st.pc, eng.where(e), self.n))
                    st.must = st.must | {('w', o)}
        if n in ('push_back', 'emplace_back', 'insert') and obj:
            st.must = st.must | {('push', o, v) for o in obj for v in argv[-1]}
        return None


def wrappers(P):
    """wrapper classes: class -> interface"""
    r = {}
    for c, d in P.classes.items():
        for b in d['bases']:
            if 'VCOMImpl' in b or 'VCOMImpl' in str(d.get('basest', '')):
                r[c] = b
    return r


def methods(P, cls):
    d = {}
    for k, f in P.funcs.items():
        if f.get('cls') == cls and not f.get('ctor') and not f.get('dtor') and f['n'] and not f['n'].startswith('~') and f['n'] != cls.split('::')[-1]:
            d[k] = f
    return d


class M:
    pass


_memo = {}


def analyse_method(P, key):
    m = _memo.get(key)
    if m is None:
        m = M()
        m.f = P.funcs[key]
        m.h = ApiHooks(P)
        eng = Engine(P, m.h, inline_api)
        eng.structs = True
        m.exit, m.val, _, m.fr = eng.run(key)
        _memo[key] = m
    return m


def uncast(t):
    while t and t[0] in ('dyn', 'cast') and len(t) > 2 and isinstance(t[-1], tuple):
        t = t[-1]
    return t


def mpath(t):
    """('this member', ..., 'member') of a location below this, '[]' for elements; None otherwise"""
    p = []
    while True:
        t = uncast(t)
        if t == THIS:
            return tuple(reversed(p))
        if t[0] == 'G' and p == [] and not t[1].startswith('std::'):
            return ('::' + t[1],)
        if t[0] == 'fld':
            p.append(t[2].split('::')[-1])
            t = t[1]
        elif t[0] in ('elem', 'idx'):
            i = [const_int(x) for x in t[2:3]]
            p.append('[]' if not i or i[0] is None else '[%s]' % i[0])
            t = t[1]
        else:
            return None


def params_in(t):
    return {s[1] for s in subterms(t) if isinstance(s, tuple) and len(s) == 3 and s[0] == 'param'}


def rebase(t, old, new):
    """the location t with the object old replaced by new, None when t is no part of old"""
    if t == old:
        return new
    if t[0] in ('fld', 'elem', 'idx'):
        b = rebase(t[1], old, new)
        return None if b is None else (t[0], b) + t[2:]
    return None


def members_in(t):
    """longest model paths mentioned in a term"""
    r = set()

    def walk(x):
        if not isinstance(x, (tuple, frozenset)):
            return
        if isinstance(x, tuple) and x and x[0] in ('fld', 'elem', 'idx', 'dyn'):
            p = mpath(x)
            if p:
                r.add(p)
                if x[0] in ('elem', 'idx'):
                    for y in x[2:]:
                        walk(y)
                return
        for y in x:
            walk(y)
    walk(t)
    return r


def wrapper_classes(P):
    return sorted({f['cls'] for f in P.funcs.values() if '/Implementation/' in f['file'] and f.get('cls', '').startswith(API)})


def slotof(t):
    """(parameter index, field path) when the term is a parameter or a part of one"""
    t = uncast(t)
    p = []
    while t and t[0] in ('fld', 'deref'):
        if t[0] == 'fld':
            p.append(t[2].split('::')[-1])
        t = uncast(t[1])
    return (t[1], tuple(reversed(p))) if t and t[0] == 'param' else None


def slots_in(t):
    """the largest parts of parameters mentioned in a term"""
    s = slotof(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else None
    if s:
        return {s}
    r = set()
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            r |= slots_in(x)
    return r


# -- interface identifiers -------------------------------------------------------------------------------------------

class FactoryHooks:
    def __init__(self):
        self.made = []      # (class, pc, where)
        self.out = []       # (values, pc, where)
        self.refs = []

    def on_new(self, eng, st, e, t):
        self.made.append((t, st.pc, eng.where(e)))

    def on_write(self, eng, st, loc, vals, node, init=False):
        if slotof(loc):
            self.out.append((vals, st.pc, eng.where(node)))

    def on_call(self, eng, st, e, obj, argv, argl):
        if e['n'] in ('AddRef', 'Release'):
            self.refs.append((e['n'], obj, st.pc, eng.where(e)))
        return None


_fac = {}


def factory(P):
    """identifier -> {implementation class} as decided by the branches of the global VWQueryInterface; the hooks with all events"""
    if id(P) in _fac:
        return _fac[id(P)]
    ks = [k for k, f in P.funcs.items() if f['q'] == 'VWQueryInterface' and f.get('body')]
    if not ks:
        return None
    h = FactoryHooks()
    eng = Engine(P, h, lambda eng, key, call: not eng.P.funcs[key]['n'].startswith('operator') and not eng.P.funcs[key].get('ctor') and eng.P.funcs[key]['n'] not in ('AddRef', 'Release') and eng.P.funcs[key]['file'].endswith('ModuleMain.cpp'))
    ex, val, _, fr = eng.run(ks[0])
    r = {}
    for t, pc, w in h.made:
        c = t[1] if isinstance(t, tuple) else t
        iids = [g for x, p in pc if p for g in iids_in(x)]
        for g in iids or ['?']:
            r.setdefault(g, set()).add(c)
    _fac[id(P)] = (r, h, fr, ks[0])
    return _fac[id(P)]


def iids_in(t):
    return [x[1] for x in subterms(t) if isinstance(x, tuple) and x[:1] == ('G',) and '::IID_' in '::' + x[1]]


def ancestors(P, c):
    """the class and every class it derives from, through the VCOM implementation templates"""
    r, todo = set(), [c]
    while todo:
        x = todo.pop()
        if x in r:
            continue
        r.add(x)
        if '<' in x and x.endswith('>'):
            todo.append(x[x.index('<') + 1:-1])
        todo += P.classes.get(x, {}).get('bases', [])
    return r
