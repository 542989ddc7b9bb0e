"""Write/read tables of the GDTF object model, extracted by dataflow from OnPrintToFile / OnReadFromNode / OnErrorCheck."""
from model import *

CONV = 'SceneData::GdtfConverter'


def inline_gdtf(eng, key, call):
    q = call.get('q', '')
    n = call.get('n', '')
    if q.startswith(CONV + '::Convert'):
        return False
    if n in ('WriteToNode', 'ReadFromNode', 'Send', 'AddError', 'CheckAbort', 'GetNodeReference', 'GetFileBuffers'):
        return False
    if call.get('virt') and n == 'GetNodeName':
        return False
    f = eng.P.funcs[key]
    if f['file'].endswith(('GDTFManager.cpp', 'GDTFManager.h')):
        return True
    return q.startswith(CONV + '::Traverse') or (f['n'] == 'operator()')


def this_field(t):
    """the member a term denotes, as a dotted path from this"""
    p = []
    while t[0] == 'fld':
        p.append(t[2].split('::')[-1])
        t = t[1]
    if t == THIS:
        return '.'.join(reversed(p))
    return None


def this_fields(t):
    r = set()
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'fld' and s[1] == THIS:
            r.add(s[2].split('::')[-1])
    return r


def conv_of_write(t):
    """(converter name, ordered source fields, position-sensitive)"""
    if t[0] == 'call' and t[2] == CONV:
        srcs = []
        for a in t[4]:
            f = this_field(a) if isinstance(a, tuple) else None
            srcs.append(f)
        return t[1], tuple(srcs)
    if t[0] == 'call' and t[1] == 'GetNodeReference':
        return 'reference', (this_field(t[3][0]) if t[3] else None,)
    f = this_field(t)
    if f:
        return 'text', (f,)
    if t[0] in ('str', 'int', 'float'):
        return 'const', (t[1],)
    return 'expr', tuple(sorted(this_fields(t)))


def attrs_in(t):
    return {s[2][1] for s in subterms(t) if isinstance(s, tuple) and len(s) == 3 and s[0] == 'attr' and isinstance(s[2], tuple) and s[2][0] == 'str'}


class Tables:
    pass


def reduce_all(t):
    """'not all of these hold' in a run that is not aborted and whose nodes exist"""
    rest = []
    for l, lp in t[1:]:
        if l == ('abort',):
            if lp:
                return None
            continue
        if l[0] in ('param', 'kid', 'child'):
            if not lp:
                return None
            continue
        rest.append((l, lp))
    if not rest:
        return None
    if len(rest) == 1:
        return rest[0][0], not rest[0][1]
    return ('all',) + tuple(rest), False


def base_pc(pc):
    """branch facts that are not about the environment (abort, presence of nodes)"""
    r = set()
    for t, p in pc:
        if t == ('abort',) or t[0] in ('param', 'kid', 'child'):
            continue
        if t[0] == 'all':
            q = reduce_all(t)
            if q:
                r.add(q)
            continue
        r.add((t, p))
    return r


def analyse(P, cls, MI, extra_inline=None):
    T = Tables()
    T.cls = cls
    T.fn = {}
    T.w = []
    T.wc = []
    T.rd = []
    T.rc = []
    T.fin = {}
    T.events_r = []
    kw = MI.find(cls, 'OnPrintToFile')
    kr = MI.find(cls, 'OnReadFromNode')
    ke = MI.find(cls, 'OnErrorCheck')
    T.kw, T.kr, T.ke = kw, kr, ke
    NODE = ('param', 0, 'node')
    if kw:
        h = XmlHooks(P)
        eng = Engine(P, h, inline_gdtf)
        eng.run(kw, args=[NODE])
        T.w = h.events
    if kr:
        h = XmlHooks(P)
        eng = Engine(P, h, inline_gdtf)
        ex, val, _, fr = eng.run(kr, args=[NODE])
        T.rd = h.events
        T.exit = ex
        if ex:
            for k, v in ex.env.items():
                T.fin[k] = v
    if ke:
        h = ErrHooks(P)
        eng = Engine(P, h, inline_gdtf)
        eng.run(ke, args=[NODE])
        T.chk = h.calls
        T.chk_events = h.events
    return T


class ErrHooks(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.calls = []

    def extra(self, eng, st, e, obj, argv, argl):
        if e['n'].startswith('Check') and 'GdtfConverter' in e.get('cls', ''):
            self.calls.append((e['n'], argv, eng.where(e), st.pc))
            return E()
        return None
