"""Write/read tables of the MVR scene objects (SceneDataExchange.cpp), in the shape the GDTF tables have.

The text of an XML node is treated as an attribute called '#text'. Objects without a class of their own (DMX addresses,
protocols, provider entries) become members 'list[].field' of the object that owns the list."""
from gmodel import *

MBASE = 'SceneData::SceneDataObj'
TEXT = ('str', '#text')
MFILES = ('SceneDataExchange.cpp', 'SceneDataExchange.h')


def inline_mvr(eng, key, call):
    q = call.get('q', '')
    n = call.get('n', '')
    if q.startswith(CONV + '::Convert'):
        return False
    if n in ('PrintToFile', 'ReadFromNode', 'AddError', 'AddNeededGdtfFile', 'CheckAbort'):
        return False
    if call.get('virt') and n == 'GetNodeName':
        return False
    f = eng.P.funcs[key]
    if f['file'].endswith(MFILES):
        return True
    return q.startswith(CONV + '::Traverse') or f['n'] == 'operator()'


def struct_fields(st, v):
    if v[0] == 'tmp':
        base = v
    elif v[0] == 'undef' and len(v) == 3:
        base = ('L', v[1], v[2])
    else:
        return {}
    return {k[2]: x for k, x in st.env.items() if k[0] == 'fld' and k[1] == base}


class MvrHooks(XmlHooks):
    def on_call(self, eng, st, e, obj, argv, argl):
        n = e['n']
        cls = e.get('cls', '')
        if cls.endswith('IXMLFileNode') or cls.endswith('CXMLFileNodeImpl'):
            if n == 'FindChildNode':
                e = dict(e, n='GetChildNode')
                return super().on_call(eng, st, e, obj, argv, argl)
            if n in ('GetNodeValue', 'SetNodeValue'):
                nodes = eng.vals(obj, st) if obj and all(o[0] in ('L', 'fld', 'G') for o in obj) else obj
                nd = eng.one(nodes)
                if n == 'GetNodeValue':
                    self.ev(eng, st, 'read', e, node=nd, name=TEXT, target=argl[0])
                    for l in argl[0]:
                        eng.write(l, E([('attr', nd, TEXT)]), st, e)
                    return E([('hasval', nd)])
                self.ev(eng, st, 'write', e, node=nd, name=TEXT, value=argv[0])
                return E([('int', 0)])
        if n == 'PrintToFile':
            self.ev(eng, st, 'childwrite', e, obj=obj, node=eng.one(argv[0]))
            return E()
        if n in ('push_back', 'emplace_back') and obj:
            self.ev(eng, st, 'push', e, obj=obj, value=argv[0], struct={v: struct_fields(st, v) for v in argv[0]})
            return None
        return super().on_call(eng, st, e, obj, argv, argl)

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc[0] == 'fld' and not init:
            self.events.append({'kind': 'set', 'loc': loc, 'value': vals, 'pc': st.pc, 'where': eng.where(node), 'stack': [f.fn['q'] for f in eng.stack],
                                'struct': {v: struct_fields(st, v) for v in vals}})


def kid_names(events):
    """element name of every 'some child of X' term, when the branch facts of all uses agree on one"""
    d = {}
    for ev in events:
        here = {}
        for t, pol in ev['pc']:
            if t[0] == 'bin' and t[1] == '==' and pol:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if a[0] == 'nodename' and a[1][0] == 'kid' and b[0] == 'str':
                        here.setdefault(a[1], set()).add(b)
        for k, v in here.items():
            d.setdefault(k, set()).update(v)
    return {k: next(iter(v)) for k, v in d.items() if len(v) == 1}


def normaliser(names):
    memo = {}

    def norm(t):
        if not isinstance(t, (tuple, frozenset)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if isinstance(t, frozenset):
            r = frozenset(norm(x) for x in t)
        elif t and t[0] == 'kid' and t in names:
            r = ('child', norm(t[1]), names[t])
        elif t and t[0] in ('elem', 'idx') and len(t) >= 2 and isinstance(t[1], tuple) and t[1][0] == 'fld' and t[1][1] == THIS:
            r = ('fld', THIS, t[1][2] + '[]')
        elif t and t[0] == 'call' and t[1] == 'itoa':
            r = ('call', 'ConvertInteger', CONV, (), norm(t[4]))
        else:
            r = tuple(norm(x) for x in t)
        memo[t] = r
        return r
    return norm


def index_cond(t):
    """condition on a loop counter, or that a list has another element"""
    if t[0] == 'all':
        return any(index_cond(l) for l, p in t[1:])
    return any(isinstance(s, tuple) and s and (s[0] in ('step', 'size') or s[0] == 'any' and s is not t) for s in subterms(t))


def clean_pc(pc, norm):
    r = set()
    for t, p in pc:
        if index_cond(t):
            continue
        r.add((norm(t), p))
    return frozenset(r)


class MT(Tables):
    pass


def expand_struct(events, fin):
    """copies of local structs into members (or into list elements) as writes of their fields"""
    out = []
    for ev in events:
        out.append(ev)
        if ev['kind'] in ('push', 'set') and ev.get('struct'):
            locs = ev['obj'] if ev['kind'] == 'push' else [ev['loc']]
            suffix = '[]' if ev['kind'] == 'push' else ''
            for loc in locs:
                if this_field(loc) is None:
                    continue
                base = ('fld', loc[1], loc[2] + suffix)
                for v, fs in ev['struct'].items():
                    for f, x in fs.items():
                        l = ('fld', base, f)
                        fin[l] = E(fin.get(l, E()) | x)
                        out.append(dict(ev, kind='set', loc=l, value=x, struct={}))
                    if not fs and ev['kind'] == 'push' and v[0] not in ('new', 'undef', 'tmp'):
                        fin[base] = E(fin.get(base, E()) | E([v]))
                        out.append(dict(ev, kind='set', loc=base, value=E([v]), struct={}))
    return out


def analyse_mvr(P, cls, MI):
    T = MT()
    T.cls = cls
    T.kw, T.kr = MI.find(cls, 'OnPrintToFile'), MI.find(cls, 'OnReadFromNode')
    T.w, T.rd, T.fin = [], [], {}
    args = [('param', 0, 'node'), ('param', 1, 'exchange')]
    hw, hr = MvrHooks(P), MvrHooks(P)
    if T.kw:
        Engine(P, hw, inline_mvr).run(T.kw, args=args, this_cls=cls)
    fin = {}
    if T.kr:
        ex, _, _, _ = Engine(P, hr, inline_mvr).run(T.kr, args=args, this_cls=cls)
        if ex:
            fin = dict(ex.env)
    rd = expand_struct(hr.events, fin)
    for evs, dst in ((hw.events, T.w), (rd, T.rd)):
        norm = normaliser(kid_names(evs))
        for ev in evs:
            ev = dict(ev)
            for k in ('node', 'name', 'loc'):
                if k in ev:
                    ev[k] = norm(ev[k])
            for k in ('value', 'obj'):
                if k in ev and ev[k] is not None:
                    ev[k] = frozenset(norm(x) for x in ev[k])
            ev['pc'] = clean_pc(ev['pc'], norm)
            dst.append(ev)
    norm = normaliser(kid_names(rd))
    for k, v in fin.items():
        T.fin[norm(k)] = E(norm(x) for x in v)
    # the printed form of a guid is chosen by the guid itself: keep the form that carries a value
    for ev in T.w:
        if ev['kind'] == 'write':
            vs = [v for v in ev['value'] if not (this_field(v) or '').endswith('_typeEntry')]
            if vs:
                ev['value'] = frozenset(vs)
    return T
